------------------------------ MODULE Toolbox ------------------------------
(***************************************************************************)
(* The toolbox as a state machine.                                         *)
(*                                                                         *)
(* State: which of the model's pore volume, flux and inflow fields was     *)
(* last accepted (0: none yet), and the adjacency the toolbox keeps from   *)
(* the last computation (built, cflux: the fluxes it was made of).         *)
(*                                                                         *)
(* Every call is an action with an outcome: accepted, refused with a logic *)
(* error, refused with a runtime error, or (two faults at once) refused    *)
(* with either.  A refused call changes nothing, computing changes only    *)
(* the kept adjacency.  TLC explores the whole state graph and prints      *)
(*   - the concrete input fields and start lists of the model,             *)
(*   - the exact solution for each accepted combination of fields,         *)
(*   - each transition of the graph with its outcome,                      *)
(* and the harness (harness/hist.cpp) walks the graph with the real        *)
(* toolbox.                                                                *)
(***************************************************************************)
EXTENDS FlowOut, Prng, TLC, Json

CONSTANTS Model, Seed, Emit

VARIABLES pv, flux, inflow, built, cflux, setup

vars == <<pv, flux, inflow, built, cflux, setup>>

Pick(r, s) == s[1 + (r % Len(s))]
R == Rnd(Seed, 60000 + Model, 140)

(***************************************************************************)
(* The model: a graph, and for each kind of input a few fields.  Fields    *)
(* are related (permuted, negated, equal sums) on purpose.                 *)
(***************************************************************************)
n == IF Model % 8 = 6 THEN 0 ELSE IF Model % 5 = 0 THEN 3 ELSE 3 + (R[1] % 2)       \* sometimes without cells
m == IF n = 0 \/ Model % 5 = 0 THEN 0 ELSE 3 + (R[2] % 3)                         \* or connections

conns == [k \in 1..m |-> LET a == R[2 + 2*k] % n  b == R[3 + 2*k] % n
                         IN  IF k < n THEN <<k - 1, k>>
                             ELSE IF a = b THEN <<a, (b + 1) % n>> ELSE <<a, b>>]

Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Rotate(s) == [k \in 1..Len(s) |-> s[1 + (k % Len(s))]]

PvFields == LET a == [c \in 1..n |-> 1 + (R[20 + c] % 4)]
            IN  IF n = 0 THEN << <<>> >> ELSE << a, Reverse(a), [c \in 1..n |-> a[c] + c], [c \in 1..n |-> IF c = 1 THEN 0 ELSE a[c]] >>
\* refused: wrong number of cells
BadPv == IF n = 0 THEN << <<1>> >> ELSE << SubSeq(PvFields[1], 1, n - 1), PvFields[1] \o <<1>>, <<>> >>

FluxFields ==
    LET a == [k \in 1..m |-> <<Pick(R[40 + k], <<1, 2, 1, -1, -2, 1>>)>>]
    IN  IF m = 0 THEN << <<>> >>
        ELSE << a, Rotate(a),
                [k \in 1..m |-> <<-a[k][1]>>],
                [k \in 1..m |-> <<a[k][1] + 1, -1>>],                    \* two phases, same net flux
                [k \in 1..m |-> <<IF k % 2 = 1 THEN a[k][1] ELSE 0>>],
                [k \in 1..m |-> <<Pick(R[48 + k], <<1, -1, 2, 0>>), 1, -1>>],
                [k \in 1..m |-> <<>>] >>                                 \* no phases, no flow
BadFlux == IF m = 0 THEN << << <<1>> >> >>
           ELSE << SubSeq(FluxFields[1], 1, m - 1), FluxFields[1] \o << <<2>> >>, <<>> >>

\* <<id, cell, rate>>; a rate of zero is neither injection nor production
InflowFields ==
    IF n = 0 THEN << <<>> >> ELSE
    << << <<1, 0, 1>>, <<2, n - 1, -1>> >>,
       << <<1, 0, 2>>, <<3, 1, 1>>, <<2, n - 1, -2>>, <<4, 1, -1>> >>,
       << <<3, 0, 1>>, <<1, 1, 2>>, <<4, n - 1, -1>>, <<1, n - 1, -2>> >>,      \* ids and cells swapped, id 1 of both signs
       <<>>,
       << <<1, 0, 0>>, <<2, 0, 1>>, <<2, 1, 1>>, <<4, n - 1, 0>>, <<5, 2, -1>> >>,
       << <<1, 0, 1>>, <<3, 0, 1>>, <<2, n - 1, -1>>, <<4, n - 1, -1>> >> >>     \* two ids per cell
\* refused: a cell outside the model (after some that are inside)
BadInflow == IF n = 0 THEN << << <<1, 0, 1>> >> >> ELSE << << <<1, 0, 1>>, <<2, n, -1>> >>, << <<3, -1, 1>>, <<2, n - 1, -1>> >>,
                << <<1, 0, 5>>, <<2, 1, 5>>, <<3, n + 100000, 1>> >> >>

\* Start lists: sequences of <<id, cells>>.
Lists ==
    << <<>>,
       << <<1, <<0>> >> >>,
       << <<1, <<>> >>, <<3, <<>> >> >>,
       << <<3, <<>> >>, <<1, <<>> >> >>,
       << <<2, <<>> >> >>,
       << <<2, <<n - 1>> >>, <<4, <<>> >> >>,
       << <<4, <<n - 1>> >>, <<2, <<n - 1>> >> >>,
       << <<1, <<>> >>, <<1, <<>> >> >>,
       << <<1, <<0, 1>> >> >>,
       << <<2, <<0>> >> >>,
       << <<9, <<>> >> >>,
       << <<1, <<>> >>, <<9, <<>> >> >>,
       << <<5, <<>> >> >>,
       << <<1, <<-1>> >> >>,                                       \* cells outside the model
       << <<2, <<n - 1, n>> >> >>,
       << <<1, <<>> >>, <<3, <<>> >>, <<2, <<>> >> >> >>

(***************************************************************************)
(* Meaning of a state.                                                     *)
(***************************************************************************)
NetOf(p, f, q) ==
    [n |-> n, conns |-> conns, flux |-> FluxFields[f],
     wells |-> IF q = 0 THEN <<>> ELSE InflowFields[q],
     pv |-> PvFields[p], maxT |-> IF Model % 3 = 2 THEN 3 ELSE 1024]

OK == 0
LOGIC == 1
RUNTIME == 2
EITHER == 3

WellsNow(q) == IF q = 0 THEN <<>> ELSE InflowFields[q]
IdServes(q, fwd, id) == \E k \in 1..Len(WellsNow(q)) :
    WellsNow(q)[k][1] = id /\ (IF fwd THEN WellsNow(q)[k][3] > 0 ELSE WellsNow(q)[k][3] < 0)
CellServes(q, fwd, c) == \E k \in 1..Len(WellsNow(q)) :
    WellsNow(q)[k][2] = c /\ (IF fwd THEN WellsNow(q)[k][3] > 0 ELSE WellsNow(q)[k][3] < 0)

ListFault(q, fwd, l) ==
    \E k \in 1..Len(Lists[l]) :
        \/ ~IdServes(q, fwd, Lists[l][k][1])
        \/ \E x \in 1..Len(Lists[l][k][2]) : ~CellServes(q, fwd, Lists[l][k][2][x])

ComputeOutcome(p, f, q, fwd, l) ==
    IF p = 0 \/ f = 0 THEN (IF ListFault(q, fwd, l) THEN EITHER ELSE LOGIC)
    ELSE IF ListFault(q, fwd, l) THEN RUNTIME ELSE OK

(***************************************************************************)
(* Actions.  Kinds: 0 pore volume, 1 flux, 2 inflow, 3 injection           *)
(* diagnostics, 4 production diagnostics, 5 move.                          *)
(***************************************************************************)
Say(kind, o, outcome) ==
    Emit => PrintT("@" \o ToJson(<<4, pv, flux, inflow, kind, o, outcome, pv', flux', inflow'>>))

AssignPv(o) ==
    /\ IF o <= Len(PvFields) THEN pv' = o ELSE pv' = pv
    /\ UNCHANGED <<flux, inflow, built, cflux>>
    /\ Say(0, o, IF o <= Len(PvFields) THEN OK ELSE LOGIC)

AssignFlux(o) ==
    /\ IF o <= Len(FluxFields) THEN flux' = o /\ built' = FALSE ELSE UNCHANGED <<flux, built>>
    /\ UNCHANGED <<pv, inflow, cflux>>
    /\ Say(1, o, IF o <= Len(FluxFields) THEN OK ELSE LOGIC)

AssignInflow(o) ==
    /\ IF o <= Len(InflowFields) THEN inflow' = o ELSE inflow' = inflow
    /\ UNCHANGED <<pv, flux, built, cflux>>
    /\ Say(2, o, IF o <= Len(InflowFields) THEN OK ELSE LOGIC)

Compute(fwd, l) ==
    LET oc == ComputeOutcome(pv, flux, inflow, fwd, l)
    IN  /\ IF oc = OK
           THEN built' = TRUE /\ cflux' = (IF built THEN cflux ELSE flux)
           ELSE UNCHANGED <<built, cflux>>
        /\ UNCHANGED <<pv, flux, inflow>>
        /\ Say(IF fwd THEN 3 ELSE 4, l, oc)

Move == UNCHANGED <<pv, flux, inflow, built, cflux>> /\ Say(5, 1, OK)

Init == pv = 0 /\ flux = 0 /\ inflow = 0 /\ built = FALSE /\ cflux = 0 /\ setup = FALSE

\* First step: print what the harness needs to know about the model.
Combos == (1..Len(PvFields)) \X (1..Len(FluxFields)) \X (0..Len(InflowFields))
SayCombo(t) == LET nt == NetOf(t[1], t[2], t[3])
                   s == IF InRange(nt) THEN Solution(nt) ELSE NoSol
               IN  IF s.ok THEN PrintT("@" \o ToJson(<<3, t[1], t[2], t[3], CaseOut(0, nt, s)>>)) ELSE TRUE
Setup ==
    /\ ~setup /\ setup' = TRUE
    /\ UNCHANGED <<pv, flux, inflow, built, cflux>>
    /\ Emit =>
        /\ PrintT("@" \o ToJson(<<0, n, conns, NetOf(1, 1, 0).maxT>>))
        /\ PrintT("@" \o ToJson(<<1, 0, Len(PvFields), PvFields \o BadPv>>))
        /\ PrintT("@" \o ToJson(<<1, 1, Len(FluxFields), FluxFields \o BadFlux>>))
        /\ PrintT("@" \o ToJson(<<1, 2, Len(InflowFields), InflowFields \o BadInflow>>))
        /\ PrintT("@" \o ToJson(<<2, Lists>>))
        /\ \A t \in Combos : SayCombo(t)

Next ==
    \/ Setup
    \/ /\ setup /\ UNCHANGED setup
       /\ \/ \E o \in 1..(Len(PvFields) + Len(BadPv)) : AssignPv(o)
          \/ \E o \in 1..(Len(FluxFields) + Len(BadFlux)) : AssignFlux(o)
          \/ \E o \in 1..(Len(InflowFields) + Len(BadInflow)) : AssignInflow(o)
          \/ \E fwd \in BOOLEAN : \E l \in 1..Len(Lists) : Compute(fwd, l)
          \/ Move
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties of the design.                                               *)
(***************************************************************************)
TypeOK == pv \in 0..Len(PvFields) /\ flux \in 0..Len(FluxFields) /\ inflow \in 0..Len(InflowFields)

\* What a computation uses is always the last accepted flux field (C08).
CacheCoherent == built => cflux = flux

\* A refused call leaves the observable state alone, an accepted assignment
\* changes its own field only (C09, C08).
Frame == [][ /\ (pv' # pv => flux' = flux /\ inflow' = inflow)
             /\ (flux' # flux => pv' = pv /\ inflow' = inflow)
             /\ (inflow' # inflow => pv' = pv /\ flux' = flux) ]_vars
\* Nothing is ever forgotten.
Monotone == [][ (pv # 0 => pv' # 0) /\ (flux # 0 => flux' # 0) /\ (inflow # 0 => inflow' # 0) ]_vars
=============================================================================
