---------------------------- MODULE DerivedTrace ----------------------------
(***************************************************************************)
(* Judges recorded curves and pair quantities.  The harness turns the      *)
(* code's numbers into integers over the recorded totals (flagging numbers *)
(* that are not near one) and proposes an order of the cells; TLC decides. *)
(***************************************************************************)
EXTENDS Derived, TLC, Json

CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)

VARIABLES i, verdict
vars == <<i, verdict>>

(***************************************************************************)
(* "curve": pv, time, m, fn, fd, tp, tf, ord (all cells, in curve order),  *)
(* phi and f (code's points times totals, length n + 1).                   *)
(***************************************************************************)
CurveOK(r) ==
    LET n == Len(r.pv)
        tot == Total(r.pv)
        cnt == [c \in 1..n |-> r.pv[c] * r.fd <= r.fn * tot]
        vol == [k \in 1..n |-> IF cnt[r.ord[k]] THEN r.pv[r.ord[k]] ELSE 0]
        cap == [k \in 1..n |-> IF cnt[r.ord[k]] THEN r.pv[r.ord[k]] * (r.m \div r.time[r.ord[k]]) ELSE 0]
        \* counted cells, those without volume included, by travel time
        busy == SelectSeq([k \in 1..n |-> k], LAMBDA k : cnt[r.ord[k]])
    IN  /\ Len(r.phi) = n + 1 /\ Len(r.f) = n + 1
        /\ r.fit = 1
        /\ Len(r.ord) = n /\ {r.ord[k] : k \in 1..n} = 1..n
        /\ r.tp = Total(vol) /\ r.tf = Total(cap)
        /\ r.phi[1] = 0 /\ r.f[1] = 0
        /\ \A k \in 1..n : r.phi[k + 1] - r.phi[k] = vol[k] /\ r.f[k + 1] - r.f[k] = cap[k]
        /\ \A k \in 1..(Len(busy) - 1) : r.time[r.ord[busy[k]]] <= r.time[r.ord[busy[k + 1]]]
        /\ r.same = 1      \* renumbered input: the same points; both overloads agree

(***************************************************************************)
(* "area": any curve phi/tp, f/tf (non-decreasing) with Lorenz coefficient *)
(* L/(tp tf) and the sweep points projected on the expected denominators.  *)
(***************************************************************************)
AreaOK(r) ==
    LET q == [phi |-> r.phi, f |-> r.f, tp |-> r.tp, tf |-> r.tf]
        up == Rising(q)
    IN  /\ r.fit = 1
        /\ r.lorenz = LorenzNum(q)
        /\ r.raw = r.cells + 1
        /\ Len(r.td) = Len(up) + 1 /\ Len(r.ev) = Len(up) + 1
        /\ r.td[1] = 0 /\ r.ev[1] = 0
        /\ \A k \in 1..Len(up) : r.td[k + 1] = SweepTime(q, up[k])[1] /\ r.ev[k + 1] = SweepEff(q, up[k])[1]
        /\ (r.fphi = 1 => r.lorenz >= 0 /\ r.lorenz < r.tp * r.tf /\ r.mono = 1
                          /\ (up # <<>> => r.ev[Len(up) + 1] = SweepEff(q, up[Len(up)])[2]))

(***************************************************************************)
(* "runs": a large field given as histogram <<count, pv, time>> and the    *)
(* increments of the curve run-length coded as <<count, vol, cap>>.        *)
(***************************************************************************)
RunsOK(r) ==
    LET tot == Total([k \in 1..Len(r.hist) |-> r.hist[k][1] * r.hist[k][2]])
        cnt(k) == r.hist[k][2] * r.fd <= r.fn * tot
        H == {k \in 1..Len(r.hist) : cnt(k) /\ r.hist[k][2] > 0}
        cap(k) == r.hist[k][2] * (r.m \div r.hist[k][3])
        busy == SelectSeq(r.runs, LAMBDA u : u[2] > 0 \/ u[3] > 0)
        num(v, c) == Total([k \in 1..Len(busy) |-> IF busy[k][2] = v /\ busy[k][3] = c THEN busy[k][1] ELSE 0])
        his(v, c) == Total([k \in 1..Len(r.hist) |-> IF k \in H /\ r.hist[k][2] = v /\ cap(k) = c THEN r.hist[k][1] ELSE 0])
    IN  /\ r.fit = 1 /\ r.same = 1
        /\ r.points = 1 + Total([k \in 1..Len(r.hist) |-> r.hist[k][1]])
        /\ Total([k \in 1..Len(r.runs) |-> r.runs[k][1]]) = r.points - 1
        /\ r.tp = Total([k \in 1..Len(r.hist) |-> IF k \in H THEN r.hist[k][1] * r.hist[k][2] ELSE 0])
        /\ r.tf = Total([k \in 1..Len(r.hist) |-> IF k \in H THEN r.hist[k][1] * cap(k) ELSE 0])
        /\ \A k \in 1..Len(busy) : num(busy[k][2], busy[k][3]) = his(busy[k][2], busy[k][3])
        /\ \A k \in H : num(r.hist[k][2], cap(k)) = his(r.hist[k][2], cap(k))
        \* by increasing travel time: decreasing slope
        /\ \A k \in 1..(Len(busy) - 1) : busy[k][3] * busy[k + 1][2] >= busy[k + 1][3] * busy[k][2]

\* "refuse": fields or coordinate lists of different length; 2 = runtime error
RefuseOK(r) == r.res = IF r.valid = 1 THEN 0 ELSE 2

\* "pair": sparse fields in sixteenths
PairVolOK(r) == r.fit = 1 /\ r.vol = PairVol(r.pv, r.inj, r.prod) /\ r.vol >= 0
PairFluxOK(r) ==
    IF r.known = 0 THEN r.res = 2
    ELSE /\ r.res = 0 /\ r.fit = 1
         /\ r.q1 = PairFlux(r.irates, r.prod, TRUE) /\ r.q1 >= 0
         /\ r.q2 = PairFlux(r.prates, r.inj, FALSE) /\ r.q2 <= 0

Good == [C16 |-> TRUE, C17 |-> TRUE, C18 |-> TRUE, C19 |-> TRUE]
Verdict(r) ==
    CASE r.kind = "curve"  -> [Good EXCEPT !.C16 = CurveOK(r)]
      [] r.kind = "runs"   -> [Good EXCEPT !.C16 = RunsOK(r)]
      [] r.kind = "area"   -> [Good EXCEPT !.C17 = AreaOK(r)]
      [] r.kind = "refuse" -> IF r.what = "curve" THEN [Good EXCEPT !.C16 = RefuseOK(r)] ELSE [Good EXCEPT !.C17 = RefuseOK(r)]
      [] r.kind = "vol"    -> [Good EXCEPT !.C18 = PairVolOK(r)]
      [] r.kind = "flux"   -> [Good EXCEPT !.C19 = PairFluxOK(r)]

Init == i \in 1..Len(Trace) /\ verdict = <<>>
Judge == /\ verdict = <<>>
         /\ verdict' = << Verdict(Trace[i]) >>
         /\ (verdict'[1] # Good =>
               PrintT("@" \o ToJson([record |-> i, id |-> Trace[i].id, kind |-> Trace[i].kind, verdict |-> verdict'[1]])))
         /\ i' = i
Next == Judge
Spec == Init /\ [][Next]_vars

C16_OK == verdict # <<>> => verdict[1].C16
C17_OK == verdict # <<>> => verdict[1].C17
C18_OK == verdict # <<>> => verdict[1].C18
C19_OK == verdict # <<>> => verdict[1].C19
=============================================================================
