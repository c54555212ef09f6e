----------------------------- MODULE FlowModel -----------------------------
(***************************************************************************)
(* What the flow diagnostics of a network mean.                            *)
(*                                                                         *)
(* A network is a record                                                   *)
(*   n      number of cells 0 .. n-1                                       *)
(*   conns  sequence of <<first, second>>                                  *)
(*   flux   sequence (one per connection) of sequences (one entry per      *)
(*          phase); positive flux goes from first to second                *)
(*   wells  sequence of <<id, cell, rate>>, rate > 0 injects, < 0 produces,*)
(*          at most one entry per (id, cell)                               *)
(*   pv     pore volumes, pv[c+1] for cell c                               *)
(*   maxT   the 200 year bound, in time-of-flight units                    *)
(*                                                                         *)
(* The solution is NOT computed the way the code does (ordering, one pass, *)
(* Gauss-Seidel on strong components) but as the exact rational solution   *)
(* of the balance equations by determinants, so that it is an independent  *)
(* definition of the result for acyclic and recirculating flow alike.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat

Cells(net) == 0 .. (net.n - 1)

RECURSIVE SumSeqTo(_, _)
SumSeqTo(s, k) == IF k = 0 THEN 0 ELSE SumSeqTo(s, k - 1) + s[k]
SumSeq(s) == SumSeqTo(s, Len(s))

RECURSIVE SumOver(_, _)
\* Sum of f[x] for x in the finite set S.
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

(***************************************************************************)
(* Net flow: all phases are added per connection, a connection flows in    *)
(* the direction of the sign of the sum, parallel connections add up, and  *)
(* connections of a cell with itself carry nothing from cell to cell.      *)
(***************************************************************************)
NetFlux(net, k) == SumSeq(net.flux[k])

ConnFlow(net, k, a, b) ==
    LET f == NetFlux(net, k)  c == net.conns[k]
    IN  IF a = b THEN 0
        ELSE IF c[1] = a /\ c[2] = b /\ f > 0 THEN f
        ELSE IF c[2] = a /\ c[1] = b /\ f < 0 THEN -f ELSE 0

RECURSIVE FlowTo(_, _, _, _)
FlowTo(net, k, a, b) == IF k = 0 THEN 0
                        ELSE FlowTo(net, k - 1, a, b) + ConnFlow(net, k, a, b)

\* Forward: flow from a to b.  Reverse: the same numbers, transposed.
FlowMatrix(net, fwd) ==
    [a \in Cells(net) |-> [b \in Cells(net) |->
        IF fwd THEN FlowTo(net, Len(net.conns), a, b)
               ELSE FlowTo(net, Len(net.conns), b, a)]]

IDs(net) == {net.wells[k][1] : k \in 1..Len(net.wells)}

\* Rate of id in cell c counted in the given direction (0 if of other sign).
RateOf(net, fwd, id, c) ==
    LET K == {k \in 1..Len(net.wells) : net.wells[k][1] = id /\ net.wells[k][2] = c}
    IN  IF K = {} THEN 0
        ELSE LET q == net.wells[CHOOSE k \in K : TRUE][3]
             IN  IF fwd THEN (IF q > 0 THEN q ELSE 0) ELSE (IF q < 0 THEN -q ELSE 0)

SourceOf(net, fwd, id) == [c \in Cells(net) |-> RateOf(net, fwd, id, c)]

TotalSource(net, fwd) ==
    [c \in Cells(net) |-> SumOver([id \in IDs(net) |-> RateOf(net, fwd, id, c)], IDs(net))]

\* IDs that inject (produce) somewhere: those that may be requested.
ActiveIDs(net, fwd) == {id \in IDs(net) : \E c \in Cells(net) : RateOf(net, fwd, id, c) > 0}

(***************************************************************************)
(* Reachability along flow.                                                *)
(***************************************************************************)
RECURSIVE Closure(_, _, _)
Closure(F, n, S) ==
    LET T == S \cup {b \in 0..(n-1) : \E a \in S : F[a][b] > 0}
    IN  IF T = S THEN S ELSE Closure(F, n, T)

Region(net, F, src) == Closure(F, net.n, {c \in Cells(net) : src[c] > 0})

(***************************************************************************)
(* Determinants (Laplace expansion, rows rs[r..], columns in the set cs).  *)
(***************************************************************************)
RECURSIVE DetFrom(_, _, _, _)
DetFrom(M, rs, r, cs) ==
    IF r > Len(rs) THEN 1
    ELSE LET term(c) ==
               IF M[rs[r]][c] = 0 THEN 0
               ELSE LET sgn == IF Cardinality({d \in cs : d < c}) % 2 = 0 THEN 1 ELSE -1
                    IN  sgn * M[rs[r]][c] * DetFrom(M, rs, r + 1, cs \ {c})
         IN  SumOver([c \in cs |-> term(c)], cs)

RowSeq(n) == [i \in 1..n |-> i - 1]
RowSeqWithout(n, k) == [i \in 1..(n-1) |-> IF i - 1 < k THEN i - 1 ELSE i]

Det(M, n) == DetFrom(M, RowSeq(n), 1, 0..(n-1))

\* Adj[c][k] / Det = inverse[c][k]
Adjugate(M, n) ==
    [c \in 0..(n-1) |-> [k \in 0..(n-1) |->
        (IF (c + k) % 2 = 0 THEN 1 ELSE -1)
          * DetFrom(M, RowSeqWithout(n, k), 1, (0..(n-1)) \ {c})]]

MatVec(M, v, n) ==
    [c \in 0..(n-1) |-> SumOver([k \in 0..(n-1) |-> M[c][k] * v[k]], 0..(n-1))]

(***************************************************************************)
(* The balance equations of one direction.                                 *)
(***************************************************************************)
\* Everything that depends on the network and the direction only.
Context(net, fwd) ==
    LET F   == FlowMatrix(net, fwd)
        src == TotalSource(net, fwd)
        R   == Region(net, F, src)
        tot == [c \in Cells(net) |-> src[c] + SumOver([a \in Cells(net) |-> F[a][c]], Cells(net))]
        \* cells that cannot be filled within the bound by their own inflow
        slow == {c \in R : tot[c] * net.maxT < net.pv[c+1]}
        A1  == [c \in Cells(net) |-> [k \in Cells(net) |->
                  IF c \notin R THEN (IF c = k THEN 1 ELSE 0)
                  ELSE IF c = k THEN tot[c] ELSE IF k \in R THEN -F[k][c] ELSE 0]]
        A2  == [c \in Cells(net) |-> [k \in Cells(net) |->
                  IF c \in slow THEN (IF c = k THEN 1 ELSE 0) ELSE A1[c][k]]]
        D1  == Det(A1, net.n)
        adj1 == Adjugate(A1, net.n)
    IN  [F |-> F, src |-> src, R |-> R, tot |-> tot, slow |-> slow,
         D1 |-> D1, adj1 |-> adj1,
         D2 |-> IF slow = {} THEN D1 ELSE Det(A2, net.n),
         adj2 |-> IF slow = {} THEN adj1 ELSE Adjugate(A2, net.n)]

\* The solution for source vector s.  T: concentration, numerators over D1;
\* tof: time of flight <<n, d>>, uncut; cells without tracer have T = 0.
SolveFor(net, ctx, s) ==
    LET T == MatVec(ctx.adj1, [c \in Cells(net) |-> IF c \in ctx.R THEN s[c] ELSE 0], net.n)
        rhs == [c \in Cells(net) |->
                  IF c \in ctx.slow THEN net.maxT * T[c]
                  ELSE IF c \in ctx.R THEN net.pv[c+1] * T[c] ELSE 0]
        un == MatVec(ctx.adj2, rhs, net.n)
    IN  [T |-> T,
         un |-> un,
         tof |-> [c \in Cells(net) |->
                    IF T[c] = 0 THEN <<net.maxT, 1>> ELSE Norm(un[c], ctx.D2 * T[c])]]

Conc(ctx, sol, c) == Norm(sol.T[c], ctx.D1)

\* What is reported: times above the bound are cut.
CapT == <<-1, 1>>
Reported(net, t) == IF t[1] \div t[2] >= net.maxT THEN CapT ELSE t

\* Cells a and b lie on a common flow loop.
OnLoop(net, F) == {c \in Cells(net) :
                     c \in Closure(F, net.n, {b \in Cells(net) : F[c][b] > 0})}

\* Cells whose whole upstream flow originates in the sources: every cell from
\* which c can be reached is itself reached from a source.
FullyFed(net, ctx) ==
    {c \in ctx.R : \A a \in Cells(net) :
        (c \in Closure(ctx.F, net.n, {a})) => a \in ctx.R}

Balanced(net) ==
    LET F == FlowMatrix(net, TRUE) IN
    \A c \in Cells(net) :
        SumOver([a \in Cells(net) |-> F[a][c]], Cells(net)) + TotalSource(net, TRUE)[c]
        = SumOver([b \in Cells(net) |-> F[c][b]], Cells(net)) + TotalSource(net, FALSE)[c]

Negate(net) ==
    [net EXCEPT !.flux = [k \in 1..Len(@) |-> [p \in 1..Len(@[k]) |-> -@[k][p]]],
                !.wells = [k \in 1..Len(@) |-> <<@[k][1], @[k][2], -@[k][3]>>]]

(***************************************************************************)
(* Pair quantities, from the numerators of two solutions.                  *)
(***************************************************************************)
PairVolume(net, fc, fi, rc, rp) ==
    Norm(SumOver([c \in Cells(net) |-> net.pv[c+1] * fi.T[c] * rp.T[c]], Cells(net)),
         fc.D1 * rc.D1)

PairFluxInj(net, i, rc, rp) ==
    Norm(SumOver([c \in Cells(net) |-> RateOf(net, TRUE, i, c) * rp.T[c]], Cells(net)), rc.D1)

PairFluxProd(net, p, fc, fi) ==
    Norm(-SumOver([c \in Cells(net) |-> RateOf(net, FALSE, p, c) * fi.T[c]], Cells(net)), fc.D1)
=============================================================================
