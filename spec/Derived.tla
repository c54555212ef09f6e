------------------------------ MODULE Derived ------------------------------
(***************************************************************************)
(* Quantities derived from diagnostics, over integers.                     *)
(*                                                                         *)
(* A case is a record                                                      *)
(*   pv    pore volumes, one per cell                                      *)
(*   time  total travel times (positive), one per cell                     *)
(*   m     a common multiple of all times                                  *)
(*   fn,fd the largest counted share of the total pore volume, fn/fd       *)
(* Flow capacity is counted in units of 1/m: pv * (m / time).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat

RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE Sum(s, k - 1) + s[k]
Total(s) == Sum(s, Len(s))

Dom(x) == 1..Len(x.pv)
Counted(x) == {c \in Dom(x) : x.pv[c] * x.fd <= x.fn * Total(x.pv)}
Cap(x, c) == x.pv[c] * (x.m \div x.time[c])

RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE d \in S : TRUE IN f[c] + SumSet(f, S \ {c})
TotPv(x) == SumSet(x.pv, Counted(x))
TotCap(x) == SumSet([c \in Dom(x) |-> Cap(x, c)], Counted(x))

\* The curve is defined when something is counted.
Defined(x) == TotPv(x) > 0

\* Counted cells by travel time (then volume, then number: any order of ties is right).
Before(x, c, d) == \/ x.time[c] < x.time[d]
                   \/ x.time[c] = x.time[d] /\ x.pv[c] < x.pv[d]
                   \/ x.time[c] = x.time[d] /\ x.pv[c] = x.pv[d] /\ c < d
RECURSIVE Sorted(_, _)
Sorted(x, S) == IF S = {} THEN <<>>
                ELSE LET c == CHOOSE d \in S : \A e \in S \ {d} : Before(x, d, e)
                     IN  <<c>> \o Sorted(x, S \ {c})

\* Cumulative sums starting at zero.
RECURSIVE CumTo(_, _)
CumTo(s, k) == IF k = 0 THEN <<0>>
               ELSE LET t == CumTo(s, k - 1) IN Append(t, t[k] + s[k])
Cumulative(s) == CumTo(s, Len(s))

\* Numerators over TotPv and TotCap at the counted cells with volume.
Curve(x) ==
    LET o == Sorted(x, {c \in Counted(x) : x.pv[c] > 0})
    IN  [phi |-> Cumulative([k \in 1..Len(o) |-> x.pv[o[k]]]),
         f   |-> Cumulative([k \in 1..Len(o) |-> Cap(x, o[k])]),
         time |-> [k \in 1..Len(o) |-> x.time[o[k]]],
         tp |-> TotPv(x), tf |-> TotCap(x)]

(***************************************************************************)
(* Lorenz coefficient of a curve with numerators phi, f over tp, tf:       *)
(* twice the trapezoid area minus one, as a numerator over tp * tf.        *)
(***************************************************************************)
RECURSIVE TrapTo(_, _)
TrapTo(q, k) == IF k = 0 THEN 0
                ELSE TrapTo(q, k - 1) + (q.f[k] + q.f[k + 1]) * (q.phi[k + 1] - q.phi[k])
LorenzNum(q) == TrapTo(q, Len(q.phi) - 1) - q.tp * q.tf

(***************************************************************************)
(* Sweep efficiency: one point per segment with increasing F.              *)
(* time = dphi/dF, efficiency = phi + (1 - F) * time.                      *)
(***************************************************************************)
Rising(q) == SelectSeq([k \in 1..(Len(q.phi) - 1) |-> k], LAMBDA k : q.f[k + 1] > q.f[k])
SweepTime(q, k) == <<(q.phi[k + 1] - q.phi[k]) * q.tf, (q.f[k + 1] - q.f[k]) * q.tp>>
SweepEff(q, k) ==
    << q.phi[k + 1] * (q.f[k + 1] - q.f[k]) + (q.tf - q.f[k + 1]) * (q.phi[k + 1] - q.phi[k]),
       q.tp * (q.f[k + 1] - q.f[k]) >>
RatLe(a, b) == LET c == Norm(a[1], a[2])  d == Norm(b[1], b[2]) IN c[1] * d[2] <= d[1] * c[2]

(***************************************************************************)
(* What follows for every F-Phi curve (C16, C17).                          *)
(***************************************************************************)
CurveTheorem(x) ==
    LET q == Curve(x)  n == Len(q.phi)
    IN  /\ q.phi[1] = 0 /\ q.f[1] = 0 /\ q.phi[n] = q.tp /\ q.f[n] = q.tf
        /\ \A k \in 1..(n - 1) : q.phi[k] < q.phi[k + 1] /\ q.f[k] < q.f[k + 1]
        /\ \A k \in 1..n : q.f[k] * q.tp >= q.phi[k] * q.tf
LorenzTheorem(x) ==
    LET q == Curve(x)  L == LorenzNum(q)
    IN  /\ L >= 0 /\ L < q.tp * q.tf
        /\ (L = 0) <=> \A c, d \in {e \in Counted(x) : x.pv[e] > 0} : x.time[c] = x.time[d]
SweepTheorem(x) ==
    LET q == Curve(x)  r == Rising(q)
    IN  /\ Len(r) = Len(q.phi) - 1
        /\ \A k \in 1..(Len(r) - 1) : /\ RatLe(SweepTime(q, r[k]), SweepTime(q, r[k + 1]))
                                      /\ RatLe(SweepEff(q, r[k]), SweepEff(q, r[k + 1]))
        /\ LET e == SweepEff(q, r[Len(r)]) IN e[1] = e[2]

(***************************************************************************)
(* Pair quantities of sparse fields <<cell, value>>.                       *)
(***************************************************************************)
ValueIn(field, c) == LET K == {k \in 1..Len(field) : field[k][1] = c}
                     IN  IF K = {} THEN 0 ELSE field[CHOOSE k \in K : TRUE][2]
PairVol(pv, a, b) == LET F == [k \in 1..Len(a) |-> pv[a[k][1] + 1] * a[k][2] * ValueIn(b, a[k][1])]
                     IN  Total(F)
PairFlux(rates, tracer, inject) ==
    LET F == [k \in 1..Len(rates) |->
                IF (rates[k][2] > 0) = inject THEN rates[k][2] * ValueIn(tracer, rates[k][1]) ELSE 0]
    IN  Total(F)
=============================================================================
