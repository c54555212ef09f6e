----------------------------- MODULE DerivedGen -----------------------------
(***************************************************************************)
(* Fields with their exact curves; TLC checks the theorems of Derived on   *)
(* each and prints it for harness/derived.cpp.                             *)
(***************************************************************************)
EXTENDS Derived, Prng, TLC, Json

CONSTANTS Family, First, Last, Stride, Seed, Emit

VARIABLES idx, x, done
vars == <<idx, x, done>>

Digit(k, base, p) == (k \div p) % base
Fractions == << <<1, 1>>, <<1, 2>>, <<1, 4>>, <<3, 4>> >>

\* n cells with volumes 0..3 and times 1..4, all of them; fractions rotate.
Times == <<1, 2, 3, 4>>
Exh(k) ==
    LET n == 1 + (k % 3)
        z == k \div 3
        f == Fractions[1 + ((z \div 4096 + z) % 4)]
    IN  [pv |-> [c \in 1..n |-> Digit(z, 4, IF c = 1 THEN 1 ELSE IF c = 2 THEN 4 ELSE 16)],
         time |-> [c \in 1..n |-> Times[1 + Digit(z, 4, IF c = 1 THEN 64 ELSE IF c = 2 THEN 256 ELSE 1024)]],
         m |-> 12, fn |-> f[1], fd |-> f[2]]

Pick(r, s) == s[1 + (r % Len(s))]
Random(k) ==
    LET r == Rnd(Seed, k, 40)
        n == 3 + (r[1] % 8)
        f == IF r[2] % 3 = 0 THEN <<1, 1>> ELSE <<1 + (r[3] % 8), 8>>
        tmax == 1 + (r[4] % 6)
        vol == IF r[5] % 2 = 0 THEN <<0, 1, 1, 2, 4, 7>> ELSE <<1, 1, 1, 2, 3, 12>>
    IN  [pv |-> [c \in 1..n |-> Pick(r[6 + c], vol)],
         time |-> [c \in 1..n |-> <<1, 2, 3, 4, 6, 12>>[1 + (r[20 + c] % tmax)]],
         m |-> 12, fn |-> f[1], fd |-> f[2]]

MkCase(k) == IF Family = "exh" THEN Exh(k) ELSE Random(k)

Init == /\ idx \in {k \in First..Last : (k - First) % Stride = 0}
        /\ x = MkCase(idx) /\ done = FALSE

SplitTime(k, c, t) == (k + c) % (t + 1)    \* the forward part of a travel time

Out ==
    LET q == Curve(x)  r == Rising(q)
    IN  << idx, x.pv, [c \in Dom(x) |-> SplitTime(idx, c, x.time[c])],
           [c \in Dom(x) |-> x.time[c] - SplitTime(idx, c, x.time[c])],
           <<x.fn, x.fd>>, q.phi, q.f, q.time, <<q.tp, q.tf>>, LorenzNum(q),
           [k \in 1..Len(r) |-> SweepTime(q, r[k]) \o SweepEff(q, r[k])] >>

Solve == /\ ~done /\ done' = TRUE /\ UNCHANGED <<idx, x>>
         /\ (Emit /\ Defined(x)) => PrintT("@" \o ToJson(Out))
Next == Solve
Spec == Init /\ [][Next]_vars

CurveOK == Defined(x) => CurveTheorem(x)
LorenzOK == Defined(x) => LorenzTheorem(x)
SweepOK == Defined(x) => SweepTheorem(x)
=============================================================================
