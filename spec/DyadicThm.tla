----------------------------- MODULE DyadicThm -----------------------------
(* The arithmetic agrees with TLC's own where that can be computed.        *)
EXTENDS Dyadic
CONSTANTS Big          \* integers to combine: -Big .. Big, spread out
VARIABLES a, b
S == {k * 7919 + k * k : k \in -Big..Big} \cup {k * 8192 : k \in -2..2} \cup (-3..3) \cup {8191, -8191, 8193, -8193}
Init == a \in S /\ b \in S
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
X == DInt(a)
Y == DInt(b)
NormalOK == LET n(x) == Len(x) = 1 \/ (x[Len(x)] # 0 /\ x[2] # 0 /\ \A k \in 2..(Len(x) - 1) : x[k] \in 0..(B - 1))
            IN  n(X) /\ n(DAdd(X, Y)) /\ n(DMul(X, Y)) /\ n(DSub(X, Y))
AddOK == DAdd(X, Y) = DInt(a + b) /\ DSub(X, Y) = DInt(a - b)
MulOK == DMul(X, Y) = DInt(a * b)
LeOK  == /\ DLe(X, Y) <=> a <= b
         /\ DLt(X, Y) <=> a < b
         /\ IsNeg(X) <=> a < 0
         /\ IsPos(X) <=> a > 0
         /\ DAbs(X) = DInt(IF a < 0 THEN -a ELSE a)
ShiftOK == DMul(DShift(X, -3), DShift(Y, 5)) = DShift(DInt(a * b), 2)
DistOK == DMul(DAdd(X, DShift(Y, -2)), X) = DAdd(DMul(X, X), DShift(DMul(X, Y), -2))
SqBig  == LET q == DMul(DMul(X, X), DMul(Y, Y)) IN q = DMul(DMul(X, Y), DMul(X, Y))
=============================================================================
