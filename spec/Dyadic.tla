------------------------------- MODULE Dyadic -------------------------------
(***************************************************************************)
(* Exact arithmetic on the numbers a floating-point format can hold (and   *)
(* all sums, differences and products of them), within TLC's 32 bit        *)
(* integers.  A number is <<e, l1, l2, ...>> with value                    *)
(*      sum over k of l_k * B^(e + k - 1),       B = 2^13.                 *)
(* Normal form: every limb but the last in 0..B-1, the last not 0; a       *)
(* negative number ends in -1.  Zero is <<0>>.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

B == 8192

RECURSIVE CarryOut(_, _)
CarryOut(c, acc) == IF c = 0 THEN acc
                    ELSE IF c = -1 THEN Append(acc, -1)
                    ELSE CarryOut(c \div B, Append(acc, c % B))

RECURSIVE CarryFrom(_, _, _, _)
CarryFrom(d, k, c, acc) ==
    IF k > Len(d) THEN CarryOut(c, acc)
    ELSE LET x == d[k] + c IN CarryFrom(d, k + 1, x \div B, Append(acc, x % B))

\* position of the highest limb that is not 0 (not counting limb 1 = exponent)
RECURSIVE Top(_, _)
Top(x, k) == IF k <= 1 THEN 1 ELSE IF x[k] # 0 THEN k ELSE Top(x, k - 1)

RECURSIVE Low(_, _)
Low(x, k) == IF k > Len(x) THEN k ELSE IF x[k] # 0 THEN k ELSE Low(x, k + 1)

\* strip zero limbs at both ends
Strip(x) == LET t == Top(x, Len(x))
            IN  IF t = 1 THEN <<0>>
                ELSE LET l == Low(x, 2)
                     IN  IF l = 2 /\ t = Len(x) THEN x
                         ELSE <<x[1] + l - 2>> \o SubSeq(x, l, t)

\* ... B-1, -1 means the same as ..., -1
RECURSIVE Short(_)
Short(x) == LET n == Len(x)
            IN  IF n >= 3 /\ x[n] = -1 /\ x[n - 1] = B - 1
                THEN Short(Append(SubSeq(x, 1, n - 2), -1)) ELSE x

\* limbs d (any small integers) at exponent e
Make(e, d) == Strip(Short(CarryFrom(d, 1, 0, <<e>>)))

DZero == <<0>>
DOne  == <<0, 1>>
DInt(i) == Make(0, <<i>>)

IsZero(x) == Len(x) = 1
IsNeg(x)  == Len(x) > 1 /\ x[Len(x)] < 0
IsPos(x)  == Len(x) > 1 /\ x[Len(x)] > 0

Limb(x, k) == IF k < 0 \/ k + 2 > Len(x) THEN 0 ELSE x[k + 2]   \* k counted from 0

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

DNeg(x) == IF Len(x) = 1 THEN x ELSE Make(x[1], [k \in 1..(Len(x) - 1) |-> -x[k + 1]])
DAbs(x) == IF IsNeg(x) THEN DNeg(x) ELSE x

Lin(x, y, s) ==      \* x + s y, s = 1 or -1
    IF IsZero(y) THEN x
    ELSE IF IsZero(x) /\ s = 1 THEN y
    ELSE LET e == IF IsZero(x) THEN y[1] ELSE MinI(x[1], y[1])
             h == MaxI(x[1] + Len(x) - 1, y[1] + Len(y) - 1)
         IN  Make(e, [k \in 1..(h - e) |-> Limb(x, k - 1 + e - x[1]) + s * Limb(y, k - 1 + e - y[1])])

DAdd(x, y) == Lin(x, y, 1)
DSub(x, y) == Lin(x, y, -1)

RECURSIVE Conv(_, _, _, _, _)
Conv(x, y, k, i, hi) == IF i > hi THEN 0 ELSE x[i + 1] * y[k - i + 2] + Conv(x, y, k, i + 1, hi)

DMul(x, y) ==
    IF Len(x) = 1 \/ Len(y) = 1 THEN DZero
    ELSE LET m == Len(x) - 1  n == Len(y) - 1
         IN  Make(x[1] + y[1],
                  [k \in 1..(m + n - 1) |-> Conv(x, y, k, MaxI(1, k + 1 - n), MinI(k, m))])

\* times B^k
DShift(x, k) == IF Len(x) = 1 THEN x ELSE [x EXCEPT ![1] = @ + k]

DLe(x, y) == ~IsNeg(DSub(y, x))
DLt(x, y) == IsPos(DSub(y, x))
DEq(x, y) == x = y
DMax(x, y) == IF DLe(x, y) THEN y ELSE x
DMin(x, y) == IF DLe(x, y) THEN x ELSE y

RECURSIVE DSumTo(_, _)
DSumTo(s, k) == IF k = 0 THEN DZero ELSE DAdd(DSumTo(s, k - 1), s[k])
DSum(s) == DSumTo(s, Len(s))

\* sum of f[k] for k in 1..n, by halves (keeps recursion shallow)
RECURSIVE DSumRange(_, _, _)
DSumRange(s, a, b) == IF a > b THEN DZero ELSE IF a = b THEN s[a]
                      ELSE LET m == (a + b) \div 2 IN DAdd(DSumRange(s, a, m), DSumRange(s, m + 1, b))
DTotal(s) == DSumRange(s, 1, Len(s))

\* |x - y| <= B^-k * scale
Near(x, y, k, scale) == DLe(DAbs(DSub(x, y)), DShift(scale, -k))
=============================================================================
