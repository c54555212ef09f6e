------------------------------ MODULE ChainThm ------------------------------
(***************************************************************************)
(* What Scc!ChainOK accepts of a chain is what the definition accepts of   *)
(* the whole graph: for every graph of N vertices, every link, every set   *)
(* of start points (or none: the full decomposition), every number of      *)
(* copies up to MaxK and every list of components.                         *)
(***************************************************************************)
EXTENDS Scc, TLC

CONSTANTS N, MaxK
VARIABLES E, a, b, K, S, full, comps, done
vars == <<E, a, b, K, S, full, comps, done>>

RECURSIVE SortedSeq(_)
SortedSeq(X) == IF X = {} THEN <<>>
                ELSE LET x == CHOOSE y \in X : \A z \in X : y <= z IN <<x>> \o SortedSeq(X \ {x})
RECURSIVE Flat(_, _)
Flat(f, v) == IF v < 0 THEN <<>> ELSE Flat(f, v - 1) \o f[v]
RECURSIVE Starts(_, _)
Starts(f, v) == IF v < 0 THEN <<0>> ELSE LET s == Starts(f, v - 1) IN s \o <<s[Len(s)] + Len(f[v])>>
Graph(n, X) == LET f == [v \in 0..(n - 1) |-> SortedSeq({w \in 0..(n - 1) : <<v, w>> \in X})]
               IN  [n |-> n, ia |-> Starts(f, n - 1), ja |-> Flat(f, n - 1)]

V == 0..(N - 1)
h == Graph(N, E)
Whole == Graph(N * K, {<<c * N + e[1], c * N + e[2]>> : c \in 0..(K - 1), e \in E}
                      \cup {<<c * N + a, (c + 1) * N + b>> : c \in 0..(K - 2)})

RECURSIVE Lists(_)
Lists(U) == {<<>>} \cup UNION { { <<SortedSeq(C)>> \o rest : rest \in Lists(U \ C) } : C \in (SUBSET U) \ {{}} }

\* What is recorded of a list of components of the whole.
CopyOf(v) == v \div N
InCopy(c) == SelectSeq(comps, LAMBDA s : CopyOf(s[1]) = c)
Seen(c) == LET x == InCopy(c) IN [k \in 1..Len(x) |-> [j \in 1..Len(x[k]) |-> x[k][j] - c * N]]
Mixed == Cardinality({k \in 1..Len(comps) : \E v \in SetOf(comps[k]) : CopyOf(v) # CopyOf(comps[k][1])})
At(v) == LET P == {k \in 1..Len(comps) : v \in SetOf(comps[k])} IN IF P = {} THEN 0 ELSE CHOOSE k \in P : TRUE
Diffs == {At(c * N + a) - At((c + 1) * N + b) : c \in {d \in 0..(K - 2) : At(d * N + a) # 0 /\ At((d + 1) * N + b) # 0}}
Least == IF Diffs = {} THEN 1 ELSE CHOOSE x \in Diffs : \A y \in Diffs : x <= y
Runs1 == [c \in 1..K |-> [from |-> c - 1, count |-> 1, comps |-> Seen(c - 1)]]
\* the same with equal neighbours joined
RECURSIVE Join(_, _)
Join(rs, k) == IF k > Len(Runs1) THEN rs
               ELSE LET l == rs[Len(rs)] IN
                    IF l.comps = Runs1[k].comps THEN Join([rs EXCEPT ![Len(rs)].count = l.count + 1], k + 1)
                    ELSE Join(Append(rs, Runs1[k]), k + 1)
Runs == Join(<<Runs1[1]>>, 2)

Init == /\ E \in SUBSET (V \X V) /\ a \in V /\ b \in V /\ K \in 1..MaxK
        /\ full \in BOOLEAN /\ S \in IF full THEN {{}} ELSE SUBSET V
        /\ comps = <<>> /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ comps' \in Lists(0..(N * K - 1)) /\ UNCHANGED <<E, a, b, K, S, full>>
Spec == Init /\ [][Next]_vars

Target == IF full THEN 0..(N * K - 1) ELSE ReachFrom(Whole, S)
Same == done => (IsDecomposition(Whole, comps, Target)
                 <=> ChainOK(h, a, b, K, S, full, Runs, Least, Mixed))
=============================================================================
