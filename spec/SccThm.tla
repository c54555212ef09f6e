------------------------------- MODULE SccThm -------------------------------
(***************************************************************************)
(* The certificate form of Scc accepts exactly the declarative             *)
(* decompositions: checked for every graph of N vertices and every         *)
(* candidate list of components.                                           *)
(***************************************************************************)
EXTENDS Scc, TLC

CONSTANT N
VARIABLES g, comps, st, done
vars == <<g, comps, st, done>>

V == 0..(N - 1)
Pairs == V \X V

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SortedSeq(S \ {x})

RECURSIVE Flatten(_, _)
Flatten(f, v) == IF v < 0 THEN <<>> ELSE Flatten(f, v - 1) \o f[v]
RECURSIVE Starts(_, _)
Starts(f, v) == IF v < 0 THEN <<0>> ELSE LET s == Starts(f, v - 1) IN s \o <<s[Len(s)] + Len(f[v])>>

MkGraph(E) == LET f == [v \in V |-> SortedSeq({w \in V : <<v, w>> \in E})]
              IN  [n |-> N, ia |-> Starts(f, N - 1), ja |-> Flatten(f, N - 1)]

\* All lists of disjoint nonempty sorted components, plus lists with a repetition.
RECURSIVE Lists(_)
Lists(U) == {<<>>} \cup UNION { { <<SortedSeq(C)>> \o rest : rest \in Lists(U \ C) } : C \in (SUBSET U) \ {{}} }
Candidates == Lists(V) \cup {l \o <<l[1]>> : l \in Lists(V) \ {<<>>}}

\* Breadth first certificate inside the set S from root r, along succ.
RECURSIVE Layers(_, _, _, _)
Layers(E, S, seen, d) ==   \* function on seen: <<parent, dist>>
    LET new == {v \in S \ DOMAIN seen : \E u \in DOMAIN seen : <<u, v>> \in E}
    IN  IF new = {} THEN seen
        ELSE Layers(E, S, [v \in DOMAIN seen \cup new |->
               IF v \in DOMAIN seen THEN seen[v]
               ELSE << CHOOSE u \in DOMAIN seen : <<u, v>> \in E, d >>], d + 1)

EdgesOf(gr) == {e \in Pairs : e[2] \in Succ(gr, e[1])}
Back(E) == {<<e[2], e[1]>> : e \in E}

CertOf(gr, cs, starts) ==
    LET E == EdgesOf(gr)
        ci == [i \in 1..N |-> LET K == {c \in 1..Len(cs) : (i - 1) \in SetOf(cs[c])}
                              IN  IF K = {} THEN 0 ELSE CHOOSE c \in K : TRUE]
        tree(X, v) == LET S == SetOf(cs[ci[v + 1]])  r == cs[ci[v + 1]][1]
                          L == Layers(X, S, [x \in {r} |-> <<r, 0>>], 1)
                      IN  IF v \in DOMAIN L THEN L[v] ELSE <<-1, -1>>
        U == {v \in V : ci[v + 1] # 0}
        SL == Layers(E, U, [x \in SetOf(starts) |-> <<x, 0>>], 1)
        F == [i \in 1..N |-> IF ci[i] = 0 THEN <<-1, -1>> ELSE tree(E, i - 1)]
        B == [i \in 1..N |-> IF ci[i] = 0 THEN <<-1, -1>> ELSE tree(Back(E), i - 1)]
        G == [i \in 1..N |-> IF (i - 1) \in DOMAIN SL THEN SL[i - 1] ELSE <<-1, -1>>]
    IN  [ci |-> ci, F |-> F, B |-> B, G |-> G]

First(f) == [i \in 1..N |-> f[i][1]]
Second(f) == [i \in 1..N |-> f[i][2]]

FindEdge(gr, u, v) == LET K == {k \in EdgeIdx(gr, u) : gr.ja[k] = v} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
EdgeTo(gr, f) == [i \in 1..N |-> IF f[i][1] < 0 THEN 0 ELSE FindEdge(gr, f[i][1], i - 1)]
EdgeFrom(gr, f) == [i \in 1..N |-> IF f[i][1] < 0 THEN 0 ELSE FindEdge(gr, i - 1, f[i][1])]

CertAccepts(gr, cs, starts) ==
    LET c == CertOf(gr, cs, starts)
    IN  /\ CertListed(gr, cs, c.ci)
        /\ CertConnected(gr, cs, c.ci, First(c.F), Second(c.F), EdgeTo(gr, c.F), First(c.B), Second(c.B), EdgeFrom(gr, c.B))
        /\ CertOrdered(gr, c.ci)
        /\ CertReached(gr, starts, c.ci, First(c.G), Second(c.G), EdgeTo(gr, c.G))

Init == /\ \E E \in SUBSET Pairs : g = MkGraph(E)
        /\ st \in {SortedSeq(S) : S \in SUBSET V}
        /\ comps = <<>> /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ comps' \in Candidates
        /\ UNCHANGED <<g, st>>
Spec == Init /\ [][Next]_vars

Equivalent == done =>
    (CertAccepts(g, comps, st) <=> IsDecomposition(g, comps, ReachFrom(g, SetOf(st))))

\* A decomposition exists, and reversal is an involution that turns the order around.
RevOK == done => /\ RevSeq(RevSeq(comps)) = comps
                 /\ IsDecomposition(g, comps, ReachFrom(g, SetOf(st))) =>
                      \A c \in 1..Len(comps) : \A d \in 1..(c-1) :
                         \A u \in SetOf(RevSeq(comps)[c]) : \A v \in SetOf(RevSeq(comps)[d]) : v \notin Succ(g, u)
=============================================================================
