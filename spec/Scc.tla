-------------------------------- MODULE Scc --------------------------------
(***************************************************************************)
(* What a decomposition of a directed graph into strong components is.     *)
(*                                                                         *)
(* A graph g is a record with n (vertices 0..n-1) and CSR arrays ia, ja    *)
(* (sequences; ia has n+1 entries, counted from zero).  A decomposition is *)
(* a sequence of components, each a sequence of vertices.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Vtx(g) == 0 .. (g.n - 1)
EdgeIdx(g, v) == (g.ia[v + 1] + 1) .. g.ia[v + 2]
Succ(g, v) == {g.ja[k] : k \in EdgeIdx(g, v)}

RECURSIVE ReachFrom(_, _)
\* Everything reachable from the set S, S included.
ReachFrom(g, S) ==
    LET T == S \cup UNION {Succ(g, v) : v \in S}
    IN  IF T = S THEN S ELSE ReachFrom(g, T)

SetOf(s) == {s[k] : k \in 1..Len(s)}

RECURSIVE SumLenIn(_, _, _)
\* (halving keeps the recursion shallow for long lists)
SumLenIn(comps, a, b) == IF a > b THEN 0
                         ELSE IF a = b THEN Len(comps[a])
                         ELSE LET m == (a + b) \div 2 IN SumLenIn(comps, a, m) + SumLenIn(comps, m + 1, b)
SumLen(comps, k) == SumLenIn(comps, 1, k)

(***************************************************************************)
(* Declarative meaning, for small graphs.                                  *)
(***************************************************************************)
\* Each vertex of U exactly once, no empty component.
ListsOnce(comps, U) ==
    /\ \A c \in 1..Len(comps) : Len(comps[c]) > 0
    /\ UNION {SetOf(comps[c]) : c \in 1..Len(comps)} = U
    /\ SumLen(comps, Len(comps)) = Cardinality(U)

CompOf(comps, v) == CHOOSE c \in 1..Len(comps) : v \in SetOf(comps[c])

\* Two vertices share a component iff each reaches the other.
ExactComponents(g, comps, U) ==
    LET R == [v \in U |-> ReachFrom(g, {v})]
        co == [v \in U |-> CompOf(comps, v)]
    IN  \A u \in U : \A v \in U : (co[u] = co[v]) <=> (u \in R[v] /\ v \in R[u])

\* No component has an edge into a component listed after it.
ReverseTopological(g, comps, U) ==
    LET co == [v \in U |-> CompOf(comps, v)]
    IN  \A u \in U : \A v \in Succ(g, u) : v \in U /\ co[v] <= co[u]

IsDecomposition(g, comps, U) ==
    /\ ListsOnce(comps, U)
    /\ ExactComponents(g, comps, U)
    /\ ReverseTopological(g, comps, U)

(***************************************************************************)
(* The same by certificates, for large graphs.  A certificate is data that *)
(* makes checking linear; it is not trusted:                               *)
(*   ci  component (1..) of every vertex, 0 if not listed                  *)
(*   pf, df, ef  predecessor, distance and edge (index in ja) of a breadth *)
(*           first tree from the first vertex of the own component, inside *)
(*           the component                                                 *)
(*   pb, db, eb  the same against the direction of the edges               *)
(*   ps, ds, es  the same from the start points, over everything           *)
(* Decreasing distances make the parent chains end at the root, so they    *)
(* are paths.                                                              *)
(***************************************************************************)
EdgeAt(g, k, u, v) == k \in EdgeIdx(g, u) /\ g.ja[k] = v

CertListed(g, comps, ci) ==
    /\ Len(ci) = g.n
    /\ \A c \in 1..Len(comps) :
          /\ Len(comps[c]) > 0
          /\ \A k \in 1..Len(comps[c]) :
                comps[c][k] \in Vtx(g) /\ ci[comps[c][k] + 1] = c
    /\ \A v \in 1..g.n : ci[v] \in 0..Len(comps)
    \* as many entries as listed vertices: nothing twice, nothing missing
    /\ SumLen(comps, Len(comps)) = Cardinality({v \in 1..g.n : ci[v] # 0})

CertConnected(g, comps, ci, pf, df, ef, pb, db, eb) ==
    \A v \in Vtx(g) : ci[v + 1] # 0 =>
        LET root == comps[ci[v + 1]][1]
        IN  IF v = root THEN df[v + 1] = 0 /\ db[v + 1] = 0
            ELSE /\ df[v + 1] > 0 /\ db[v + 1] > 0
                 /\ LET p == pf[v + 1] IN
                       p \in Vtx(g) /\ ci[p + 1] = ci[v + 1] /\ df[p + 1] = df[v + 1] - 1 /\ EdgeAt(g, ef[v + 1], p, v)
                 /\ LET q == pb[v + 1] IN
                       q \in Vtx(g) /\ ci[q + 1] = ci[v + 1] /\ db[q + 1] = db[v + 1] - 1 /\ EdgeAt(g, eb[v + 1], v, q)

\* No edge to a later component: order, and maximality of components.
CertOrdered(g, ci) ==
    \A v \in Vtx(g) : ci[v + 1] # 0 =>
        \A k \in EdgeIdx(g, v) : ci[g.ja[k] + 1] # 0 /\ ci[g.ja[k] + 1] <= ci[v + 1]

CertReached(g, st, ci, ps, ds, es) ==
    /\ \A k \in 1..Len(st) : ci[st[k] + 1] # 0
    /\ LET S == SetOf(st) IN
       \A v \in Vtx(g) : ci[v + 1] # 0 =>
          \/ v \in S /\ ds[v + 1] = 0
          \/ /\ ds[v + 1] > 0
             /\ LET p == ps[v + 1] IN
                   p \in Vtx(g) /\ ci[p + 1] # 0 /\ ds[p + 1] = ds[v + 1] - 1 /\ EdgeAt(g, es[v + 1], p, v)

(***************************************************************************)
(* Chains: K copies of a small graph h, and an edge from vertex a of every *)
(* copy to vertex b of the next.  Copies cannot be in one component, so a  *)
(* list of components is right iff what it says about every copy is, and   *)
(* the component of b is before that of a where there is an edge.  This is *)
(* how graphs of millions of vertices are judged; what is recorded of them *)
(* are runs of copies that look the same.  (ChainThm: this is what the     *)
(* definition says.)                                                       *)
(***************************************************************************)
\* Reached vertices of copy c.
ChainReach(h, a, b, S, c) ==
    IF c = 0 THEN ReachFrom(h, S)
    ELSE IF ~(a \in ReachFrom(h, S)) THEN {}
    ELSE IF c = 1 \/ a \in ReachFrom(h, {b}) THEN ReachFrom(h, {b})
    ELSE {}

\* A run: the components of copies from .. from + count - 1, as seen in each of them.
\* Copies 2, 3, ... are all alike.
RunOK(h, a, b, S, full, run) ==
    \A c \in run.from .. (IF run.count = 1 \/ run.from > 2 THEN run.from
                          ELSE IF run.from + run.count - 1 > 3 THEN 3 ELSE run.from + run.count - 1) :
        LET U == IF full THEN Vtx(h) ELSE ChainReach(h, a, b, S, c)
        IN  IsDecomposition(h, run.comps, U)

RunsCover(runs, K) ==
    /\ Len(runs) > 0 /\ runs[1].from = 0
    /\ \A k \in 2..Len(runs) : runs[k].from = runs[k - 1].from + runs[k - 1].count
    /\ runs[Len(runs)].from + runs[Len(runs)].count = K

\* least: the smallest difference of positions (component of a) - (component of b in the
\* next copy), over all copies where both are listed; mixed: components with vertices of
\* several copies, or of no copy.
ChainOK(h, a, b, K, S, full, runs, least, mixed) ==
    /\ RunsCover(runs, K)
    /\ mixed = 0
    /\ \A k \in 1..Len(runs) : RunOK(h, a, b, S, full, runs[k])
    /\ least > 0

(***************************************************************************)
(* Reversal.                                                               *)
(***************************************************************************)
RevSeq(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
=============================================================================
