-------------------------------- MODULE Csr --------------------------------
(***************************************************************************)
(* Assembly of a compressed adjacency from a list of connections.          *)
(*                                                                         *)
(* State: the connections collected so far (pend, a sequence of records    *)
(* with source i, sink j, weight w and flag wt: given with a weight), and  *)
(* the last compressed graph: has (there is one), rows, edges (the         *)
(* connections it was made of), weighted.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoGraph == [has |-> FALSE, rows |-> 0, edges |-> <<>>, weighted |-> FALSE]

Mixed(pend) == (\E k \in 1..Len(pend) : pend[k].wt) /\ (\E k \in 1..Len(pend) : ~pend[k].wt)
TooFew(pend, n) == \E k \in 1..Len(pend) : pend[k].i >= n

\* The operations, as functions from state to state.
AddTo(pend, e) == Append(pend, e)

CompressResult(pend, n) ==
    IF Mixed(pend) /\ TooFew(pend, n) THEN "either"
    ELSE IF Mixed(pend) THEN "logic"
    ELSE IF TooFew(pend, n) THEN "invalid" ELSE "ok"

Compressed(pend, n) ==
    [has |-> TRUE, rows |-> n, edges |-> pend,
     weighted |-> pend # <<>> /\ pend[1].wt]

(***************************************************************************)
(* What the arrays of a compressed graph must be.  Sinks in a row are the  *)
(* distinct sinks in ascending order; weights are sums over all            *)
(* connections of the pair.  (ia, ja, sa count positions from zero.)       *)
(***************************************************************************)
RECURSIVE SumW(_, _, _, _)
SumW(edges, k, i, j) ==
    IF k = 0 THEN 0
    ELSE SumW(edges, k - 1, i, j)
         + (IF edges[k].i = i /\ edges[k].j = j THEN edges[k].w ELSE 0)

Sinks(edges, i) == {edges[k].j : k \in {x \in 1..Len(edges) : edges[x].i = i}}

\* Shape shared by both forms.
Framed(g, ia, ja) ==
    /\ Len(ia) = g.rows + 1
    /\ ia[1] = 0
    /\ ia[g.rows + 1] = Len(ja)
    /\ \A r \in 1..g.rows : ia[r] <= ia[r + 1]

Ascending(g, ia, ja) ==
    \A r \in 1..g.rows : \A k \in (ia[r] + 1)..(ia[r + 1] - 1) : ja[k] < ja[k + 1]

ArraysOK(g, ia, ja, sa) ==
    /\ Framed(g, ia, ja)
    /\ Ascending(g, ia, ja)
    /\ \A r \in 1..g.rows :
          {ja[k] : k \in (ia[r] + 1)..ia[r + 1]} = Sinks(g.edges, r - 1)
    /\ g.weighted =>
          /\ Len(sa) = Len(ja)
          /\ \A r \in 1..g.rows : \A k \in (ia[r] + 1)..ia[r + 1] :
                sa[k] = SumW(g.edges, Len(g.edges), r - 1, ja[k])

\* Weights of a graph without: none, or nothing that could be taken for data.
NoStaleWeights(g, ja, sa) ==
    ~g.weighted => \/ Len(sa) = 0
                   \/ Len(sa) = Len(ja) /\ \A k \in 1..Len(sa) : sa[k] = 0

(***************************************************************************)
(* The same with a certificate, for long lists: grp[p] lists the           *)
(* connections (indices into edges) that make up entry p.                  *)
(***************************************************************************)
RECURSIVE SumG(_, _, _, _)
SumG(edges, l, a, b) ==
    IF a > b THEN 0
    ELSE IF a = b THEN edges[l[a]].w
    ELSE LET m == (a + b) \div 2 IN SumG(edges, l, a, m) + SumG(edges, l, m + 1, b)

RECURSIVE LenSum(_, _, _)
LenSum(grp, a, b) ==
    IF a > b THEN 0
    ELSE IF a = b THEN Len(grp[a])
    ELSE LET m == (a + b) \div 2 IN LenSum(grp, a, m) + LenSum(grp, m + 1, b)

CertArraysOK(g, ia, ja, sa, grp) ==
    /\ Framed(g, ia, ja)
    /\ Ascending(g, ia, ja)
    /\ Len(grp) = Len(ja)
    /\ \A r \in 1..g.rows : \A p \in (ia[r] + 1)..ia[r + 1] :
          /\ Len(grp[p]) > 0
          /\ \A x \in 1..Len(grp[p]) :
                /\ grp[p][x] \in 1..Len(g.edges)
                /\ g.edges[grp[p][x]].i = r - 1
                /\ g.edges[grp[p][x]].j = ja[p]
                /\ x > 1 => grp[p][x - 1] < grp[p][x]
    \* groups of different entries are disjoint (different pairs), so equal
    \* numbers mean that every connection is in one of them
    /\ LenSum(grp, 1, Len(grp)) = Len(g.edges)
    /\ g.weighted =>
          /\ Len(sa) = Len(ja)
          /\ \A p \in 1..Len(ja) : sa[p] = SumG(g.edges, grp[p], 1, Len(grp[p]))
=============================================================================
