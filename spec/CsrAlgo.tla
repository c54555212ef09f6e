------------------------------ MODULE CsrAlgo ------------------------------
(***************************************************************************)
(* The compression algorithm of AssembledConnections.cpp step by step:     *)
(* bucket insertion by row, double transposition (which sorts), removal of *)
(* duplicates, all the while maintaining the map from each original        *)
(* connection to its place, and the weight accumulation through that map.  *)
(* The object's life cycle (collect, compress, reuse) is part of the state *)
(* so that leftovers of an earlier graph would be noticed.                 *)
(***************************************************************************)
EXTENDS Csr, TLC

CONSTANTS MaxI, MaxJ, MaxLen, MaxRows, MaxGraphs

VARIABLES pend,          \* collected connections
          g,             \* abstract last graph
          ia, ja, sa,    \* concrete arrays (sequences)
          elm,           \* place (from zero) of each connection
          rem,           \* phases left
          nr, nc, ng
vars == <<pend, g, ia, ja, sa, elm, rem, nr, nc, ng>>

Edge == [i : 0..MaxI, j : 0..MaxJ, w : {1}, wt : {TRUE}]

Init == /\ pend = <<>> /\ g = NoGraph /\ ia = <<>> /\ ja = <<>> /\ sa = <<>> /\ elm = <<>>
        /\ rem = <<>> /\ nr = 0 /\ nc = 0 /\ ng = 0

MaxOf(s) == IF s = <<>> THEN -1 ELSE CHOOSE m \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : s[k] <= m

Collect == /\ rem = <<>> /\ Len(pend) < MaxLen /\ ng < MaxGraphs
           /\ \E e \in Edge : pend' = AddTo(pend, [e EXCEPT !.w = 1 + (Len(pend) % 2) + 3 * (Len(pend) \div 2)])
           /\ UNCHANGED <<g, ia, ja, sa, elm, rem, nr, nc, ng>>

\* --- bucket insertion: counts, shifted prefix sums, insertion
RECURSIVE Count(_, _, _)
Count(rows, k, r) == IF k = 0 THEN 0 ELSE Count(rows, k - 1, r) + (IF rows[k] = r THEN 1 ELSE 0)
RECURSIVE Before(_, _)
Before(rows, r) == Cardinality({k \in 1..Len(rows) : rows[k] < r})

\* Result of inserting entries (rows[k], cols[k]) in order: start pointers, columns, places
Bucket(n, rows, cols) ==
    LET place(k) == Before(rows, rows[k]) + Count(rows, k - 1, rows[k])
    IN  [ia |-> [r \in 1..(n + 1) |-> Before(rows, r - 1)],
         ja |-> [p \in 1..Len(rows) |-> cols[CHOOSE k \in 1..Len(rows) : place(k) = p - 1]],
         elm |-> [k \in 1..Len(rows) |-> place(k)]]

Rows(s) == [k \in 1..Len(s) |-> s[k].i]
Cols(s) == [k \in 1..Len(s) |-> s[k].j]

RECURSIVE Expand(_, _)
Expand(ptr, r) == IF r = 0 THEN <<>>
                  ELSE Expand(ptr, r - 1) \o [x \in 1..(ptr[r + 1] - ptr[r]) |-> r - 1]

StartCompress ==
    /\ rem = <<>> /\ ng < MaxGraphs
    /\ \E n \in 0..MaxRows :
        IF CompressResult(pend, n) # "ok" THEN UNCHANGED vars
        ELSE LET m == MaxOf(Rows(pend)) + 1
                 b == Bucket(m, Rows(pend), Cols(pend))
             IN  /\ g' = Compressed(pend, n)
                 /\ ia' = b.ia /\ ja' = b.ja /\ elm' = b.elm
                 /\ nr' = m /\ nc' = MaxOf(Cols(pend)) + 1
                 /\ rem' = <<"transpose", "transpose", "condense", "weights", "pad">>
                 /\ UNCHANGED <<pend, sa, ng>>

Transpose ==
    /\ rem # <<>> /\ Head(rem) = "transpose"
    /\ LET rows == Expand(ia, Len(ia) - 1)
           b == Bucket(nc, ja, rows)
       IN  ia' = b.ia /\ ja' = b.ja /\ elm' = [k \in 1..Len(elm) |-> b.elm[elm[k] + 1]]
    /\ nr' = nc /\ nc' = nr
    /\ rem' = Tail(rem)
    /\ UNCHANGED <<pend, g, sa, ng>>

\* Duplicates are adjacent within a row now.
Condense ==
    /\ rem # <<>> /\ Head(rem) = "condense"
    /\ LET rows == Expand(ia, Len(ia) - 1)
           first(p) == p = 1 \/ rows[p] # rows[p - 1] \/ ja[p] # ja[p - 1]
           new == [p \in 1..Len(ja) |-> Cardinality({x \in 1..p : first(x)}) - 1]
           keep == SelectSeq([p \in 1..Len(ja) |-> p], first)
       IN  /\ ja' = [x \in 1..Len(keep) |-> ja[keep[x]]]
           /\ ia' = [r \in 1..Len(ia) |-> Cardinality({x \in 1..ia[r] : first(x)})]
           /\ elm' = [k \in 1..Len(elm) |-> new[elm[k] + 1]]
    /\ rem' = Tail(rem)
    /\ UNCHANGED <<pend, g, sa, nr, nc, ng>>

RECURSIVE Acc(_, _)
Acc(p, k) == IF k = 0 THEN 0 ELSE Acc(p, k - 1) + (IF elm[k] = p - 1 THEN pend[k].w ELSE 0)

Weights ==
    /\ rem # <<>> /\ Head(rem) = "weights"
    /\ sa' = IF pend # <<>> /\ pend[1].wt THEN [p \in 1..Len(ja) |-> Acc(p, Len(pend))] ELSE <<>>
    /\ rem' = Tail(rem)
    /\ UNCHANGED <<pend, g, ia, ja, elm, nr, nc, ng>>

Pad ==
    /\ rem # <<>> /\ Head(rem) = "pad"
    /\ ia' = ia \o [x \in 1..(g.rows - (Len(ia) - 1)) |-> ia[Len(ia)]]
    /\ pend' = <<>> /\ ng' = ng + 1
    /\ rem' = <<>>
    /\ UNCHANGED <<g, ja, sa, elm, nr, nc>>

Next == Collect \/ StartCompress \/ Transpose \/ Condense \/ Weights \/ Pad
Spec == Init /\ [][Next]_vars

AtRest == rem = <<>> /\ g.has
Correct == AtRest => ArraysOK(g, ia, ja, sa) /\ NoStaleWeights(g, ja, sa)
\* Between the phases every connection's place holds its sink (or source).
PlacesOK ==
    \A k \in 1..Len(pend) : (rem # <<>> /\ Len(rem) < 6) =>
        elm[k] + 1 \in 1..Len(ja) /\ ja[elm[k] + 1] = IF Len(rem) = 4 THEN pend[k].i ELSE pend[k].j

GroupsOf == [p \in 1..Len(ja) |->
               SelectSeq([k \in 1..Len(g.edges) |-> k], LAMBDA k : elm[k] = p - 1)]
\* The certificate form agrees with the definition.
CertSame == (AtRest /\ pend = <<>>) => CertArraysOK(g, ia, ja, sa, GroupsOf)
=============================================================================
