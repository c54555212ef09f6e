----------------------------- MODULE TarjanAlgo -----------------------------
(***************************************************************************)
(* The decomposition algorithm of tarjan.c at the level of its memory: the *)
(* depth first stack lives in the unused high end of the result's start    *)
(* array, the component stack in the unused high end of its vertex array,  *)
(* and the status array doubles as the count of unprocessed neighbours.    *)
(* One action per iteration of the search loop, the capture of a component *)
(* one vertex at a time.                                                   *)
(*                                                                         *)
(* Checked: no stack entry still needed is overwritten by results and vice *)
(* versa, every access is inside its array, the search ends, and what is   *)
(* left in the result arrays is a decomposition of what was to be listed,  *)
(* whatever the workspace contained and however much larger it is.         *)
(***************************************************************************)
EXTENDS Scc, TLC

CONSTANTS N,        \* vertices
          W,        \* vertices the workspace was created for, W >= N
          Mode,     \* "full" or "reach"
          MaxStart, \* length of start lists
          First, Last   \* graphs by the number of their edge set

ASSUME W >= N /\ (Mode = "full" => W = N)

VARIABLES g, todo, req,               \* input, remaining start points, all start points
          start, vert, ncomp,         \* result
          vs, cs,                     \* stack pointers (next free slot)
          status, link, time, clock,  \* workspace
          pc, cur

vars == <<g, todo, req, start, vert, ncomp, vs, cs, status, link, time, clock, pc, cur>>

DONE == -2
REMAINING == -1
JUNK == 77          \* memory never written

V == 0..(N - 1)
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SortedSeq(S \ {x})

\* Edge v -> w present iff bit v*N+w of the graph's number is set; vertices of
\* odd number list their neighbours in descending order.
Bit(x, b) == (x \div (2 ^ b)) % 2 = 1
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Rev(Tail(s)) \o <<Head(s)>>
Row(x, v) == LET s == SortedSeq({w \in V : Bit(x, v * N + w)})
             IN  IF v % 2 = 1 THEN Rev(s) ELSE s
RECURSIVE Cat(_, _)
Cat(x, v) == IF v < 0 THEN <<>> ELSE Cat(x, v - 1) \o Row(x, v)
RECURSIVE Ptr(_, _)
Ptr(x, v) == IF v < 0 THEN <<0>> ELSE LET s == Ptr(x, v - 1) IN s \o <<s[Len(s)] + Len(Row(x, v))>>
MkGraph(x) == [n |-> N, ia |-> Ptr(x, N - 1), ja |-> Cat(x, N - 1)]

StartLists == IF Mode = "full" THEN {[i \in 1..N |-> i - 1]}
              ELSE UNION {[1..k -> V] : k \in 0..MaxStart}

Init ==
    /\ \E x \in First..Last : g = MkGraph(x)
    /\ req \in StartLists /\ todo = req
    /\ start = [i \in 0..W |-> IF i = 0 THEN 0 ELSE JUNK]
    /\ vert = [i \in 0..(W - 1) |-> JUNK]
    /\ ncomp = 0 /\ vs = W /\ cs = W - 1
    /\ status = [i \in 0..(W - 1) |-> REMAINING]   \* reset on every call
    /\ link = [i \in 0..(W - 1) |-> JUNK] /\ time = [i \in 0..(W - 1) |-> JUNK]
    /\ clock = 0 /\ pc = "next" /\ cur = -1

\* Start a search from the next start point, unless it was already finished.
NextStart ==
    /\ pc = "next"
    /\ IF todo = <<>> THEN pc' = "end" /\ UNCHANGED <<todo, start, vs, clock>>
       ELSE /\ todo' = Tail(todo)
            /\ IF status[Head(todo)] = DONE THEN UNCHANGED <<start, vs, clock, pc>>
               ELSE /\ start' = [start EXCEPT ![vs] = Head(todo)]
                    /\ vs' = vs - 1 /\ clock' = 0 /\ pc' = "loop"
    /\ UNCHANGED <<g, req, vert, ncomp, cs, status, link, time, cur>>

Top == start[vs + 1]
Min(a, b) == IF a < b THEN a ELSE b

\* One iteration: discover the top vertex if new, then look at its next
\* neighbour, or complete it.
Loop ==
    /\ pc = "loop"
    /\ IF vs = W THEN pc' = "next" /\ UNCHANGED <<start, vert, ncomp, vs, cs, status, link, time, clock, cur>>
       ELSE
       LET c == Top
           new == status[c] = REMAINING
           st1 == IF new THEN [status EXCEPT ![c] = g.ia[c + 2] - g.ia[c + 1]] ELSE status
           tm1 == IF new THEN [time EXCEPT ![c] = clock] ELSE time
           lk1 == IF new THEN [link EXCEPT ![c] = clock] ELSE link
           ve1 == IF new THEN [vert EXCEPT ![cs] = c] ELSE vert
       IN  /\ clock' = IF new THEN clock + 1 ELSE clock
           /\ cs' = IF new THEN cs - 1 ELSE cs
           /\ time' = tm1 /\ vert' = ve1
           /\ IF st1[c] = 0
              THEN /\ status' = st1 /\ link' = lk1 /\ UNCHANGED <<vs, ncomp>>
                   /\ cur' = c
                   /\ IF lk1[c] = tm1[c]
                      THEN pc' = "capture" /\ start' = [start EXCEPT ![ncomp + 1] = start[ncomp]]
                      ELSE pc' = "pop" /\ UNCHANGED start
              ELSE LET child == g.ja[g.ia[c + 1] + st1[c]]
                       st2 == [st1 EXCEPT ![c] = @ - 1]
                   IN  /\ status' = st2 /\ UNCHANGED <<ncomp, cur, pc>>
                       /\ IF st2[child] = REMAINING
                          THEN start' = [start EXCEPT ![vs] = child] /\ vs' = vs - 1 /\ link' = lk1
                          ELSE /\ UNCHANGED <<start, vs>>
                               /\ link' = IF st2[child] >= 0 THEN [lk1 EXCEPT ![c] = Min(@, tm1[child])] ELSE lk1
    /\ UNCHANGED <<g, todo, req>>

Capture ==
    /\ pc = "capture"
    /\ LET v == vert[cs + 1]
       IN  /\ cs' = cs + 1
           /\ status' = [status EXCEPT ![v] = DONE]
           /\ vert' = [vert EXCEPT ![start[ncomp + 1]] = v]
           /\ start' = [start EXCEPT ![ncomp + 1] = @ + 1]
           /\ IF v = cur THEN ncomp' = ncomp + 1 /\ pc' = "pop" ELSE UNCHANGED <<ncomp, pc>>
    /\ UNCHANGED <<g, todo, req, vs, link, time, clock, cur>>

Pop ==
    /\ pc = "pop"
    /\ vs' = vs + 1
    /\ link' = IF vs' = W THEN link
               ELSE [link EXCEPT ![start[vs' + 1]] = Min(@, link[cur])]
    /\ pc' = "loop"
    /\ UNCHANGED <<g, todo, req, start, vert, ncomp, cs, status, time, clock, cur>>

Next == NextStart \/ Loop \/ Capture \/ Pop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
\* Stack entries in use: vs+1..W of start, cs+1..W-1 of vert.
Captured == IF pc = "capture" THEN start[ncomp + 1] ELSE start[ncomp]
StacksApart ==
    /\ pc # "capture" => Captured <= cs + 1
    /\ pc = "capture" => Captured < cs + 1 + 1 /\ cs < W - 1
    \* the end pointer under construction may take the slot of the vertex being
    \* completed, which is not read again
    /\ pc \in {"next", "loop"} => ncomp <= vs
    /\ pc \in {"capture", "pop"} => ncomp + (IF pc = "capture" THEN 1 ELSE 0) <= vs + 1
InBounds == vs \in -1..W /\ cs \in -1..(W - 1) /\ ncomp \in 0..W
StackSane == pc = "loop" => \A i \in (vs + 1)..W : start[i] \in V /\ status[start[i]] # DONE

Result == [c \in 1..ncomp |-> [k \in 1..(start[c] - start[c - 1]) |-> vert[start[c - 1] + k - 1]]]
Correct == pc = "end" => IsDecomposition(g, Result, ReachFrom(g, SetOf(req)))
Ends == <>(pc = "end")
=============================================================================
