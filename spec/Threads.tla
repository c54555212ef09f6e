------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Calls on separate objects, made by several threads at once.             *)
(*                                                                         *)
(* A call is not atomic: it is a sequence of segments, and between two     *)
(* segments of one thread any other thread may run.  Each segment adds a   *)
(* piece of the call's input to the working memory of the call; the last   *)
(* one delivers the result.  Threads may read common objects (`common`),   *)
(* which nothing changes, but the working memory belongs to the call.      *)
(*                                                                         *)
(* With Global = TRUE all calls work in one memory, as with variables of   *)
(* static storage: TLC then finds a violation of ResultOK, which shows     *)
(* that the schedules considered can tell the two apart.                   *)
(*                                                                         *)
(* Schedules (who runs, for how many segments) are printed and imposed on  *)
(* real threads by harness/threads.cpp.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS P, Segs, MaxRuns, Global, Emit

VARIABLES pc, mem, res, sched

vars == <<pc, mem, res, sched>>

Procs == 1..P
Place(p) == IF Global THEN 1 ELSE p

common == [s \in 1..Segs |-> 100 * s]
Piece(p, s) == <<p, s, common[s]>>
Expected(p) == [s \in 1..Segs |-> Piece(p, s)]

Init ==
    /\ pc = [p \in Procs |-> 0]
    /\ mem = [p \in Procs |-> <<>>]
    /\ res = [p \in Procs |-> <<>>]
    /\ sched = <<>>

Last == sched[Len(sched)]

\* The schedule as runs <<thread, number of segments>>.
Note(p) == IF sched # <<>> /\ Last[1] = p
           THEN sched' = [sched EXCEPT ![Len(sched)][2] = @ + 1]
           ELSE /\ Len(sched) < MaxRuns
                /\ sched' = Append(sched, <<p, 1>>)

Segment(p) ==
    /\ pc[p] < Segs
    /\ Note(p)
    /\ pc' = [pc EXCEPT ![p] = @ + 1]
    /\ LET before == IF pc[p] = 0 THEN <<>> ELSE mem[Place(p)]      \* a call starts with empty memory
       IN  mem' = [mem EXCEPT ![Place(p)] = Append(before, Piece(p, pc[p] + 1))]
    /\ res' = IF pc[p] + 1 = Segs THEN [res EXCEPT ![p] = mem'[Place(p)]] ELSE res

Done == \A p \in Procs : pc[p] = Segs

Tell == Done /\ (Emit => PrintT("@" \o ToJson(sched))) /\ UNCHANGED vars

Next == (\E p \in Procs : Segment(p)) \/ Tell

Spec == Init /\ [][Next]_vars

ResultOK == \A p \in Procs : pc[p] = Segs => res[p] = Expected(p)
Partial  == \A p \in Procs : pc[p] > 0 => mem[Place(p)] = SubSeq(Expected(p), 1, pc[p])

\* A step of one thread leaves the results and memory of the others alone.
Apart == [][\A p \in Procs : pc'[p] = pc[p] => mem'[p] = mem[p] /\ res'[p] = res[p]]_vars
=============================================================================
