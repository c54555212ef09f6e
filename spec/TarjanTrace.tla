---------------------------- MODULE TarjanTrace ----------------------------
(***************************************************************************)
(* Judges recorded results of the strong component routines.  Every record *)
(* is one behaviour: recorded (Init), then judged (Judge).                 *)
(***************************************************************************)
EXTENDS Scc, TLC, Json

CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)

VARIABLES i, verdict
vars == <<i, verdict>>

(***************************************************************************)
(* One record.                                                             *)
(***************************************************************************)
\* Everything stays inside its range: needed before anything else is evaluated.
InRange(r) == \A c \in 1..Len(r.comps) : \A k \in 1..Len(r.comps[c]) : r.comps[c][k] \in Vtx(r)

Decomposes(r, U) == InRange(r) /\ IsDecomposition(r, r.comps, U)

CertOK(r) ==
    /\ CertListed(r, r.comps, r.ci)
    /\ CertConnected(r, r.comps, r.ci, r.pf, r.df, r.ef, r.pb, r.db, r.eb)
    /\ CertOrdered(r, r.ci)

FullOK(r) == IF r.big = 1 THEN CertOK(r) /\ (\A v \in 1..r.n : r.ci[v] # 0)
             ELSE Decomposes(r, Vtx(r))

ReachOK(r) == IF r.big = 1 THEN CertOK(r) /\ CertReached(r, r.st, r.ci, r.ps, r.ds, r.es)
              ELSE Decomposes(r, ReachFrom(r, SetOf(r.st)))

ReverseOK(r) == r.hasrev = 1 => /\ r.rev = RevSeq(r.comps)
                                /\ r.rev2 = r.comps

\* Chains of a million vertices and more.
ChainsOK(r) == ChainOK(r.h, r.a, r.b, r.K, SetOf(r.st), r.full = 1, r.runs, r.least, r.mixed)
ChainRevOK(r) == r.rev = 1

(***************************************************************************)
(* Failing allocations.  Operations: 0 create workspace, 1 full, 2         *)
(* reachable, 3 reversal.  Abstractly: an operation either gets all memory *)
(* it asks for and succeeds, or it fails, holds nothing, and the operand   *)
(* is unchanged.                                                           *)
(***************************************************************************)
FaultOK(r) ==
    /\ r.hit = 1 => r.null = 1 /\ (r.op # 3 => r.held = 0)
    /\ r.hit = 0 => r.null = 0
    /\ r.live = 0
    /\ r.op = 3 => r.after = IF r.null = 1 THEN r.before ELSE RevSeq(r.before)

\* A computation that runs out of memory throws or (if it can do without) is right;
\* afterwards the toolbox works and nothing was lost.
ToolboxFaultOK(r) ==
    /\ r.threw = 0 => r.right = 1
    /\ r.hit = 0 => r.threw = 0
    /\ r.later = 1
    /\ r.live = 0

Verdict(r) ==
    CASE r.kind = "full"    -> [C11 |-> FullOK(r), C12 |-> TRUE, C13 |-> ReverseOK(r)]
      [] r.kind = "reach"   -> [C11 |-> TRUE, C12 |-> ReachOK(r), C13 |-> ReverseOK(r)]
      [] r.kind = "chain"   -> [C11 |-> r.full = 0 \/ ChainsOK(r), C12 |-> r.full = 1 \/ ChainsOK(r), C13 |-> ChainRevOK(r)]
      [] r.kind = "fault"   -> [C11 |-> TRUE, C12 |-> TRUE, C13 |-> FaultOK(r)]
      [] r.kind = "tbfault" -> [C11 |-> TRUE, C12 |-> TRUE, C13 |-> ToolboxFaultOK(r)]

None == [C11 |-> TRUE, C12 |-> TRUE, C13 |-> TRUE]

Init == i \in 1..Len(Trace) /\ verdict = <<>>
Judge == /\ verdict = <<>>
         /\ verdict' = << Verdict(Trace[i]) >>
         /\ (verdict'[1] # None =>
               PrintT("@" \o ToJson([record |-> i, id |-> Trace[i].id, kind |-> Trace[i].kind, verdict |-> verdict'[1]])))
         /\ i' = i
Next == Judge
Spec == Init /\ [][Next]_vars

C11_OK == verdict # <<>> => verdict[1].C11
C12_OK == verdict # <<>> => verdict[1].C12
C13_OK == verdict # <<>> => verdict[1].C13
=============================================================================
