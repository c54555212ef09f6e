----------------------------- MODULE ContTrace -----------------------------
(***************************************************************************)
(* Steps recorded histories of the value holders through Containers.       *)
(***************************************************************************)
EXTENDS Containers, TLC, Json

CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)

VARIABLES h, l, st, ok
vars == <<h, l, st, ok>>

Kind == Trace[h].kind
Ops == Trace[h].ops

Init == h \in 1..Len(Trace) /\ l = 0 /\ st = Empty /\ ok = TRUE

Apply(op) == CASE Kind = "sol" -> ApplySol(st, op)
               [] Kind = "set" -> ApplySet(st, op)
               [] Kind = "tab" -> ApplyTab(st, op)
Shows(v, o) == CASE Kind = "sol" -> SolShows(v, o)
                 [] Kind = "set" -> SetShows(v, o)
                 [] Kind = "tab" -> TabShows(v, o)

\* Every call is followed by a look at every live object.
Step ==
    LET op == Ops[l + 1]
        call == IF Kind = "tab" THEN TabCallOK(st, op) ELSE TRUE
        st1 == Apply(op)
    IN  /\ Kind \in {"sol", "set", "tab"} /\ l < Len(Ops) /\ l' = l + 1
        /\ st' = st1
        /\ ok' = /\ call
                 /\ {op.look[k].s : k \in 1..Len(op.look)} = DOMAIN st1
                 /\ \A k \in 1..Len(op.look) : Shows(st1[op.look[k].s], op.look[k])

\* Single observations.
IdsOK(r) ==
    /\ \A a \in 1..Len(r.text) : r.back[a] = r.text[a]
    /\ \A a, b \in 1..Len(r.text) : (r.less[a][b] = 1) <=> TextLess(r.text[a], r.text[b])

RandomOK(r) ==
    /\ \A k \in 1..Len(r.a) : CallOK(r.a[k])
    /\ r.b = r.a                                      \* same calls, same samples
    /\ \A k \in 1..Len(r.a) : r.a[k].kind = "normal" => ShiftOK(r.a[k])
GlueOK(r) ==      \* equal calls in a row read on in the same stream
    /\ \A k \in 1..Len(r.parts) : CallOK(r.parts[k])
    /\ CallOK(r.whole)
    /\ Glue(r.parts) = r.whole.out
\* many samples: everything attainable is attained, successive samples differ
SpreadOK(r) == r.lo = 0 /\ r.hi = r.max /\ r.distinct = r.max + 1 /\ r.repeat = 0
EndsOK(r) == r.lo = 0 /\ r.hi = r.max
WideOK(r) == /\ \A k \in 1..Len(r.bins) : r.bins[k] > 0
             /\ r.repeat = 0 /\ r.inside = 1
\* mean and standard deviation of a large normal sample, in thousandths
MomentOK(r) == /\ r.mean - r.m * 1000 <= 60 * r.sd /\ r.m * 1000 - r.mean <= 60 * r.sd
               /\ r.dev - r.sd * 1000 <= 60 * r.sd /\ r.sd * 1000 - r.dev <= 60 * r.sd
               /\ r.repeat = 0

Single == /\ Kind \notin {"sol", "set", "tab"} /\ l = 0 /\ l' = 1 /\ UNCHANGED st
          /\ ok' = LET r == Trace[h] IN
                   CASE Kind = "ids"    -> IdsOK(r)
                     [] Kind = "graph"  -> GraphOK(r)
                     [] Kind = "rand"   -> RandomOK(r)
                     [] Kind = "glue"   -> GlueOK(r)
                     [] Kind = "spread" -> SpreadOK(r)
                     [] Kind = "wide"   -> WideOK(r)
                     [] Kind = "ends"   -> EndsOK(r)
                     [] Kind = "moment" -> MomentOK(r)

Next == /\ ok /\ (Step \/ Single) /\ h' = h
        /\ (~ok' => PrintT("@" \o ToJson([record |-> h, id |-> Trace[h].id, kind |-> Kind, step |-> l'])))
Spec == Init /\ [][Next]_vars
Place == <<h, l, ok>>
Short == [h |-> h, l |-> l, ok |-> ok]

C20_OK == Kind = "sol" => ok
C21_OK == Kind \in {"set", "tab", "ids", "graph"} => ok
C23_OK == Kind \in {"rand", "glue", "spread", "wide", "ends", "moment"} => ok
=============================================================================
