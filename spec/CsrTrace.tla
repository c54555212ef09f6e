------------------------------ MODULE CsrTrace ------------------------------
(***************************************************************************)
(* Steps a recorded history of one AssembledConnections object through the *)
(* state machine of Csr and compares, after every call, what was seen.     *)
(* The arrays of a large graph are judged by certificate, those of a small *)
(* one both ways.                                                          *)
(***************************************************************************)
EXTENDS Csr, TLC, Json

CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)

VARIABLES h, l, pend, g, bad
vars == <<h, l, pend, g, bad>>

Hist(x) == Trace[x].ops
IsHist(x) == Trace[x].kind = "hist"

Init == /\ h \in 1..Len(Trace) /\ l = 0
        /\ pend = <<>> /\ g = NoGraph /\ bad = [C14 |-> FALSE, C15 |-> FALSE, C22 |-> FALSE]

Edges(op) == [k \in 1..Len(op.e) |-> [i |-> op.e[k][1], j |-> op.e[k][2], w |-> op.e[k][3], wt |-> op.wt = 1]]

(***************************************************************************)
(* What a call shows of the graph.                                         *)
(***************************************************************************)
NbOK(gr, op) ==   \* the per-cell ranges present the same pairs as the arrays
    op.ranges = 1 =>
        /\ Len(op.nb) = gr.rows
        /\ \A r \in 1..gr.rows :
              /\ Len(op.nb[r]) = op.ia[r + 1] - op.ia[r]
              /\ \A k \in 1..Len(op.nb[r]) : op.nb[r][k] = op.ja[op.ia[r] + k]
        /\ op.nw = op.sa

LookOK(gr, op, big) ==
    /\ op.nr = gr.rows
    /\ (IF big THEN CertArraysOK(gr, op.ia, op.ja, op.sa, op.grp)
        ELSE ArraysOK(gr, op.ia, op.ja, op.sa) /\ CertArraysOK(gr, op.ia, op.ja, op.sa, op.grp))
    /\ NbOK(gr, op)
    /\ NoStaleWeights(gr, op.ja, op.sa)

\* Seen at all exactly when there is a graph (the driver only looks then).
Shows(gr, op, big) == IF gr.has THEN op.seen = 1 /\ LookOK(gr, op, big) ELSE op.seen = 0

ResultOK(exp, res) == CASE exp = "ok"      -> res = 0
                        [] exp = "invalid" -> res = 1
                        [] exp = "logic"   -> res = 2
                        [] exp = "either"  -> res \in {1, 2}

\* The first graph of an object, before anything was rejected, is C14's
\* business alone; everything that has a history is C15's as well.
Step ==
    LET op == Hist(h)[l + 1]
        big == Trace[h].big = 1
        out == CompressResult(pend, op.n)
        pend1 == CASE op.op = "add" -> pend \o Edges(op)
                   [] op.op = "compress" -> IF out = "ok" THEN <<>> ELSE pend
                   [] op.op = "fresh" -> <<>>
                   [] op.op = "copy" -> pend
        g1 == CASE op.op = "add" -> g
                [] op.op = "compress" -> IF out = "ok" THEN Compressed(pend, op.n) ELSE g
                [] op.op = "fresh" -> NoGraph
                [] op.op = "copy" -> g
        resOK == op.op = "compress" => ResultOK(out, op.res)
        lookOK == resOK => Shows(g1, op, big)
    IN  /\ pend' = pend1 /\ g' = g1
        /\ bad' = [C14 |-> ~(lookOK /\ (resOK \/ out # "ok")), C15 |-> ~(resOK /\ lookOK), C22 |-> FALSE]

(***************************************************************************)
(* Printing: one line per adjacency entry, by source and then sink, three  *)
(* fields, the third reading back to the identical weight; the stream's    *)
(* format is left alone.                                                   *)
(***************************************************************************)
RECURSIVE Entries(_, _, _)
Entries(ia, ja, r) ==
    IF r = 0 THEN <<>>
    ELSE Entries(ia, ja, r - 1) \o [k \in 1..(ia[r + 1] - ia[r]) |-> <<r - 1, ja[ia[r] + k], 1>>]

Repeat(s, n) == [k \in 1..(n * Len(s)) |-> s[1 + ((k - 1) % Len(s))]]

PrintOK(r) ==
    LET exp == Entries(r.ia, r.ja, Len(r.ia) - 1)
    IN  /\ r.good = 1
        /\ r.prec1 = r.prec0
        /\ r.flags1 = r.flags0
        /\ Len(r.lines) = r.times * Len(exp)
        /\ r.endl = 1
        /\ r.plain = 1 /\ exp # <<>> => r.lines = Repeat(exp, r.times)

StepHist == IsHist(h) /\ l < Len(Hist(h)) /\ Step /\ l' = l + 1
StepPrint == ~IsHist(h) /\ l = 0 /\ l' = 1
             /\ bad' = [bad EXCEPT !.C22 = ~PrintOK(Trace[h])] /\ UNCHANGED <<pend, g>>
Next == /\ ~(bad.C14 \/ bad.C15 \/ bad.C22)
        /\ StepHist \/ StepPrint
        /\ h' = h
        /\ (bad'.C14 \/ bad'.C15 \/ bad'.C22 =>
              PrintT("@" \o ToJson([record |-> h, id |-> Trace[h].id, step |-> l', bad |-> bad'])))
Spec == Init /\ [][Next]_vars
\* A history is identified by its number and position.
Place == <<h, l, bad>>
Short == [h |-> h, l |-> l, bad |-> bad]

C14_OK == ~bad.C14
C15_OK == ~bad.C15
C22_OK == ~bad.C22
=============================================================================
