----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* The library's value holders as state machines: solutions, cell sets,    *)
(* connection value tables, connectivity graphs and random samplers.       *)
(*                                                                         *)
(* A state maps a slot (an object of the client program) to its abstract   *)
(* value; Apply(kind, st, op) is the transition of a call, Seen says what  *)
(* every observation must then show.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[k] : k \in 1..Len(s)}
Empty == [x \in {} |-> 0]
Put(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d

(***************************************************************************)
(* Solutions: global time of flight, and fields by ID.  Slots are values:  *)
(* a copy is a value of its own, a moved-from slot is gone.                *)
(***************************************************************************)
NewSol == [g |-> <<>>, tof |-> Empty, conc |-> Empty]
ApplySol(st, op) ==
    CASE op.op = "new"  -> Put(st, op.s, NewSol)
      [] op.op = "copy" -> Put(st, op.s, st[op.from])
      [] op.op = "move" -> Put(Drop(st, op.from), op.s, st[op.from])
      [] op.op = "del"  -> Drop(st, op.s)
      [] op.op = "gtof" -> Put(st, op.s, [st[op.s] EXCEPT !.g = op.v])
      [] op.op = "tof"  -> Put(st, op.s, [st[op.s] EXCEPT !.tof = Put(@, op.id, op.v)])
      [] op.op = "conc" -> Put(st, op.s, [st[op.s] EXCEPT !.conc = Put(@, op.id, op.v)])

\* An observation of a slot: <<slot, global, start points, <<id, tof, conc>> ...>>
SolShows(v, o) ==
    /\ o.g = v.g
    /\ Len(o.starts) = Cardinality(DOMAIN v.conc) /\ Range(o.starts) = DOMAIN v.conc
    /\ \A k \in 1..Len(o.ids) : /\ o.ids[k][2] = Get(v.tof, o.ids[k][1], <<>>)
                                /\ o.ids[k][3] = Get(v.conc, o.ids[k][1], <<>>)

(***************************************************************************)
(* Cell sets: an ID and a set of cells.                                    *)
(***************************************************************************)
ApplySet(st, op) ==
    CASE op.op = "new"    -> Put(st, op.s, [id |-> op.id, cells |-> Range(op.v)])
      [] op.op = "insert" -> Put(st, op.s, [st[op.s] EXCEPT !.cells = @ \cup {op.c}])
      [] op.op = "copy"   -> Put(st, op.s, st[op.from])
      [] op.op = "move"   -> Put(Drop(st, op.from), op.s, st[op.from])
SetShows(v, o) == o.id = v.id /\ Len(o.v) = Cardinality(v.cells) /\ Range(o.v) = v.cells

(***************************************************************************)
(* Tables of connection values: reads outside the dimensions are refused   *)
(* (result 1: logic error), and so are writes, which then change nothing.  *)
(***************************************************************************)
Fits(v, op) == op.c >= 0 /\ op.c < v.nc /\ op.p >= 0 /\ op.p < v.np
ApplyTab(st, op) ==
    CASE op.op = "new"  -> Put(st, op.s, [nc |-> op.nc, np |-> op.np, val |-> Empty])
      [] op.op = "copy" -> Put(st, op.s, st[op.from])
      [] op.op = "set"  -> IF Fits(st[op.s], op) THEN Put(st, op.s, [st[op.s] EXCEPT !.val = Put(@, <<op.c, op.p>>, op.v)]) ELSE st
      [] op.op = "add"  -> IF Fits(st[op.s], op) THEN Put(st, op.s, [st[op.s] EXCEPT !.val = Put(@, <<op.c, op.p>>, op.v + Get(@, <<op.c, op.p>>, 0))]) ELSE st
      [] op.op = "get"  -> st
TabCallOK(st, op) ==
    CASE op.op \in {"set", "add"} -> op.res = (IF Fits(st[op.s], op) THEN 0 ELSE 1)
      [] op.op = "get" -> IF Fits(st[op.s], op) THEN op.res = 0 /\ op.v = Get(st[op.s].val, <<op.c, op.p>>, 0) ELSE op.res = 1
      [] OTHER -> TRUE
TabShows(v, o) ==
    /\ o.nc = v.nc /\ o.np = v.np
    /\ Len(o.v) = v.nc * v.np
    /\ \A k \in 1..Len(o.v) : o.v[k] = Get(v.val, <<(k - 1) \div v.np, (k - 1) % v.np>>, 0)

(***************************************************************************)
(* IDs: text, ordered as text (character codes, first difference decides,  *)
(* a proper prefix comes first).                                           *)
(***************************************************************************)
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, k) ==
    IF k > Len(b) THEN FALSE
    ELSE IF k > Len(a) THEN TRUE
    ELSE IF a[k] # b[k] THEN a[k] < b[k]
    ELSE LexFrom(a, b, k + 1)
TextLess(a, b) == LexFrom(a, b, 1)

(***************************************************************************)
(* Connectivity graphs.                                                    *)
(***************************************************************************)
GraphFits(n, cc) == Len(cc) % 2 = 0 /\ \A k \in 1..Len(cc) : cc[k] >= 0 /\ cc[k] < n
GraphOK(r) ==
    IF ~GraphFits(r.n, r.cc) THEN r.res = 1
    ELSE /\ r.res = 0
         /\ r.nc = r.n /\ r.m = Len(r.cc) \div 2
         /\ Len(r.conn) = r.m
         /\ \A k \in 1..r.m : r.conn[k] = <<r.cc[2*k - 1], r.cc[2*k]>>

(***************************************************************************)
(* Samplers.  A sampler is an unknown but fixed stream read from its       *)
(* beginning: what a call returns is a function of the calls made before   *)
(* on the same sampler.  A history is two samplers given the same calls    *)
(* (other samplers may be used in between), and one given the calls glued  *)
(* together.                                                               *)
(***************************************************************************)
CallOK(c) ==
    /\ Len(c.out) = c.n
    /\ c.kind = "index" => \A k \in 1..c.n : c.out[k] >= 0 /\ c.out[k] <= c.max
\* normal samples, in millionths: z is what a standard sampler gives at the same place
ShiftOK(c) == \A k \in 1..c.n : LET d == c.out[k] - (c.mean * 1000000 + c.sd * c.z[k]) IN d <= 3 + c.sd /\ -d <= 3 + c.sd

RECURSIVE Glue(_)
Glue(cs) == IF cs = <<>> THEN <<>> ELSE cs[1].out \o Glue(Tail(cs))
=============================================================================
