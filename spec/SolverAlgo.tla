----------------------------- MODULE SolverAlgo -----------------------------
(***************************************************************************)
(* The solver object as an algorithm: strong components one after the      *)
(* other along the flow, a single cell by one evaluation of its balance, a *)
(* loop by Gauss-Seidel sweeps that start from zero.  The object keeps its *)
(* local source array and its start marks between solves, as the code      *)
(* does, and answers a sequence of global, local and refused solves.       *)
(*                                                                         *)
(* Arithmetic is exact, so TLC checks the design: for every admissible     *)
(* order of components and of cells within one (AnyOrder), in every        *)
(* history of solves,                                                      *)
(*   - a result is the determinant solution of FlowModel for exactly the   *)
(*     start set asked for, whatever was solved or refused before,         *)
(*   - sweeps rise monotonically and never pass that solution, so stopping *)
(*     a loop early can only report too small values,                      *)
(*   - a sweep that changes nothing has reached it,                        *)
(*   - as long as a sweep still reaches a new cell of the loop it must not *)
(*     be the last one; after a sweep that reaches none, and after as many *)
(*     sweeps as the loop has cells, the region is complete.               *)
(* The last point is the rule that small changes alone do not end the      *)
(* iteration (see C06 and known-findings.txt).                             *)
(***************************************************************************)
EXTENDS FlowOut, Prng, TLC, Json

CONSTANTS First, Last, Stride,   \* networks of family Nt to visit
          Solves,                \* length of histories
          Sweeps,                \* most sweeps per loop that are followed
          AnyOrder,              \* all orders of components and cells
          Emit,                  \* print finished histories with their results
          Seed

VARIABLES idx, net, ctx, pc, kind, src, ref, T, X, todo, comp, pos, sweep, quiet, newcell,
          lsrc, start, made, hist

vars == <<idx, net, ctx, pc, kind, src, ref, T, X, todo, comp, pos, sweep, quiet, newcell, lsrc, start, made, hist>>

(***************************************************************************)
(* Networks of three cells, one with four: fluxes and wells from the index.*)
(***************************************************************************)
Pick(r, s) == s[1 + (r % Len(s))]
Nt(i) ==
    LET r == Rnd(Seed, i, 60)
        n == Pick(r[1], <<2, 3, 3, 3, 4>>)
        m == n + (r[2] % 3)
        conn(k) == LET a == r[5 + 2*k] % n  b == r[6 + 2*k] % n
                   IN  IF k <= n /\ r[3] % 2 = 0 THEN <<k - 1, k % n>>      \* a ring
                       ELSE IF a = b THEN <<a, (b + 1) % n>> ELSE <<a, b>>
        w == 1 + (r[4] % 3)
        cell(k) == (r[30] + k) % n
    IN  [n |-> n, conns |-> [k \in 1..m |-> conn(k)],
         flux |-> [k \in 1..m |-> << Pick(r[20 + k], <<1, 1, 2, 1, 3>>) >>],
         wells |-> [k \in 1..(IF w < n THEN w ELSE n) |-> << k, cell(k), Pick(r[40 + k], <<1, 1, 2>>) >>],
         pv |-> [c \in 1..n |-> Pick(r[50 + c], <<1, 2, 0, 1, 3>>)],
         maxT |-> Pick(r[59], <<64, 64, 1, 64>>)]

Zero == [c \in Cells(net) |-> RZero]

\* Sets of cells on a common loop (single cells included).
Comps == {{b \in Cells(net) : a = b \/ (/\ b \in Closure(ctx.F, net.n, {a})
                                        /\ a \in Closure(ctx.F, net.n, {b}))} : a \in Cells(net)}

Orders(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}
First1(S) == CHOOSE p \in Orders(S) : \A i, j \in 1..Cardinality(S) : i < j => p[i] < p[j]
SomeOrders(S) == IF AnyOrder THEN Orders(S) ELSE {First1(S)}

Sources == {c \in Cells(net) : ctx.src[c] > 0}

Init ==
    /\ idx \in {i \in First..Last : (i - First) % Stride = 0}
    /\ net = Nt(idx)
    /\ InRange(net)
    /\ ctx = Context(net, TRUE)
    /\ ctx.D1 <= 40 /\ ctx.D2 <= 40
    /\ pc = "idle" /\ kind = 0 /\ src = [c \in Cells(net) |-> 0] /\ ref = <<>>
    /\ T = [c \in Cells(net) |-> RZero] /\ X = [c \in Cells(net) |-> RZero]
    /\ todo = {} /\ comp = <<>> /\ pos = 0 /\ sweep = 0 /\ quiet = FALSE /\ newcell = FALSE
    /\ lsrc = [c \in Cells(net) |-> 0] /\ start = {} /\ made = 0 /\ hist = <<>>

\* Emission of finished histories: network, how often loops occur, the solves.
Print1(h) == (Emit /\ Len(h) = Solves) =>
    PrintT("@" \o ToJson(<< idx, net.n, net.conns, net.flux, net.wells, net.pv, net.maxT,
                            IF OnLoop(net, ctx.F) = {} THEN 0 ELSE 1, h >>))

\* prepareForSolve, start marks, ordering of what the start cells reach.
Begin(k, s, cells, reach, arr) ==
    /\ pc = "idle" /\ made < Solves
    /\ made' = made + 1
    /\ pc' = "run"
    /\ src' = s /\ kind' = k
    /\ ref' = SolveFor(net, ctx, s)
    /\ T' = Zero /\ X' = Zero
    /\ start' = cells
    /\ lsrc' = arr
    /\ todo' = {K \in Comps : K \subseteq reach}
    /\ comp' = <<>> /\ pos' = 0 /\ sweep' = 0 /\ quiet' = FALSE /\ newcell' = FALSE
    /\ UNCHANGED <<idx, net, ctx, hist>>

Global == Begin(1, ctx.src, Sources, Cells(net), ctx.src)

\* A local solve for some of the sources, each with any part of its rate.
Local ==
    \E S \in (SUBSET Sources) \ {{}} :
    \E p \in {1, 2} :
        LET part == [c \in Cells(net) |-> IF c \in S /\ ctx.src[c] >= p THEN ctx.src[c] - (p - 1) ELSE 0]
            cells == {c \in S : part[c] > 0}
            F == ctx.F
        IN  /\ cells # {}
            /\ p = 1 \/ part # [c \in Cells(net) |-> IF c \in S THEN ctx.src[c] ELSE 0]
            /\ Begin(2, part, cells, Closure(F, net.n, cells),
                     [c \in Cells(net) |-> IF c \in cells THEN part[c] ELSE lsrc[c]])

\* A start set with a negative rate: noticed on the way, the array keeps what was written.
Refused ==
    /\ pc = "idle" /\ made < Solves /\ Cardinality(Sources) > 1
    /\ \E c \in Sources : \E v \in {1, 5} :
         /\ start' = Sources
         /\ lsrc' = [x \in Cells(net) |-> IF x \in Sources /\ x < c THEN v ELSE lsrc[x]]
         /\ hist' = Append(hist, <<3, [k \in 1..net.n |-> IF k - 1 \notin Sources THEN 0 ELSE IF k - 1 = c THEN -1 ELSE v], <<>> >>)
         /\ Print1(hist')
    /\ made' = made + 1
    /\ T' = Zero /\ X' = Zero
    /\ UNCHANGED <<idx, net, ctx, pc, kind, src, ref, todo, comp, pos, sweep, quiet, newcell>>

\* Along the flow: everything upstream (of what is to be solved) is done.
Choose ==
    /\ pc = "run" /\ comp = <<>> /\ todo # {}
    /\ \E K \in todo :
         /\ \A b \in K : \A a \in Cells(net) : ctx.F[a][b] > 0 => (a \in K \/ \A J \in todo : a \notin J)
         /\ AnyOrder \/ \A J \in todo : (\A b \in J : \A a \in Cells(net) : ctx.F[a][b] > 0 => (a \in J \/ \A H \in todo : a \notin H))
                                          => (CHOOSE x \in K : \A y \in K : x <= y) <= (CHOOSE x \in J : \A y \in J : x <= y)
         /\ comp' \in SomeOrders(K)
    /\ pos' = 1 /\ sweep' = 1 /\ quiet' = TRUE /\ newcell' = FALSE
    /\ UNCHANGED <<idx, net, ctx, pc, kind, src, ref, T, X, todo, lsrc, start, made, hist>>

Sum(f, c) == LET RECURSIVE s(_)
                 s(k) == IF k < 0 THEN RZero ELSE RAdd(s(k - 1), RMul(f[k], RInt(ctx.F[k][c])))
             IN  s(net.n - 1)

NewT(c) == IF ctx.tot[c] = 0 THEN RZero
           ELSE RMul(RAdd(Sum(T, c), RInt(IF c \in start THEN lsrc[c] ELSE 0)), Norm(1, ctx.tot[c]))
NewX(c) == LET t == NewT(c)
           IN  IF t = RZero THEN RZero
               ELSE IF c \in ctx.slow THEN RMul(RInt(net.maxT), t)
               ELSE RMul(RAdd(RMul(RInt(net.pv[c + 1]), t), Sum(X, c)), Norm(1, ctx.tot[c]))

Small(r) == r[2] <= 1000 /\ r[1] <= 30000
Follow == sweep < Sweeps /\ \A c \in Cells(net) : Small(T[c]) /\ Small(X[c])

\* One cell of the component.
Visit ==
    /\ pc = "run" /\ comp # <<>> /\ pos <= Len(comp)
    /\ LET c == comp[pos]
       IN  /\ T' = [T EXCEPT ![c] = NewT(c)]
           /\ X' = [X EXCEPT ![c] = NewX(c)]
           /\ quiet' = (quiet /\ NewT(c) = T[c] /\ NewX(c) = X[c])
           /\ newcell' = (newcell \/ (T[c] = RZero /\ NewT(c) # RZero))
    /\ pos' = pos + 1
    /\ UNCHANGED <<idx, net, ctx, pc, kind, src, ref, todo, comp, sweep, lsrc, start, made, hist>>

\* End of a sweep: a single cell is done, a loop when nothing changes.
\* Loops that are followed no further are cut off ("cut").
EndSweep ==
    /\ pc = "run" /\ comp # <<>> /\ pos > Len(comp)
    /\ IF Len(comp) = 1 \/ quiet
       THEN /\ todo' = todo \ {{comp[k] : k \in 1..Len(comp)}}
            /\ comp' = <<>> /\ pos' = 0 /\ sweep' = 0 /\ quiet' = FALSE /\ newcell' = FALSE
            /\ UNCHANGED pc
       ELSE IF Follow
       THEN /\ pos' = 1 /\ sweep' = sweep + 1 /\ quiet' = TRUE /\ newcell' = FALSE
            /\ UNCHANGED <<todo, comp, pc>>
       ELSE /\ pc' = "cut" /\ UNCHANGED <<todo, comp, pos, sweep, quiet, newcell>>
    /\ UNCHANGED <<idx, net, ctx, kind, src, ref, T, X, lsrc, start, made, hist>>

\* A loop that was cut off is replaced by its limit, and the solve goes on.
Limit ==
    /\ pc = "cut"
    /\ pc' = "run"
    /\ LET K == {comp[k] : k \in 1..Len(comp)}
       IN  /\ T' = [c \in Cells(net) |-> IF c \in K THEN Norm(ref.T[c], ctx.D1) ELSE T[c]]
           /\ X' = [c \in Cells(net) |-> IF c \in K THEN Norm(ref.un[c], ctx.D1 * ctx.D2) ELSE X[c]]
           /\ todo' = todo \ {K}
    /\ comp' = <<>> /\ pos' = 0 /\ sweep' = 0 /\ quiet' = FALSE /\ newcell' = FALSE
    /\ UNCHANGED <<idx, net, ctx, kind, src, ref, lsrc, start, made, hist>>

\* The result is read out; the local sources of this solve are wiped.
Finish ==
    /\ pc = "run" /\ todo = {} /\ comp = <<>>
    /\ pc' = "idle"
    /\ lsrc' = [c \in Cells(net) |-> IF kind = 1 \/ src[c] > 0 THEN 0 ELSE lsrc[c]]
    /\ hist' = Append(hist, << kind, [k \in 1..net.n |-> src[k - 1]],
                               IF kind = 1 THEN [k \in 1..net.n |-> Reported(net, ref.tof[k - 1])]
                               ELSE SolOut(net, ctx, ref) >>)
    /\ Print1(hist')
    /\ UNCHANGED <<idx, net, ctx, kind, src, ref, T, X, todo, comp, pos, sweep, quiet, newcell, start, made>>

Next == Global \/ Local \/ Refused \/ Choose \/ Visit \/ EndSweep \/ Limit \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Choose \/ Visit \/ EndSweep \/ Limit \/ Finish)

(***************************************************************************)
(* What is checked.                                                        *)
(***************************************************************************)
Now == IF comp = <<>> THEN {} ELSE {comp[k] : k \in 1..Len(comp)}
ExT(c) == Norm(ref.T[c], ctx.D1)
ExX(c) == Norm(ref.un[c], ctx.D1 * ctx.D2)
Solved == {c \in Cells(net) : c \notin Now /\ \A K \in todo : c \notin K}

\* Everything already solved is the exact solution for the start set asked for.
Exact == pc \in {"run", "cut"} => \A c \in Solved : T[c] = ExT(c) /\ X[c] = ExX(c)

\* Sweeps approach from below.
Below == pc \in {"run", "cut"} => \A c \in Cells(net) : RLe(T[c], ExT(c)) /\ RLe(X[c], ExX(c))

\* ... and rise.
Rising == [][(pc = "run" /\ comp # <<>> /\ pc' # "idle") => \A c \in Cells(net) : RLe(T[c], T'[c]) /\ RLe(X[c], X'[c])]_vars

\* Regions of loops: complete after a sweep that reaches nothing new, and
\* after as many sweeps as there are cells.
AtEnd == pc = "run" /\ comp # <<>> /\ pos > Len(comp)
RegionSoon == (AtEnd /\ (~newcell \/ sweep >= Len(comp))) =>
                  \A c \in Now : (T[c] = RZero) <=> (ref.T[c] = 0)

\* A loop whose first sweep reaches not all its cells exists (the rule is needed):
\* checked as the *violation* of this by the engine.
FirstSweepSuffices == (AtEnd /\ sweep = 1) => \A c \in Now : (T[c] = RZero) <=> (ref.T[c] = 0)

\* Leftovers of a refused solve sit only where the next solve overwrites or ignores them.
NoLeak == pc = "run" => \A c \in start : lsrc[c] = src[c]

Ends == (pc # "idle") ~> (pc = "idle")
=============================================================================
