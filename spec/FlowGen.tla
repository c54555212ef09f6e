------------------------------ MODULE FlowGen ------------------------------
(***************************************************************************)
(* Networks, their exact diagnostics, and the theorems about them.         *)
(*                                                                         *)
(* Each behaviour has two states: a network is chosen (Init), then solved  *)
(* (Solve).  TLC checks the invariants (what users rely on, stated about   *)
(* the exact solution) for every network and prints network and solution   *)
(* as one line, which the conformance harness replays into the real code.  *)
(***************************************************************************)
EXTENDS FlowOut, Prng, TLC, Json

CONSTANTS Family,   \* which networks: see MkNet
          First, Last, Stride,  \* indices of the family to visit
          Seed,     \* for the pseudo random families
          Emit      \* print the cases

VARIABLES idx, net, sol

vars == <<idx, net, sol>>

Pick(r, s) == s[1 + (r % Len(s))]

(***************************************************************************)
(* Family "exh": three cells, four connections (one parallel and reversed),*)
(* every flux in -1..2 and every combination of wells per cell; ID, pore   *)
(* volume and bound patterns rotate with the index.                        *)
(***************************************************************************)
WellOptions == << <<>>, <<1>>, <<2>>, <<-1>>, <<1, -1>> >>
PvOptions   == << <<1, 2, 3>>, <<1, 1, 1>>, <<0, 3, 1>>, <<2, 0, 5>> >>

ExhNet(i) ==
    LET fl(k) == ((i \div (4 ^ k)) % 4) - 1           \* 4 digits base 4
        j == i \div 256
        w(c) == WellOptions[1 + ((j \div (5 ^ c)) % 5)]
        pat == i % 7
        idOf(c, k) == CASE pat \in {0, 1} -> 1 + c                 \* one ID per cell
                        [] pat \in {2, 3} -> k                     \* IDs span cells
                        [] pat = 4        -> 1 + ((c + k) % 2)
                        [] pat = 5        -> IF c = 1 THEN 2 ELSE 1
                        [] OTHER          -> 1 + 3 * (k - 1) + c
        raw == [c \in 0..2 |-> [k \in 1..Len(w(c)) |-> <<idOf(c, k), c, w(c)[k]>>]]
        \* two entries of one ID in one cell are not allowed
        fix(s) == IF Len(s) = 2 /\ s[1][1] = s[2][1]
                  THEN << s[1], <<s[2][1] + 3, s[2][2], s[2][3]>> >> ELSE s
    IN  [n |-> 3,
         conns |-> << <<0, 1>>, <<1, 2>>, <<0, 2>>, <<1, 0>> >>,
         flux |-> [k \in 1..4 |-> << fl(k - 1) >>],
         wells |-> fix(raw[0]) \o fix(raw[1]) \o fix(raw[2]),
         pv |-> PvOptions[1 + ((i \div 11) % 4)],
         maxT |-> IF i % 5 = 0 THEN 2 ELSE IF i % 5 = 1 THEN 4 ELSE 1024]

(***************************************************************************)
(* Family "rnd": 1 to 5 cells, anything goes.                              *)
(***************************************************************************)
RndWells(r, n, off, nid) ==
    \* up to 6 candidate entries, distinct (id, cell) pairs kept
    LET cand == [k \in 1..6 |-> << 1 + (r[off + 3*k] % nid), r[off + 3*k + 1] % n,
                                   Pick(r[off + 3*k + 2], <<1, -1, 2, -2, 1, -1>>) >>]
        m == 1 + (r[off] % 6)
        keep(k) == \A l \in 1..(k-1) : ~(cand[l][1] = cand[k][1] /\ cand[l][2] = cand[k][2])
    IN  SelectSeq([k \in 1..m |-> <<k, cand[k]>>], LAMBDA e : keep(e[1]))

RndNet(i) ==
    LET r == Rnd(Seed, i, 90)
        n == Pick(r[1], <<1, 2, 3, 4, 4, 5>>)
        m == IF n = 1 THEN r[2] % 2 ELSE IF n = 5 THEN 4 + (r[2] % 4) ELSE r[2] % 8
        ph == Pick(r[3], <<1, 1, 2, 3, 0>>)
        w == RndWells(r, n, 50, 1 + (r[4] % 4))
        self == r[5] % 4 = 0       \* allow connections of a cell with itself
        conn(k) == LET a == r[5 + 2*k] % n  b == r[6 + 2*k] % n
                   IN  IF a = b /\ ~self /\ n > 1 THEN <<a, (b + 1) % n>> ELSE <<a, b>>
    IN  [n |-> n,
         conns |-> [k \in 1..m |-> conn(k)],
         flux |-> [k \in 1..m |-> [p \in 1..ph |->
                     Pick(r[22 + ((3*k + p) % 27)], IF ph = 1 THEN <<1, -1, 2, 0, 1, -1>> ELSE <<1, -1, 1, 0>>)]],
         wells |-> [k \in 1..Len(w) |-> w[k][2]],
         pv |-> [c \in 1..n |-> Pick(r[70 + c], <<1, 2, 3, 0, 1, 5>>)],
         maxT |-> Pick(r[80], <<1024, 1024, 1024, 2, 3, 5>>)]

(***************************************************************************)
(* Family "bal": flow balanced in every cell; wells make up the divergence *)
(* of the fluxes, and may in addition inject and produce in one cell.      *)
(***************************************************************************)
BalNet(i) ==
    LET r == Rnd(Seed, i + 20000, 90)
        n == Pick(r[1], <<2, 3, 3, 4, 4, 5>>)
        m == IF n = 5 THEN 4 + (r[2] % 4) ELSE 1 + (r[2] % 7)
        conn(k) == LET a == r[5 + 2*k] % n  b == r[6 + 2*k] % n
                   IN  IF a = b THEN <<a, (b + 1) % n>> ELSE <<a, b>>
        base == [n |-> n, conns |-> [k \in 1..m |-> conn(k)],
                 flux |-> [k \in 1..m |-> << Pick(r[22 + k], <<1, -1, 2, 1, 3, -2>>) >>],
                 wells |-> <<>>,
                 pv |-> [c \in 1..n |-> Pick(r[70 + c], <<1, 2, 3, 0, 4, 5>>)],
                 maxT |-> 1024]
        F == FlowMatrix(base, TRUE)
        div(c) == SumOver([b \in 0..(n-1) |-> F[c][b] - F[b][c]], 0..(n-1))
        style == r[3] % 4
        \* style 0: one ID per cell; 1: one injector, one producer ID;
        \* 2: one mixed ID plus others; 3: two IDs share every injecting cell
        ent(c) == LET d == div(c)  x == IF r[40 + c] % 4 = 0 THEN 1 ELSE 0
                      inj == (IF d > 0 THEN d ELSE 0) + x
                      prd == (IF d < 0 THEN -d ELSE 0) + x
                      iid == CASE style = 0 -> 10 + c [] style = 1 -> 1 [] style = 2 -> 1 + (c % 2) [] OTHER -> 1
                      pid == CASE style = 0 -> 20 + c [] style = 1 -> 2 [] style = 2 -> IF x = 1 THEN 3 ELSE 1 + (c % 2) [] OTHER -> 4
                  IN  (IF inj = 0 THEN <<>>
                       ELSE IF style = 3 /\ inj > 1 THEN << <<1, c, inj - 1>>, <<2, c, 1>> >>
                       ELSE << <<iid, c, inj>> >>)
                      \o (IF prd = 0 THEN <<>> ELSE << <<pid, c, -prd>> >>)
        RECURSIVE all(_)
        all(c) == IF c < 0 THEN <<>> ELSE all(c - 1) \o ent(c)
    IN  [base EXCEPT !.wells = all(n - 1)]

(***************************************************************************)
(* Family "cyc": recirculation, weak to strong, nested and chained loops.  *)
(***************************************************************************)
CycNet(i) ==
    LET r == Rnd(Seed, i + 40000, 90)
        n == Pick(r[1], <<2, 3, 3, 4, 4>>)
        q == Pick(r[2], IF n = 2 THEN <<1, 3, 40, 150>> ELSE IF n = 3 THEN <<1, 2, 10, 30>> ELSE <<1, 2, 3, 5>>)
        \* a ring through a rotated numbering, flux q, plus a few extra edges
        rot == r[3] % n
        flip == r[4] % 2 = 0
        pos(k) == IF flip THEN (n - 1 - k + rot) % n ELSE (k + rot) % n
        ringlen == IF n > 2 /\ r[5] % 3 = 0 THEN n - 1 ELSE n
        ring == [k \in 1..ringlen |-> << pos(k - 1), pos(k % ringlen) >>]
        m == r[6] % 4
        extra == [k \in 1..m |-> LET a == r[10 + 2*k] % n  b == r[11 + 2*k] % n
                                 IN  IF a = b THEN <<a, (b + 1) % n>> ELSE <<a, b>>]
        w == RndWells(r, n, 50, 3)
    IN  [n |-> n,
         conns |-> ring \o extra,
         flux |-> [k \in 1..(ringlen + m) |->
                     << IF k <= ringlen THEN q ELSE Pick(r[22 + k], <<1, 2, -1, 1>>) >>],
         wells |-> [k \in 1..Len(w) |-> w[k][2]],
         pv |-> [c \in 1..n |-> Pick(r[70 + c], <<1, 2, 3, 0>>)],
         maxT |-> IF q <= 3 /\ r[80] % 5 = 0 THEN 3 ELSE 1024]

MkNet(i) == CASE Family = "exh" -> ExhNet(i)
              [] Family = "rnd" -> RndNet(i)
              [] Family = "bal" -> BalNet(i)
              [] Family = "cyc" -> CycNet(i)

Init == /\ idx \in {i \in First..Last : (i - First) % Stride = 0}
        /\ net = MkNet(idx)
        /\ sol = NoSol

Solve ==
    /\ ~sol.ok
    /\ InRange(net)
    /\ sol' = Solution(net)
    /\ sol'.ok
    /\ (Emit => PrintT("@" \o ToJson(CaseOut(idx, net, sol'))))
    /\ UNCHANGED <<idx, net>>

Next == Solve
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Theorems about the exact solution, checked on every solved network.     *)
(***************************************************************************)
Sgn(b) == IF b THEN 1 ELSE -1

\* C01: the region of a tracer is what its source reaches, concentrations positive.
SupportOK == sol.ok =>
    /\ \A i \in DOMAIN sol.fi : {c \in Cells(net) : sol.fi[i].T[c] > 0}
          = Region(net, sol.fc.F, SourceOf(net, TRUE, i))
    /\ \A p \in DOMAIN sol.rp : {c \in Cells(net) : sol.rp[p].T[c] > 0}
          = Region(net, sol.rc.F, SourceOf(net, FALSE, p))

\* C02: the determinant solution solves the balance.
BalanceOf(ctx, s, src) ==
    \A c \in ctx.R :
        s.T[c] * ctx.tot[c] = ctx.D1 * src[c]
            + SumOver([a \in Cells(net) |-> s.T[a] * ctx.F[a][c]], Cells(net))
BalanceOK == sol.ok =>
    /\ \A i \in DOMAIN sol.fi : BalanceOf(sol.fc, sol.fi[i], SourceOf(net, TRUE, i))
    /\ \A p \in DOMAIN sol.rp : BalanceOf(sol.rc, sol.rp[p], SourceOf(net, FALSE, p))
    /\ sol.fc.D1 > 0 /\ sol.rc.D1 > 0 /\ sol.fc.D2 > 0 /\ sol.rc.D2 > 0

\* C03: concentrations are at most one and add up to one exactly in fed cells.
UnityOf(ctx, g, per) ==
    /\ \A i \in DOMAIN per : \A c \in Cells(net) : per[i].T[c] \in 0..ctx.D1
    /\ \A c \in Cells(net) : SumOver([i \in DOMAIN per |-> per[i].T[c]], DOMAIN per) = g.T[c]
    /\ \A c \in Cells(net) : g.T[c] <= ctx.D1
    /\ \A c \in Cells(net) : (g.T[c] = ctx.D1) <=> (c \in FullyFed(net, ctx))
UnityOK == sol.ok => UnityOf(sol.fc, sol.fg, sol.fi) /\ UnityOf(sol.rc, sol.rg, sol.rp)

\* C04: weighted per-tracer times add up to the global one.
SuperOf(g, per) ==
    \A c \in Cells(net) : SumOver([i \in DOMAIN per |-> per[i].un[c]], DOMAIN per) = g.un[c]
SuperposeOK == sol.ok => SuperOf(sol.fg, sol.fi) /\ SuperOf(sol.rg, sol.rp)

\* C05: reported times are bounded; unreached and slow cells get the bound.
CapOf(ctx, g) ==
    \A c \in Cells(net) :
        LET t == Reported(net, g.tof[c])
        IN  /\ t = CapT \/ (t[1] >= 0 /\ t[1] < net.maxT * t[2])
            /\ (c \notin ctx.R \/ c \in ctx.slow) => t = CapT
CapOK == sol.ok => CapOf(sol.fc, sol.fg) /\ CapOf(sol.rc, sol.rg)

\* C07: production = injection of the reversed network.
MirrorOK == sol.ok =>
    LET m == Negate(net)  mc == Context(m, TRUE)
    IN  /\ mc = sol.rc
        /\ SolveFor(m, mc, mc.src) = sol.rg

\* C18: pair volumes are within the pore volume, and exhaust it if all is fed and drained.
PairVolOK == sol.ok =>
    LET P == (DOMAIN sol.fi) \X (DOMAIN sol.rp)
        total == SumOver([q \in P |-> SumOver([c \in Cells(net) |->
                     net.pv[c+1] * sol.fi[q[1]].T[c] * sol.rp[q[2]].T[c]], Cells(net))], P)
        pvsum == SumSeq(net.pv)
    IN  /\ total <= pvsum * sol.fc.D1 * sol.rc.D1
        /\ (FullyFed(net, sol.fc) = Cells(net) /\ FullyFed(net, sol.rc) = Cells(net))
              => total = pvsum * sol.fc.D1 * sol.rc.D1

\* C19: reciprocity and complete allocation under balance.
PairFluxOK == (sol.ok /\ Balanced(net)) =>
    /\ \A i \in DOMAIN sol.fi : \A p \in DOMAIN sol.rp :
          PairFluxInj(net, i, sol.rc, sol.rp[p])
            = RNeg(PairFluxProd(net, p, sol.fc, sol.fi[i]))
    /\ \A i \in DOMAIN sol.fi :
          SumOver([p \in DOMAIN sol.rp |-> SumOver([c \in Cells(net) |->
              RateOf(net, TRUE, i, c) * sol.rp[p].T[c]], Cells(net))], DOMAIN sol.rp)
          = sol.rc.D1 * SumOver(SourceOf(net, TRUE, i), Cells(net))
    /\ \A p \in DOMAIN sol.rp :
          SumOver([i \in DOMAIN sol.fi |-> SumOver([c \in Cells(net) |->
              RateOf(net, FALSE, p, c) * sol.fi[i].T[c]], Cells(net))], DOMAIN sol.fi)
          = sol.fc.D1 * SumOver(SourceOf(net, FALSE, p), Cells(net))
(***************************************************************************)
(* Covers.  The 3-fold cover of a network has three copies of each cell;   *)
(* connection k joins copy j of its first cell to copy j + shift of its    *)
(* second (a connection of a cell with itself does not shift).  Wells and  *)
(* pore volumes are those of the cell below.  Every balance equation of    *)
(* the cover is the equation of the cell below, so the solution of the     *)
(* cover is the solution below, copied.  The harness uses this to check    *)
(* networks of any size against the exact solutions of small ones.         *)
(***************************************************************************)
CoverShift(k) == IF net.conns[k][1] = net.conns[k][2] THEN 0 ELSE ((idx \div 7) + k * k) % 3
Cover ==
    LET n == net.n  m == Len(net.conns)  w == Len(net.wells)
        at(c, j) == c + n * (j % 3)
    IN  [n |-> 3 * n,
         conns |-> [e \in 1..(3 * m) |->
                      LET k == 1 + ((e - 1) % m)  j == (e - 1) \div m
                      IN  << at(net.conns[k][1], j), at(net.conns[k][2], j + CoverShift(k)) >>],
         flux |-> [e \in 1..(3 * m) |-> net.flux[1 + ((e - 1) % m)]],
         wells |-> [e \in 1..(3 * w) |->
                      LET x == net.wells[1 + ((e - 1) % w)]
                      IN  << x[1], at(x[2], (e - 1) \div w), x[3] >>],
         pv |-> [e \in 1..(3 * n) |-> net.pv[1 + ((e - 1) % n)]],
         maxT |-> net.maxT]

CoverOf(L, fwd, ctx, per) ==
    LET F == FlowMatrix(L, fwd)
        base(x) == x % net.n
        src == TotalSource(L, fwd)
        tot == [x \in Cells(L) |-> src[x] + SumOver([a \in Cells(L) |-> F[a][x]], Cells(L))]
    IN  /\ \A x \in Cells(L) : src[x] = ctx.src[base(x)] /\ tot[x] = ctx.tot[base(x)]
        \* the equations of copy x are those of the cell below
        /\ \A x \in Cells(L) : \A a \in Cells(net) :
              SumOver([j \in 0..2 |-> F[a + net.n * j][x]], 0..2) = ctx.F[a][base(x)]
        /\ Region(L, F, src) = {x \in Cells(L) : base(x) \in ctx.R}
        /\ \A i \in DOMAIN per :
              LET s == SourceOf(L, fwd, i)
              IN  /\ Region(L, F, s) = {x \in Cells(L) : per[i].T[base(x)] > 0}
                  /\ \A x \in Cells(L) : base(x) \in ctx.R =>
                        per[i].T[base(x)] * tot[x] = ctx.D1 * s[x]
                          + SumOver([a \in Cells(L) |-> per[i].T[base(a)] * F[a][x]], Cells(L))
CoverOK == (sol.ok /\ idx % 7 = 0) =>
    LET L == Cover
    IN  /\ CoverOf(L, TRUE, sol.fc, sol.fi)
        /\ CoverOf(L, FALSE, sol.rc, sol.rp)
        /\ Balanced(net) <=> Balanced(L)
=============================================================================
