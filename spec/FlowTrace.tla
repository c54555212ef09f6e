----------------------------- MODULE FlowTrace -----------------------------
(***************************************************************************)
(* Judges recorded diagnostics of networks of any size and magnitude.      *)
(*                                                                         *)
(* A record holds a problem and everything the library reported for it,    *)
(* all floating-point numbers exactly (module Dyadic).  The balance        *)
(* equations, regions, sums and bounds of FlowModel are evaluated in exact *)
(* arithmetic on what was reported, so no second implementation of a       *)
(* solver is involved: only residuals.                                     *)
(*                                                                         *)
(* Tolerances: B^-3 = 2e-12 relative, where no flow loops are present      *)
(* (rounding only); with loops the solver iterates until changes are below *)
(* 1e-9 (concentration) and 6e-3 s, so residuals are judged with B^-2 =    *)
(* 1.5e-8, and values with B^-1.  Where all travel times in a loop are     *)
(* long, they are converged only when the concentrations, however small,   *)
(* are converged relatively as well; such records (dil) are judged         *)
(* relatively, with B^-1.                                                  *)
(***************************************************************************)
EXTENDS Dyadic, FiniteSets, Json

CONSTANTS TraceFile, Prop
Trace == ndJsonDeserialize(TraceFile)

VARIABLES i, verdict
vars == <<i, verdict>>

MAXT == DMul(DInt(73000), DInt(86400))      \* 200 years of 365 days in seconds

(***************************************************************************)
(* A problem p: n, conns, flux, wells, pv, inc (for each cell the indices  *)
(* of its connections, which the specification verifies).                  *)
(***************************************************************************)
CellsOf(p) == 0 .. (p.n - 1)

IncOK(p) ==
    /\ Len(p.inc) = p.n
    /\ \A c \in 1..p.n :
         /\ \A k \in 1..Len(p.inc[c]) : p.conns[p.inc[c][k]][1] = c - 1 \/ p.conns[p.inc[c][k]][2] = c - 1
         /\ \A k \in 1..(Len(p.inc[c]) - 1) : p.inc[c][k] < p.inc[c][k + 1]
    /\ LET RECURSIVE cnt(_)
           cnt(c) == IF c = 0 THEN 0 ELSE Len(p.inc[c]) + cnt(c - 1)
       IN  cnt(p.n) = 2 * Len(p.conns) - Cardinality({k \in 1..Len(p.conns) : p.conns[k][1] = p.conns[k][2]})

NetOf(p) == [k \in 1..Len(p.conns) |-> DTotal(p.flux[k])]

\* cell a connection flows out of / into; -1 if it carries nothing
OutEnd(p, net, k) == IF p.conns[k][1] = p.conns[k][2] THEN -1
                     ELSE IF IsPos(net[k]) THEN p.conns[k][1] ELSE IF IsNeg(net[k]) THEN p.conns[k][2] ELSE -1
InEnd(p, net, k)  == IF p.conns[k][1] = p.conns[k][2] THEN -1
                     ELSE IF IsPos(net[k]) THEN p.conns[k][2] ELSE IF IsNeg(net[k]) THEN p.conns[k][1] ELSE -1

\* Everything about one direction: what enters each cell and where it goes.
Dir(p, fwd) ==
    LET net == TLCEval(NetOf(p))
        from(k) == IF fwd THEN OutEnd(p, net, k) ELSE InEnd(p, net, k)
        to(k)   == IF fwd THEN InEnd(p, net, k) ELSE OutEnd(p, net, k)
        inn == TLCEval([c \in 1..p.n |->
                 LET s == SelectSeq(p.inc[c], LAMBDA k : to(k) = c - 1)
                 IN  [j \in 1..Len(s) |-> << from(s[j]), DAbs(net[s[j]]) >>]])
        succ == TLCEval([c \in 1..p.n |->
                  {to(p.inc[c][j]) : j \in {j \in 1..Len(p.inc[c]) : from(p.inc[c][j]) = c - 1}}])
        mine(w) == IF fwd THEN IsPos(w[3]) ELSE IsNeg(w[3])
        ent == SelectSeq(p.wells, mine)
        src == TLCEval([c \in 1..p.n |->
                 LET s == SelectSeq(ent, LAMBDA w : w[2] = c - 1)
                 IN  DTotal([j \in 1..Len(s) |-> DAbs(s[j][3])])])
        tot == TLCEval([c \in 1..p.n |->
                 DAdd(src[c], DTotal([j \in 1..Len(inn[c]) |-> inn[c][j][2]]))])
    IN  [inn |-> inn, succ |-> succ, ent |-> ent, src |-> src, tot |-> tot]

RECURSIVE Grow(_, _, _)
Grow(succ, seen, front) ==
    IF front = {} THEN seen
    ELSE LET next == (UNION {succ[c + 1] : c \in front}) \ seen
         IN  Grow(succ, seen \cup next, next)
Reach(succ, S) == Grow(succ, S, S)

EntOf(d, id) == SelectSeq(d.ent, LAMBDA w : w[1] = id)
CellsOfID(d, id) == {EntOf(d, id)[k][2] : k \in 1..Len(EntOf(d, id))}
Sources(p, d) == {c \in CellsOf(p) : IsPos(d.src[c + 1])}

RateIn(d, id, c) ==
    LET s == SelectSeq(d.ent, LAMBDA w : w[1] = id /\ w[2] = c)
    IN  IF s = <<>> THEN DZero ELSE DAbs(s[1][3])

\* Reported sparse field (cells ascending) spread over all cells; zero elsewhere.
Spread(p, cells, vals) ==
    LET at == [k \in 1..Len(cells) |-> cells[k]]
        S == {cells[k] : k \in 1..Len(cells)}
        \* cells are listed in ascending order: position by counting is slow, so search by halves
        RECURSIVE pos(_, _, _)
        pos(c, a, b) == IF a >= b THEN a
                        ELSE LET m == (a + b) \div 2 IN IF at[m] < c THEN pos(c, m + 1, b) ELSE pos(c, a, m)
    IN  TLCEval([c \in 1..p.n |-> IF (c - 1) \in S THEN vals[pos(c - 1, 1, Len(cells))] ELSE DZero])

Ascending(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]

(***************************************************************************)
(* C01                                                                     *)
(***************************************************************************)
RegionOK(p, d, o) ==
    /\ {o.starts[k] : k \in 1..Len(o.starts)} = {o.ids[k].name : k \in 1..Len(o.ids)}
    /\ Len(o.starts) = Len(o.ids)
    /\ \A k \in 1..Len(o.ids) :
         LET f == o.ids[k]
             R == TLCEval(Reach(d.succ, CellsOfID(d, f.id)))
         IN  /\ Ascending(f.cells) /\ Ascending(f.tcells)
             /\ {f.cells[j] : j \in 1..Len(f.cells)} = R
             /\ {f.tcells[j] : j \in 1..Len(f.tcells)} = R
             /\ \A j \in 1..Len(f.T) : IsPos(f.T[j])

(***************************************************************************)
(* C02                                                                     *)
(***************************************************************************)
TracerOK(p, d, r, f) ==
    LET T == Spread(p, f.cells, f.T)
        own == CellsOfID(d, f.id)
    IN  /\ Len(f.T) = Len(f.cells)
        /\ \A j \in 1..Len(f.cells) :
             LET c == f.cells[j] + 1
                 lhs == DMul(d.tot[c], T[c])
                 rhs == DAdd(IF f.cells[j] \in own THEN RateIn(d, f.id, f.cells[j]) ELSE DZero,
                             DTotal([m \in 1..Len(d.inn[c]) |-> DMul(d.inn[c][m][2], T[d.inn[c][m][1] + 1])]))
             IN  IF r.dil = 1 THEN Near(lhs, rhs, 1, rhs)
                 ELSE IF r.cyc = 1 THEN Near(lhs, rhs, 2, d.tot[c]) ELSE Near(lhs, rhs, 3, rhs)

(***************************************************************************)
(* C03                                                                     *)
(***************************************************************************)
Fed(p, d) ==
    LET R == TLCEval(Reach(d.succ, Sources(p, d)))
    IN  R \ Reach(d.succ, CellsOf(p) \ R)

SumT(p, o) ==
    LET per == TLCEval([k \in 1..Len(o.ids) |-> Spread(p, o.ids[k].cells, o.ids[k].T)])
    IN  TLCEval([c \in 1..p.n |-> DTotal([k \in 1..Len(o.ids) |-> per[k][c]])])

UnityOK(p, d, cyc, o) ==
    LET sum == SumT(p, o)
        R == TLCEval(Reach(d.succ, Sources(p, d)))
        fed == TLCEval(Fed(p, d))
        tol == IF cyc THEN 1 ELSE 3
    IN  /\ \A k \in 1..Len(o.ids) : \A j \in 1..Len(o.ids[k].T) :
             IsPos(o.ids[k].T[j]) /\ DLe(o.ids[k].T[j], DAdd(DOne, DShift(DOne, -tol)))
        /\ \A c \in CellsOf(p) :
             IF c \in fed THEN Near(sum[c + 1], DOne, tol, DOne)
             ELSE IF c \notin R THEN IsZero(sum[c + 1])
             ELSE \* at least what comes straight from cells without tracer is missing
                  LET s == SelectSeq(d.inn[c + 1], LAMBDA e : e[1] \notin R)
                      miss == DTotal([j \in 1..Len(s) |-> s[j][2]])
                  IN  DLe(DMul(sum[c + 1], d.tot[c + 1]),
                          DAdd(DSub(d.tot[c + 1], miss), DShift(d.tot[c + 1], -tol)))

(***************************************************************************)
(* C04 and C05.  t: reported times, T: concentrations (both spread).       *)
(* A cell at the bound that is not slow has an unknown, longer time.       *)
(***************************************************************************)
Slow(d, pv, c) == DLt(DMul(d.tot[c], MAXT), pv[c])
OnEdge(d, pv, c) == Near(DMul(d.tot[c], MAXT), pv[c], 3, pv[c])

TimeOK(p, d, r, cells, T, t, loose) ==
    LET mx == TLCEval(DMax(DInt(1048576), IF cells = <<>> THEN DZero ELSE
                 LET RECURSIVE big(_, _)
                     big(a, b) == IF a = b THEN t[cells[a] + 1]
                                  ELSE LET m == (a + b) \div 2 IN DMax(big(a, m), big(m + 1, b))
                 IN  big(1, Len(cells))))
        known(c) == (t[c] # MAXT \/ Slow(d, p.pv, c)) /\ ~OnEdge(d, p.pv, c)
    IN  \A j \in 1..Len(cells) :
          LET c == cells[j] + 1
          IN  IF OnEdge(d, p.pv, c) THEN TRUE
              ELSE IF Slow(d, p.pv, c) THEN t[c] = MAXT
              ELSE LET lhs == DMul(DMul(d.tot[c], T[c]), t[c])
                       up  == SelectSeq(d.inn[c], LAMBDA e : IsPos(T[e[1] + 1]))
                       rhs == DAdd(DMul(p.pv[c], T[c]),
                                   DTotal([m \in 1..Len(up) |-> DMul(up[m][2], DMul(T[up[m][1] + 1], t[up[m][1] + 1]))]))
                       all == \A m \in 1..Len(up) : known(up[m][1] + 1)
                       tol == IF r.dil = 1 THEN DShift(rhs, -1)
                              ELSE IF r.cyc = 1 THEN DShift(DMul(DMul(d.tot[c], mx), DInt(loose)), -2)
                                     ELSE DShift(rhs, -3)
                   IN  IF t[c] = MAXT THEN (all => DLe(lhs, DAdd(rhs, tol)))
                       ELSE IF all THEN DLe(DAbs(DSub(lhs, rhs)), tol)
                       ELSE DLe(rhs, DAdd(lhs, tol))

TimesOK(p, d, r, o) ==
    /\ \A k \in 1..Len(o.ids) :
         LET f == o.ids[k]
         IN  /\ Len(f.t) = Len(f.tcells)
             /\ TimeOK(p, d, r, f.cells, Spread(p, f.cells, f.T), Spread(p, f.tcells, f.t), 1)
    /\ LET sum == SumT(p, o)
           R == SelectSeq([c \in 1..p.n |-> c - 1], LAMBDA c : IsPos(sum[c + 1]))
       IN  /\ Len(o.g) = p.n
           /\ TimeOK(p, d, r, R, sum, o.g, 64)

(***************************************************************************)
(* Times the bound has cut determine times further along that it has not.  *)
(* Records with such times carry the uncut times u of all cells (a         *)
(* certificate, from anywhere): they must satisfy the balance, and what is *)
(* reported must be u, cut.                                                *)
(* Without loops a relative residual eps in each balance is a relative     *)
(* error of at most (depth * eps) in u, all terms being positive.  With    *)
(* loops, let L be the (monotone) balance operator, L v = pv T: then       *)
(* |L (u - v)| <= eps pv T = eps L v gives |u - v| <= eps v, provided pv   *)
(* is positive everywhere.                                                 *)
(***************************************************************************)
UncutOK(p, d, cyc, cells, T, t, u) ==
    /\ Len(u) = p.n
    /\ \A j \in 1..Len(cells) :
         LET c == cells[j] + 1
         IN  /\ IF Slow(d, p.pv, c) THEN u[c] = MAXT
                ELSE LET own == DMul(p.pv[c], T[c])
                         lhs == DMul(DMul(d.tot[c], T[c]), u[c])
                         rhs == DAdd(own, DTotal([m \in 1..Len(d.inn[c]) |->
                                   DMul(d.inn[c][m][2], DMul(T[d.inn[c][m][1] + 1], u[d.inn[c][m][1] + 1]))]))
                     IN  IF cyc THEN IsPos(own) /\ Near(lhs, rhs, 2, own) ELSE Near(lhs, rhs, 3, rhs)
             /\ LET e == DMin(u[c], MAXT) IN Near(t[c], e, IF cyc THEN 1 ELSE 3, e)

CutOK(p, d, r, o, u) ==
    (r.cut = 1 /\ \A c \in 1..p.n : ~OnEdge(d, p.pv, c)) =>
      /\ Len(u.ids) = Len(o.ids)
      /\ \A k \in 1..Len(o.ids) :
           LET f == o.ids[k]
           IN  UncutOK(p, d, r.cyc = 1, f.cells, Spread(p, f.cells, f.T), Spread(p, f.tcells, f.t), u.ids[k])
      /\ LET sum == SumT(p, o)
             R == SelectSeq([c \in 1..p.n |-> c - 1], LAMBDA c : IsPos(sum[c + 1]))
         IN  UncutOK(p, d, r.cyc = 1, R, sum, o.g, u.g)

CutBoth(r) == r.cut = 1 => /\ CutOK(r.p, TLCEval(Dir(r.p, TRUE)), r, r.f, r.uf)
                           /\ CutOK(r.p, TLCEval(Dir(r.p, FALSE)), r, r.r, r.ur)

BoundOK(p, d, o) ==
    LET R == TLCEval(Reach(d.succ, Sources(p, d)))
        in(x) == ~IsNeg(x) /\ DLe(x, MAXT)
        slow(c) == Slow(d, p.pv, c) /\ ~OnEdge(d, p.pv, c)
    IN  /\ Len(o.g) = p.n
        /\ \A c \in 1..p.n :
             /\ in(o.g[c])
             /\ ((c - 1) \notin R => o.g[c] = MAXT)
             /\ (slow(c) => o.g[c] = MAXT)
        /\ \A k \in 1..Len(o.ids) : \A j \in 1..Len(o.ids[k].t) :
             /\ in(o.ids[k].t[j])
             /\ (slow(o.ids[k].tcells[j] + 1) => o.ids[k].t[j] = MAXT)

(***************************************************************************)
(* Agreement of two sets of fields; lam/mu: flow and volume factors.       *)
(***************************************************************************)
SameTime(a, b, cyc, lam, mu) ==
    LET x == DMul(a, mu)  y == DMul(b, lam)
    IN  IF lam = mu THEN Near(a, b, IF cyc THEN 1 ELSE 3, DMax(a, DInt(IF cyc THEN 8192 ELSE 0)))
        ELSE a = MAXT \/ b = MAXT \/ Near(x, y, IF cyc THEN 1 ELSE 3, DAdd(x, IF cyc THEN DMul(DInt(8192), lam) ELSE DZero))

\* Times of two descriptions with different units of time are comparable where
\* the bound, which is not scaled, has cut none.
Unbound(f) == \A j \in 1..Len(f.t) : f.t[j] # MAXT

SameField(f, h, perm, cyc, lam, mu) ==
    \* h lists its cells as perm[cell of f]; the record gives h already sorted by f's cells
    /\ Len(f.cells) = Len(h.cells) /\ Len(f.tcells) = Len(h.tcells)
    /\ Len(h.T) = Len(f.T) /\ Len(h.t) = Len(f.t)
    /\ \A j \in 1..Len(f.cells) :
         /\ h.cells[j] = perm[f.cells[j] + 1]
         /\ IF cyc THEN Near(f.T[j], h.T[j], 1, DOne) ELSE Near(f.T[j], h.T[j], 3, f.T[j])
    /\ \A j \in 1..Len(f.tcells) : h.tcells[j] = perm[f.tcells[j] + 1]
    /\ (lam = mu \/ (Unbound(f) /\ Unbound(h))) =>
         \A j \in 1..Len(f.tcells) : SameTime(f.t[j], h.t[j], cyc, lam, mu)

SameAll(o, q, perm, cyc, lam, mu) ==
    /\ Len(o.ids) = Len(q.ids)
    /\ \A k \in 1..Len(o.ids) : o.ids[k].id = q.ids[k].id /\ SameField(o.ids[k], q.ids[k], perm, cyc, lam, mu)
    /\ Len(o.g) = Len(q.g)
    /\ (lam = mu \/ \A k \in 1..Len(o.ids) : Unbound(o.ids[k]) /\ Unbound(q.ids[k])) =>
         \A c \in 1..Len(o.g) : SameTime(o.g[c], q.g[perm[c] + 1], cyc, lam, mu)

Ident(n) == [c \in 1..n |-> c - 1]

\* C08: fields of single IDs obtained alone
AloneOK(r, o, l) ==
    \A m \in 1..Len(l) :
      \E k \in 1..Len(o.ids) :
         o.ids[k].id = l[m].id /\ SameField(o.ids[k], l[m], Ident(r.p.n), r.cyc = 1, DOne, DOne)

(***************************************************************************)
(* C10: another description of the same flow.                              *)
(***************************************************************************)
\* what enters cell c, gathered by upstream cell
Gather(d, c) ==
    LET S == {d.inn[c][j][1] : j \in 1..Len(d.inn[c])}
    IN  {<<a, LET s == SelectSeq(d.inn[c], LAMBDA e : e[1] = a) IN DTotal([j \in 1..Len(s) |-> s[j][2]])>> : a \in S}

Equivalent(p, q, perm, lam, mu) ==
    LET d == TLCEval(Dir(p, TRUE))  e == TLCEval(Dir(q, TRUE))
        wells(x, pm, fac) == {<<x.wells[k][1], pm[x.wells[k][2] + 1], DMul(fac, x.wells[k][3])>> : k \in 1..Len(x.wells)}
    IN  /\ p.n = q.n /\ {perm[c] : c \in 1..p.n} = CellsOf(p)
        /\ \A c \in 1..p.n :
             /\ {<<perm[x[1] + 1], DMul(lam, x[2])>> : x \in Gather(d, c)} = Gather(e, perm[c] + 1)
             /\ DMul(mu, p.pv[c]) = q.pv[perm[c] + 1]
        /\ wells(p, perm, lam) = wells(q, Ident(q.n), DOne)

(***************************************************************************)
(* C18, C19                                                                *)
(***************************************************************************)
BalancedIn(p, f, r) == \A c \in 1..p.n : f.tot[c] = r.tot[c]

FieldOf(o, id) == o.ids[CHOOSE k \in 1..Len(o.ids) : o.ids[k].id = id]

VolumesOK(r, f, v) ==
    LET cyc == r.cyc = 1  p == r.p
        pvs == TLCEval(DTotal(p.pv))
        Ti == TLCEval([k \in 1..Len(r.f.ids) |-> Spread(p, r.f.ids[k].cells, r.f.ids[k].T)])
        To == TLCEval([k \in 1..Len(r.r.ids) |-> Spread(p, r.r.ids[k].cells, r.r.ids[k].T)])
        vol(a, b) == DTotal([j \in 1..Len(r.f.ids[a].cells) |->
                        LET c == r.f.ids[a].cells[j] + 1 IN DMul(p.pv[c], DMul(Ti[a][c], To[b][c]))])
    IN  /\ Len(r.pairs) = Len(r.f.ids) * Len(r.r.ids)
        /\ \A a \in 1..Len(r.f.ids) : \A b \in 1..Len(r.r.ids) :
             LET x == r.pairs[(a - 1) * Len(r.r.ids) + b]
                 e == TLCEval(vol(a, b))
             IN  ~IsNeg(x[1]) /\ Near(x[1], e, 3, e)
        /\ (Fed(p, f) = CellsOf(p) /\ Fed(p, v) = CellsOf(p)) =>
             Near(DTotal([k \in 1..Len(r.pairs) |-> r.pairs[k][1]]), pvs, IF cyc THEN 1 ELSE 3, pvs)

FluxesOK(r, f, v) ==
    LET cyc == r.cyc = 1  p == r.p  np == Len(r.r.ids)  ni == Len(r.f.ids)
        Ti == TLCEval([k \in 1..ni |-> Spread(p, r.f.ids[k].cells, r.f.ids[k].T)])
        To == TLCEval([k \in 1..np |-> Spread(p, r.r.ids[k].cells, r.r.ids[k].T)])
        wi == TLCEval([k \in 1..ni |-> EntOf(f, r.f.ids[k].id)])
        wo == TLCEval([k \in 1..np |-> EntOf(v, r.r.ids[k].id)])
        q1(a, b) == DTotal([j \in 1..Len(wi[a]) |-> DMul(wi[a][j][3], To[b][wi[a][j][2] + 1])])
        q2(a, b) == DTotal([j \in 1..Len(wo[b]) |-> DMul(wo[b][j][3], Ti[a][wo[b][j][2] + 1])])
        pr(a, b) == r.pairs[(a - 1) * np + b]
        rate(w) == DTotal([j \in 1..Len(w) |-> w[j][3]])
        tol == IF cyc THEN 1 ELSE 3
    IN  /\ Len(r.pairs) = ni * np
        /\ \A a \in 1..ni : \A b \in 1..np :
             LET e1 == TLCEval(q1(a, b))  e2 == TLCEval(q2(a, b))
             IN  /\ ~IsNeg(pr(a, b)[2]) /\ Near(pr(a, b)[2], e1, 3, e1)
                 /\ ~IsPos(pr(a, b)[3]) /\ Near(pr(a, b)[3], e2, 3, DAbs(e2))
        /\ BalancedIn(p, f, v) =>
             /\ \A a \in 1..ni : \A b \in 1..np :
                  Near(pr(a, b)[2], DNeg(pr(a, b)[3]), tol, DMax(rate(wi[a]), DAbs(rate(wo[b]))))
             /\ \A a \in 1..ni : np > 0 =>
                  Near(DTotal([b \in 1..np |-> pr(a, b)[2]]), rate(wi[a]), tol, rate(wi[a]))
             /\ \A b \in 1..np : ni > 0 =>
                  Near(DTotal([a \in 1..ni |-> pr(a, b)[3]]), rate(wo[b]), tol, DAbs(rate(wo[b])))

(***************************************************************************)
(* C24: solves by one solver object, for any part of the sources.          *)
(***************************************************************************)
LocalOK(r, d, f) ==
    LET p == r.p
        e == [d EXCEPT !.ent = f.ent]
        R == TLCEval(Reach(d.succ, CellsOfID(e, 0)))
        in(x) == ~IsNeg(x) /\ DLe(x, MAXT)
    IN  /\ Ascending(f.cells) /\ Ascending(f.tcells)
        /\ {f.cells[j] : j \in 1..Len(f.cells)} = R
        /\ {f.tcells[j] : j \in 1..Len(f.tcells)} = R
        /\ \A j \in 1..Len(f.T) : IsPos(f.T[j])
        /\ \A j \in 1..Len(f.t) : in(f.t[j])
        /\ TracerOK(p, e, r, f)
        /\ TimeOK(p, e, r, f.cells, Spread(p, f.cells, f.T), Spread(p, f.tcells, f.t), 1)

GlobalOK(r, d, all, g) ==
    LET p == r.p
        R == TLCEval(Reach(d.succ, Sources(p, d)))
    IN  /\ Len(g) = p.n
        /\ \A c \in 1..p.n :
             /\ ~IsNeg(g[c]) /\ DLe(g[c], MAXT)
             /\ ((c - 1) \notin R => g[c] = MAXT)
        /\ TimeOK(p, d, r, all.cells, Spread(p, all.cells, all.T), g, 64)

SolvesOK(r) ==
    LET d == TLCEval(Dir(r.p, r.fwd = 1))
    IN  /\ LocalOK(r, d, r.all)
        /\ \A k \in 1..Len(r.solves) :
             LET s == r.solves[k]
             IN  CASE s.op = "local" -> LocalOK(r, d, s)
                   [] s.op = "global" -> GlobalOK(r, d, r.all, s.g)
                   [] s.op = "refused" -> s.out = 1

(***************************************************************************)
Both(r, Op(_, _)) == Op(TLCEval(Dir(r.p, TRUE)), r.f) /\ Op(TLCEval(Dir(r.p, FALSE)), r.r)

Holds(r) ==
    LET cyc == r.cyc = 1 p == r.p IN
    /\ r.fit = 1
    /\ IncOK(p)
    /\ CASE Prop = "C01" -> Both(r, LAMBDA d, o : RegionOK(p, d, o))
         [] Prop = "C02" -> Both(r, LAMBDA d, o : \A k \in 1..Len(o.ids) : TracerOK(p, d, r, o.ids[k]))
         [] Prop = "C03" -> Both(r, LAMBDA d, o : UnityOK(p, d, cyc, o))
         [] Prop = "C04" -> Both(r, LAMBDA d, o : TimesOK(p, d, r, o)) /\ CutBoth(r)
         [] Prop = "C05" -> Both(r, LAMBDA d, o : BoundOK(p, d, o) /\ (r.cap = 1 => TimesOK(p, d, r, o))) /\ CutBoth(r)
         [] Prop = "C06" -> cyc => /\ Both(r, LAMBDA d, o : /\ RegionOK(p, d, o)
                                                            /\ \A k \in 1..Len(o.ids) : TracerOK(p, d, r, o.ids[k])
                                                            /\ UnityOK(p, d, cyc, o)
                                                            /\ BoundOK(p, d, o)
                                                            /\ TimesOK(p, d, r, o))
                                   /\ CutBoth(r)
                                   /\ \A k \in 1..Len(r.alt) : SameAll(r.f, r.alt[k].f, r.alt[k].perm, cyc, r.alt[k].lam, r.alt[k].mu)
         [] Prop = "C07" -> /\ SameAll(r.r, r.mir.f, Ident(p.n), cyc, DOne, DOne)
                            /\ SameAll(r.f, r.mir.r, Ident(p.n), cyc, DOne, DOne)
         [] Prop = "C08" -> AloneOK(r, r.f, r.alone.f) /\ AloneOK(r, r.r, r.alone.r)
         [] Prop = "C10" -> \A k \in 1..Len(r.alt) :
                              LET a == r.alt[k]
                              IN  /\ Equivalent(p, a.p, a.perm, a.lam, a.mu)
                                  /\ SameAll(r.f, a.f, a.perm, cyc, a.lam, a.mu)
                                  /\ SameAll(r.r, a.r, a.perm, cyc, a.lam, a.mu)
         [] Prop = "C18" -> VolumesOK(r, TLCEval(Dir(p, TRUE)), TLCEval(Dir(p, FALSE)))
         [] Prop = "C24" -> SolvesOK(r)
         [] Prop = "C19" -> FluxesOK(r, TLCEval(Dir(p, TRUE)), TLCEval(Dir(p, FALSE)))

Init == i \in 1..Len(Trace) /\ verdict = "open"
Judge == /\ verdict = "open"
         /\ verdict' = IF Holds(Trace[i]) THEN "holds" ELSE "broken"
         /\ (verdict' = "broken" => PrintT("@" \o ToJson([record |-> i, id |-> Trace[i].id, kind |-> Trace[i].kind])))
         /\ i' = i
Next == Judge
Spec == Init /\ [][Next]_vars

AllHold == verdict # "broken"
=============================================================================
