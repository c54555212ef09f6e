------------------------------ MODULE FlowOut ------------------------------
(***************************************************************************)
(* The exact solution of a network in both directions, and its form as     *)
(* nested integer lists for the harnesses.                                 *)
(***************************************************************************)
EXTENDS FlowModel

(***************************************************************************)
(* Networks whose determinants would not fit in TLC's integers are left    *)
(* out (counted by the coverage report).                                   *)
(***************************************************************************)
RECURSIVE ProdOver(_, _)
ProdOver(f, S) == IF S = {} THEN 1
                  ELSE LET x == CHOOSE y \in S : TRUE
                           p == ProdOver(f, S \ {x})
                       IN  IF p > 20000000 \div f[x] THEN 20000000 ELSE f[x] * p

InRange(nt) ==
    \A fwd \in BOOLEAN :
        LET F == FlowMatrix(nt, fwd)
            src == TotalSource(nt, fwd)
            tot == [c \in Cells(nt) |->
                      1 + src[c] + SumOver([a \in Cells(nt) |-> F[a][c]], Cells(nt))]
        IN  ProdOver(tot, Cells(nt)) < 20000000

NoSol == [ok |-> FALSE]

Solution(nt) ==
    LET fc == Context(nt, TRUE)
        rc == Context(nt, FALSE)
        inj == ActiveIDs(nt, TRUE)
        prd == ActiveIDs(nt, FALSE)
    IN  IF fc.D1 > 2500 \/ rc.D1 > 2500 \/ fc.D2 > 2500 \/ rc.D2 > 2500 THEN NoSol
        ELSE [ok |-> TRUE, fc |-> fc, rc |-> rc,
              fg |-> SolveFor(nt, fc, fc.src),
              rg |-> SolveFor(nt, rc, rc.src),
              fi |-> [i \in inj |-> SolveFor(nt, fc, SourceOf(nt, TRUE, i))],
              rp |-> [p \in prd |-> SolveFor(nt, rc, SourceOf(nt, FALSE, p))]]

(***************************************************************************)
(* Emission.  All numbers; see harness/flow.cpp for the reader.            *)
(***************************************************************************)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z
                  IN  <<x>> \o SetSeq(S \ {x})

SolOut(nt, ctx, s) ==
    LET reg == SetSeq({c \in Cells(nt) : s.T[c] > 0})
    IN  [k \in 1..Len(reg) |-> <<reg[k]>> \o Conc(ctx, s, reg[k]) \o Reported(nt, s.tof[reg[k]])]

DirOut(nt, ctx, g, per, ids) ==
    << [c \in 1..nt.n |-> Reported(nt, g.tof[c-1])],
       SetSeq(FullyFed(nt, ctx)),
       SetSeq(ctx.R),
       [k \in 1..Len(ids) |-> << ids[k], SolOut(nt, ctx, per[ids[k]]) >>] >>

\* The bound has an influence on some reported finite value or on a reached cell.
CapMatters(nt, s) ==
    \/ s.fc.slow # {} \/ s.rc.slow # {}
    \/ \E c \in s.fc.R : Reported(nt, s.fg.tof[c]) = CapT
    \/ \E c \in s.rc.R : Reported(nt, s.rg.tof[c]) = CapT
    \/ \E i \in DOMAIN s.fi : \E c \in Cells(nt) : s.fi[i].T[c] > 0 /\ Reported(nt, s.fi[i].tof[c]) = CapT
    \/ \E i \in DOMAIN s.rp : \E c \in Cells(nt) : s.rp[i].T[c] > 0 /\ Reported(nt, s.rp[i].tof[c]) = CapT

\* A cell exactly at the limit of being slow: rounding decides in the code.
Tie(nt, s) ==
    \/ \E c \in s.fc.R : s.fc.tot[c] * nt.maxT = nt.pv[c+1]
    \/ \E c \in s.rc.R : s.rc.tot[c] * nt.maxT = nt.pv[c+1]

B2I(b) == IF b THEN 1 ELSE 0

CaseOut(idx, nt, s) ==
    LET inj == SetSeq(ActiveIDs(nt, TRUE))
        prd == SetSeq(ActiveIDs(nt, FALSE))
    IN  << idx, nt.n, nt.conns, nt.flux, nt.wells, nt.pv, nt.maxT,
           << B2I(OnLoop(nt, s.fc.F) # {}), B2I(CapMatters(nt, s)), B2I(Tie(nt, s)),
              B2I(Balanced(nt)) >>,
           DirOut(nt, s.fc, s.fg, s.fi, inj),
           DirOut(nt, s.rc, s.rg, s.rp, prd),
           [a \in 1..Len(inj) |-> [b \in 1..Len(prd) |->
              << PairVolume(nt, s.fc, s.fi[inj[a]], s.rc, s.rp[prd[b]]),
                 PairFluxInj(nt, inj[a], s.rc, s.rp[prd[b]]),
                 PairFluxProd(nt, prd[b], s.fc, s.fi[inj[a]]) >>]] >>
=============================================================================
