----------------------------- MODULE CurveTrace -----------------------------
(***************************************************************************)
(* Judges F-Phi curves, Lorenz coefficients and sweep curves of inputs of  *)
(* any magnitude, in exact arithmetic on the recorded numbers.  Tolerance  *)
(* is B^-3 (2e-12) of the magnitudes entering each sum: rounding only.     *)
(***************************************************************************)
EXTENDS Dyadic, FiniteSets, Json

CONSTANTS TraceFile, Prop
Trace == ndJsonDeserialize(TraceFile)

VARIABLES i, verdict
vars == <<i, verdict>>

Tol(x) == DShift(x, -3)
Within(x, y, s) == DLe(DAbs(DSub(x, y)), Tol(s))

Rising(s) == \A k \in 1..(Len(s) - 1) : DLe(s[k], s[k + 1])

(***************************************************************************)
(* "fphi": pv, a, b (forward and reverse times), fr (largest share), ord   *)
(* (an order of the cells the curve may stand for, proposed by the         *)
(* harness), phi and f (the curve).                                        *)
(***************************************************************************)
FPhiOK(r) ==
    LET n == Len(r.pv)
        all == TLCEval(DTotal(r.pv))
        top == DMul(r.fr, all)
        cnt == TLCEval([c \in 1..n |-> DLe(r.pv[c], top)])
        vol == TLCEval([c \in 1..n |-> IF cnt[c] THEN r.pv[c] ELSE DZero])
        tot == TLCEval(DTotal(vol))
        time == TLCEval([c \in 1..n |-> DAdd(r.a[c], r.b[c])])
        \* increments in curve order
        dphi == TLCEval([k \in 1..n |-> DSub(r.phi[k + 1], r.phi[k])])
        df   == TLCEval([k \in 1..n |-> DSub(r.f[k + 1], r.f[k])])
        busy == SelectSeq([k \in 1..n |-> k], LAMBDA k : IsPos(vol[r.ord[k]]))
        \* the largest flow increment is the yardstick for all others
        RECURSIVE best(_, _)
        best(x, y) == IF x = y THEN x
                      ELSE LET m == (x + y) \div 2  p == best(x, m)  q == best(m + 1, y)
                           IN  IF DLe(df[p], df[q]) THEN q ELSE p
        j == TLCEval(best(1, n))
        cj == r.ord[j]
        rate == TLCEval(DMul(df[j], time[cj]))          \* = pv[cj] / total capacity
    IN  /\ Len(r.phi) = n + 1 /\ Len(r.f) = n + 1
        /\ r.fit = 1 /\ r.same = 1
        /\ Len(r.ord) = n /\ {r.ord[k] : k \in 1..n} = 1..n
        /\ IsZero(r.phi[1]) /\ IsZero(r.f[1])
        /\ Within(r.phi[n + 1], DOne, DOne) /\ Within(r.f[n + 1], DOne, DOne)
        /\ Rising(r.phi) /\ Rising(r.f)
        /\ \A k \in 1..(n + 1) : DLe(r.phi[k], DAdd(r.f[k], Tol(DOne)))
        /\ \A k \in 1..n : LET c == r.ord[k] IN
             /\ Within(DMul(dphi[k], tot), vol[c], DMul(r.phi[k + 1], tot))
             /\ IF IsZero(vol[c]) THEN IsZero(df[k])
                ELSE Within(DMul(DMul(df[k], time[c]), vol[cj]), DMul(rate, vol[c]),
                            DAdd(DMul(DMul(r.f[k + 1], time[c]), vol[cj]), DMul(rate, vol[c])))
        /\ \A k \in 1..(Len(busy) - 1) : DLe(time[r.ord[busy[k]]], time[r.ord[busy[k + 1]]])

(***************************************************************************)
(* "sweep": a curve phi, f, its Lorenz coefficient and sweep points.       *)
(***************************************************************************)
SweepOK(r) ==
    LET n == Len(r.phi)
        up == SelectSeq([k \in 1..(n - 1) |-> k], LAMBDA k : r.f[k] # r.f[k + 1])
        area == TLCEval(DTotal([k \in 1..(n - 1) |-> DMul(DAdd(r.f[k], r.f[k + 1]), DSub(r.phi[k + 1], r.phi[k]))]))
    IN  /\ r.fit = 1
        /\ Within(r.lorenz, DSub(area, DOne), DOne)
        /\ (r.fphi = 1 => DLe(DNeg(Tol(DOne)), r.lorenz) /\ DLe(r.lorenz, DOne))
        /\ Len(r.td) = Len(up) + 1 /\ Len(r.ev) = Len(up) + 1
        /\ IsZero(r.td[1]) /\ IsZero(r.ev[1])
        /\ \A k \in 1..Len(up) :
             LET m == up[k]
                 dp == DSub(r.phi[m + 1], r.phi[m])
                 dd == DSub(r.f[m + 1], r.f[m])
                 rest == DMul(DSub(DOne, r.f[m + 1]), r.td[k + 1])
             IN  /\ Within(DMul(r.td[k + 1], dd), dp, dp)
                 /\ Within(r.ev[k + 1], DAdd(r.phi[m + 1], rest), DAdd(DOne, rest))
        \* ascending times and efficiencies where the curve is concave by a clear margin
        /\ (r.clear = 1 =>
              /\ Rising(r.td)
              /\ \A k \in 1..Len(up) : DLe(r.ev[k], DAdd(r.ev[k + 1], Tol(DAdd(DOne, r.ev[k]))))
              /\ up # <<>> /\ Within(r.ev[Len(up) + 1], DOne, DOne))

Holds(r) ==
    CASE r.kind = "fphi"  -> (Prop = "C16" => FPhiOK(r))
      [] r.kind = "sweep" -> (Prop = "C17" => SweepOK(r))

Init == i \in 1..Len(Trace) /\ verdict = "open"
Judge == /\ verdict = "open"
         /\ verdict' = IF Holds(Trace[i]) THEN "holds" ELSE "broken"
         /\ (verdict' = "broken" => PrintT("@" \o ToJson([record |-> i, id |-> Trace[i].id, kind |-> Trace[i].kind])))
         /\ i' = i
Next == Judge
Spec == Init /\ [][Next]_vars

AllHold == verdict # "broken"
=============================================================================
