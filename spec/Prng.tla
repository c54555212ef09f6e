-------------------------------- MODULE Prng --------------------------------
(***************************************************************************)
(* Wichmann-Hill pseudo random numbers: all products stay below 2^31.  A   *)
(* pure function of (seed, stream), so a case is identified by its index.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

PInit(seed, stream) ==
    << 1 + ((seed * 97 + stream * 31 + 11) % 30268),
       1 + ((seed * 53 + (stream \div 7) * 17 + stream * 5 + 29) % 30306),
       1 + ((seed * 71 + (stream \div 3) * 13 + stream + 41) % 30322) >>

PNext(s) == << (s[1] * 171) % 30269, (s[2] * 172) % 30307, (s[3] * 170) % 30323 >>
PVal(s)  == (s[1] + s[2] + s[3]) % 30269

RECURSIVE PStream(_, _)
PStream(s, k) == IF k = 0 THEN <<>>
                 ELSE LET t == PNext(s) IN <<PVal(t)>> \o PStream(t, k - 1)

\* k numbers of stream `stream`; the first few values are dropped.
Rnd(seed, stream, k) == PStream(PNext(PNext(PNext(PInit(seed, stream)))), k)
=============================================================================
