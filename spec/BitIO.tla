------------------------------- MODULE BitIO --------------------------------
(***************************************************************************)
(* State machine of pkg/bits: a buffer and a cursor.                       *)
(***************************************************************************)
EXTENDS Bits

Dead == [dead |-> TRUE]

StartStates(cfg) == {[dead |-> FALSE, buf |-> cfg.buf, pos |-> cfg.pos]}

Moved(s, n) == [s EXCEPT !.pos = @ + n]
One(st, res) == {[st |-> st, res |-> res]}

Read(s, n) ==
  IF HasBits(s.buf, s.pos, n)
  THEN One(Moved(s, n), [v |-> Limbs64(BitSeq(s.buf, s.pos, n)), pos |-> s.pos + n])
  ELSE One(s, [err |-> TRUE, pos |-> s.pos])

Outcomes(s, e) ==
  IF s.dead  \* after a failed Golomb read the cursor is unspecified
  THEN IF "panic" \in DOMAIN e.r \/ "hang" \in DOMAIN e.r THEN {} ELSE One(s, e.r)
  ELSE
  CASE e.op = "has" ->
         One(s, IF HasBits(s.buf, s.pos, e.n) THEN [ok |-> TRUE] ELSE [err |-> TRUE])
    [] e.op = "read" -> Read(s, e.n)
    [] e.op = "flag" -> Read(s, 1)
    [] e.op = "readu" ->
         IF HasBits(s.buf, s.pos, e.n) THEN Read(s, e.n) ELSE One(s, [err |-> TRUE])
    [] e.op = "ue" ->
         IF GolombValid(s.buf, s.pos)
         THEN LET n == GolombLen(s.buf, s.pos)
              IN One(Moved(s, n), [v |-> Limbs64(GolombBits(s.buf, s.pos)), pos |-> s.pos + n])
         ELSE One(Dead, [err |-> TRUE])
    [] e.op = "se" ->
         IF GolombValid(s.buf, s.pos)
         THEN LET n == GolombLen(s.buf, s.pos)
                  g == GolombSigned(s.buf, s.pos)
              IN One(Moved(s, n), [v |-> Limbs64(g.mag), neg |-> g.neg, pos |-> s.pos + n])
         ELSE One(Dead, [err |-> TRUE])
    [] e.op = "write" ->
         LET nb == WriteBits(s.buf, s.pos, LastN(LimbBits(e.v), e.n))
         IN One([Moved(s, e.n) EXCEPT !.buf = nb], [buf |-> nb, pos |-> s.pos + e.n])
    [] e.op = "wflag" ->
         LET nb == WriteBits(s.buf, s.pos, <<IF e.b THEN 1 ELSE 0>>)
         IN One([Moved(s, 1) EXCEPT !.buf = nb], [buf |-> nb, pos |-> s.pos + 1])
=============================================================================
