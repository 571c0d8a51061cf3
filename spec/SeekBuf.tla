------------------------------ MODULE SeekBuf -------------------------------
(***************************************************************************)
(* seekablebuffer.Buffer: a file kept in memory, written and sought.       *)
(*                                                                         *)
(* The state is [b, pos].  Seeking past the end may extend the content     *)
(* with zeros at once, or leave it to the next write, as files do.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Zeros(n) == [k \in 1 .. n |-> 0]
Extend(b, n) == IF n <= Len(b) THEN b ELSE b \o Zeros(n - Len(b))
Overwrite(b, pos, p) ==
  LET x == Extend(b, pos)
      end == pos + Len(p)
  IN SubSeq(x, 1, pos) \o p \o (IF end >= Len(x) THEN <<>> ELSE SubSeq(x, end + 1, Len(x)))

Base(s, whence) == CASE whence = "start" -> 0 [] whence = "current" -> s.pos [] whence = "end" -> Len(s.b)

Empty == [b |-> <<>>, pos |-> 0]
\* the steps of operation op of s: [st, res]
Steps(s, op) ==
  LET to(t, x) == [st |-> t, res |-> x @@ [b |-> t.b, len |-> Len(t.b)]] IN
  CASE op.op = "write" ->
         {to([b |-> Overwrite(s.b, s.pos, op.p), pos |-> s.pos + Len(op.p)], [n |-> Len(op.p)])}
         \* writing nothing past the end: may extend or not
         \cup (IF op.p = <<>> THEN {to(s, [n |-> 0])} ELSE {})
    [] op.op = "seek" ->
         LET at == Base(s, op.whence) + op.off IN
         IF at < 0 THEN {to(s, [err |-> TRUE])}
         ELSE {to([s EXCEPT !.pos = at], [pos |-> at]), to([b |-> Extend(s.b, at), pos |-> at], [pos |-> at])}
    [] op.op = "reset" -> {to(Empty, [done |-> TRUE])}

\* ---- properties of the specification, checked on small buffers (MCSeekBuf)
StartStates(cfg) == {Empty}
Outcomes(s, e) == Steps(s, e)
=============================================================================
