-------------------------------- MODULE Mp4Io --------------------------------
(***************************************************************************)
(* MP4 files and the sources, sinks and payloads they come from and go to. *)
(*                                                                         *)
(* A source (io.ReadSeeker) may return fewer bytes than asked for, report  *)
(* the end together with the last bytes, and fail at any call; a sink      *)
(* (io.Writer, io.WriteSeeker) may fail at any call, having taken part of  *)
(* the data; obtaining a payload may fail.  From the first failure on, all *)
(* calls fail.                                                             *)
(*                                                                         *)
(*  - how reads are cut makes no difference;                               *)
(*  - an operation during which a call failed fails, and not with the      *)
(*    error that tells the end of a file: no failure is swallowed,         *)
(*    whatever call it is;                                                 *)
(*  - the bytes that a plain writer has taken before are the first ones of *)
(*    the file;                                                            *)
(*  - nothing remains of a failure: the same object can be written         *)
(*    to another sink, and a sample be read again, with the right result;  *)
(*  - a file is written at the current position of the sink, and leaves it *)
(*    after the last byte, and what is before and behind alone.            *)
(*                                                                         *)
(* Result of a sweep: [calls, tried, bad, res]: number of calls without    *)
(* failures, number of those that have been made to fail, each in a run of *)
(* its own, those that were not reported, and the result without failures  *)
(* afterwards.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
I == INSTANCE Fmp4Init
P == INSTANCE Fmp4Parts
Q == INSTANCE Pmp4

Fail == [err |-> TRUE]
Min(a, b) == IF a < b THEN a ELSE b
Base(s, e) == CASE s.io = "init" -> I!Outcomes(s, e) [] s.io = "parts" -> P!Outcomes(s, e) [] OTHER -> Q!Outcomes(s, e)
StartStates(cfg) == {cfg}
Outcomes(s, e) ==
  LET r == e.r
      known == {"res"} \subseteq DOMAIN r
      base == {o.res : o \in Base(s, [e EXCEPT !.op = e.do, !.r = r.res])}
      to(x) == [st |-> s, res |-> x]
  IN IF ~known THEN {to(Fail)}
     ELSE CASE e.op = "cut" -> {to([res |-> b]) : b \in base}
       [] e.op = "at" -> {to([res |-> b, pos |-> IF "buf" \in DOMAIN b THEN Len(b.buf) ELSE -1]) : b \in base}
       [] OTHER -> {to([res |-> b, calls |-> r.calls, tried |-> Min(r.calls, IF e.op = "later" THEN r.tried ELSE 400), bad |-> <<>>]) :
              b \in {x \in base : "err" \in DOMAIN x \/ r.calls > 0 \/ e.op \in {"later", "payload"} \/ ("buf" \in DOMAIN x /\ x.buf = <<>>)}}
=============================================================================
