------------------------------ MODULE BufRead -------------------------------
(***************************************************************************)
(* mpegts.BufferedReader: datagrams of whole packets, read in pieces of    *)
(* any size.  A datagram which is not made of whole packets is refused;    *)
(* bytes that come with an error are delivered before the error.           *)
(* cfg.src: what the source returns, call by call: [d |-> bytes, e |-> "" or*)
(* an error]; after the last, "eof".                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
Min(a, b) == IF a < b THEN a ELSE b
Cap == 1500

StartStates(cfg) == {[left |-> <<>>, err |-> "", src |-> cfg.src]}

\* one call of the source: at most Cap bytes
Call(src) == IF src = <<>> THEN [d |-> <<>>, e |-> "eof", src |-> <<>>]
             ELSE LET c == src[1] IN
                  IF Len(c.d) > Cap THEN [d |-> SubSeq(c.d, 1, Cap), e |-> "", src |-> <<[c EXCEPT !.d = SubSeq(@, Cap + 1, Len(@))]>> \o Tail(src)]
                  ELSE [d |-> c.d, e |-> c.e, src |-> Tail(src)]
Give(s, n) == LET k == Min(n, Len(s.left)) IN
  {[st |-> [s EXCEPT !.left = SubSeq(@, k + 1, Len(@))], res |-> [d |-> SubSeq(s.left, 1, k), e |-> ""]]}

Outcomes(s, o) ==
  IF s.left # <<>> THEN Give(s, o.n)
  ELSE IF s.err # "" THEN {[st |-> [s EXCEPT !.err = ""], res |-> [d |-> <<>>, e |-> s.err]]}
  ELSE LET c == Call(s.src) IN
       IF c.d = <<>> /\ c.e # "" THEN {[st |-> [s EXCEPT !.src = c.src], res |-> [d |-> <<>>, e |-> c.e]]}
       ELSE IF Len(c.d) % 188 # 0 THEN {[st |-> [s EXCEPT !.src = c.src], res |-> [d |-> <<>>, e |-> IF c.e # "" THEN c.e ELSE "other"]],
                                         [st |-> [s EXCEPT !.src = c.src, !.err = c.e], res |-> [d |-> <<>>, e |-> "other"]]}
       ELSE Give([left |-> c.d, err |-> c.e, src |-> c.src], o.n)
=============================================================================
