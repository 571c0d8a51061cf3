----------------------------- MODULE MCBoxFile ------------------------------
(* Writing nested boxes to a file that has content already, one call of the *)
(* sink after the other, as internal/mp4.Writer does: sizes are patched     *)
(* when a box ends, boxes can be written again with a payload of the same   *)
(* length, and any call can fail.  A header is two cells, size and type.    *)
(* Without failures the file has the encoding of the boxes at the initial   *)
(* position, what surrounds it is as before, and the position is behind it. *)
EXTENDS Integers, Sequences, TLC
Trees ==
  LET leaf(p) == [t |-> 7, p |-> p, c |-> <<>>]
  IN {leaf(<<>>), leaf(<<5>>),
      [t |-> 8, p |-> <<>>, c |-> <<leaf(<<5, 6>>)>>],
      [t |-> 8, p |-> <<4>>, c |-> <<leaf(<<>>), leaf(<<5>>)>>],
      [t |-> 9, p |-> <<>>, c |-> <<[t |-> 8, p |-> <<>>, c |-> <<leaf(<<3>>)>>], leaf(<<1>>)>>]}
Surroundings == {<< <<>>, <<>> >>, << <<90, 91>>, <<>> >>, << <<90>>, <<92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103>> >>}
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
RECURSIVE Enc(_)
Enc(b) == LET x == b.p \o Flat([k \in 1 .. Len(b.c) |-> Enc(b.c[k])]) IN <<Len(x) + 2, b.t>> \o x
\* instructions
RECURSIVE Prog(_)
Prog(b) == << [i |-> "start", t |-> b.t, p |-> b.p] >> \o Flat([k \in 1 .. Len(b.c) |-> Prog(b.c[k])]) \o << [i |-> "end"] >>
Patched(p) == [k \in 1 .. Len(p) |-> p[k] + 50]
\* with the first box written again
Full(b) == Prog(b) \o (IF b.c = <<>> THEN << [i |-> "re", t |-> b.t, p |-> Patched(b.p)] >> ELSE <<>>)
Final(b) == IF b.c = <<>> THEN Enc([b EXCEPT !.p = Patched(b.p)]) ELSE Enc(b)

VARIABLES tree, sur, c, pos, prog, calls, stack, reg, failed, err
vars == <<tree, sur, c, pos, prog, calls, stack, reg, failed, err>>
Init ==
  /\ tree \in Trees /\ sur \in Surroundings
  /\ c = sur[1] \o sur[2] /\ pos = Len(sur[1])
  /\ prog = Full(tree) /\ calls = <<>> /\ stack = <<>> /\ reg = 0 /\ failed = FALSE /\ err = FALSE
Put(d) == [k \in 1 .. (IF pos + Len(d) > Len(c) THEN pos + Len(d) ELSE Len(c)) |-> IF k > pos /\ k <= pos + Len(d) THEN d[k - pos] ELSE c[k]]
\* the calls of an instruction
Expand ==
  /\ calls = <<>> /\ prog # <<>> /\ ~err
  /\ LET h == Head(prog) IN
     /\ calls' = CASE h.i = "start" -> << [f |-> "push"], [f |-> "head", t |-> h.t], [f |-> "write", d |-> h.p] >>
                   [] h.i = "end" -> << [f |-> "where"], [f |-> "tostart"], [f |-> "size"], [f |-> "back"] >>
                   [] OTHER -> << [f |-> "where2"], [f |-> "first"], [f |-> "push"], [f |-> "head", t |-> h.t], [f |-> "write", d |-> h.p],
                                  [f |-> "where"], [f |-> "tostart"], [f |-> "size"], [f |-> "back"], [f |-> "back2"] >>
     /\ prog' = Tail(prog)
  /\ UNCHANGED <<tree, sur, c, pos, stack, reg, failed, err>>
Write(d) == c' = Put(d) /\ pos' = pos + Len(d)
Call ==
  /\ calls # <<>> /\ ~err
  /\ calls' = Tail(calls)
  /\ UNCHANGED <<tree, sur, prog, failed, err>>
  /\ LET x == Head(calls) IN
     CASE x.f = "push" -> stack' = <<pos>> \o stack /\ UNCHANGED <<c, pos, reg>>
       [] x.f = "head" -> Write(<<0, x.t>>) /\ UNCHANGED <<stack, reg>>
       [] x.f = "write" -> Write(x.d) /\ UNCHANGED <<stack, reg>>
       [] x.f = "where" -> reg' = pos /\ UNCHANGED <<c, pos, stack>>
       [] x.f = "where2" -> stack' = <<pos>> \o stack /\ UNCHANGED <<c, pos, reg>>
       [] x.f = "first" -> pos' = Len(sur[1]) /\ UNCHANGED <<c, stack, reg>>
       [] x.f = "tostart" -> pos' = Head(stack) /\ UNCHANGED <<c, stack, reg>>
       [] x.f = "size" -> Write(<<reg - Head(stack)>>) /\ stack' = Tail(stack) /\ UNCHANGED reg
       [] x.f = "back" -> pos' = reg /\ UNCHANGED <<c, stack, reg>>
       [] OTHER -> pos' = Head(stack) /\ stack' = Tail(stack) /\ UNCHANGED <<c, reg>>
\* the call fails, having written part of the data
Break ==
  /\ calls # <<>> /\ ~err
  /\ failed' = TRUE /\ err' = TRUE
  /\ UNCHANGED <<tree, sur, pos, prog, calls, stack, reg>>
  /\ LET x == Head(calls) IN
     \E n \in 0 .. (IF x.f = "write" THEN Len(x.d) ELSE IF x.f = "head" THEN 1 ELSE 0) :
       c' = IF n = 0 THEN c ELSE Put(SubSeq(IF x.f = "write" THEN x.d ELSE <<0, x.t>>, 1, n))
Next == Expand \/ Call \/ Break
Want == LET f == Final(tree) IN sur[1] \o f \o SubSeq(sur[2], Len(f) + 1, Len(sur[2]))
Done == calls = <<>> /\ prog = <<>>
Good ==
  /\ failed = err
  /\ (Done /\ ~err => c = Want /\ pos = Len(sur[1]) + Len(Final(tree)) /\ stack = <<>>)
  /\ SubSeq(c, 1, Len(sur[1])) = sur[1]
=============================================================================
