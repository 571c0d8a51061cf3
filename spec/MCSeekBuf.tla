----------------------------- MODULE MCSeekBuf ------------------------------
(* All short histories: writing changes exactly the bytes it covers; what   *)
(* precedes is kept, gaps read as zeros, and the position follows.          *)
EXTENDS SeekBuf
VARIABLES s, o, prev
vars == <<s, o, prev>>
Ops == {[op |-> "write", p |-> p] : p \in {<<>>, <<1>>, <<2, 3>>}}
       \cup {[op |-> "seek", whence |-> w, off |-> d] : w \in {"start", "current", "end"}, d \in -2 .. 2}
       \cup {[op |-> "reset"]}
Init == s = Empty /\ o = [op |-> "reset"] /\ prev = Empty
Next == \E op \in Ops : \E x \in Steps(s, op) : Len(x.st.b) <= 5 /\ x.st.pos <= 6 /\ s' = x.st /\ o' = op /\ prev' = s
Spec == Init /\ [][Next]_vars
At(b, k) == IF k <= Len(b) THEN b[k] ELSE 0
Good ==
  /\ s.pos >= 0
  /\ CASE o.op = "write" ->
            /\ s.pos = prev.pos + Len(o.p)
            /\ \A k \in 1 .. 10 : At(s.b, k) = IF k > prev.pos /\ k <= s.pos THEN o.p[k - prev.pos] ELSE At(prev.b, k)
            /\ (o.p # <<>> => Len(s.b) >= s.pos) /\ Len(s.b) >= Len(prev.b)
       [] o.op = "seek" -> \A k \in 1 .. 10 : At(s.b, k) = At(prev.b, k)
       [] OTHER -> s = Empty
=============================================================================
