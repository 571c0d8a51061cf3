------------------------------- MODULE Rewind -------------------------------
(***************************************************************************)
(* rewindablereader.Reader: what it records of a byte stream is replayed    *)
(* exactly once, from the beginning, followed by the rest of the stream.    *)
(* Bytes are named by their position in the stream.  For each read, the     *)
(* environment (the source) tells how far it has been consumed (src) and    *)
(* which error it returned during the call (srce).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MaxRecorded == 1024 * 1024

Total(cfg) == LET RECURSIVE Sum(_) Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
              IN Sum(cfg.segs)

(* cur: bytes delivered in the current pass; src: consumed from the source; *)
(* mode: "rec" while recording, "play" after Rewind, "broken" after the     *)
(* recording limit has been exceeded                                        *)
StartStates(cfg) ==
  {[mode |-> "rec", cur |-> 0, src |-> 0, total |-> Total(cfg), final |-> cfg.final]}

(* delivered data: n bytes of the stream starting at byte "at" *)
\* from: where they are in the stream, -1 if too few to tell (and -2 if they are not)
DataOK(r, at) == r.from = at \/ (r.from = -1 /\ r.n < 5) \/ r.n = 0

ReadOK(s, e, r) ==
  /\ DOMAIN r = {"n", "from", "e", "src", "srce"}
  /\ r.n \in 0 .. e.n
  /\ r.src >= s.src
  /\ DataOK(r, s.cur)
  /\ CASE s.mode = "rec" ->
            IF r.src > MaxRecorded
            THEN r.e # "nil"
            ELSE /\ s.cur + r.n = r.src     \* what is consumed is delivered
                 /\ r.e = r.srce            \* and errors are passed through
       [] s.mode = "play" ->
            /\ s.cur + r.n <= r.src
            /\ r.e # "nil" => (s.cur + r.n = r.src /\ r.e = r.srce)
            /\ r.srce # "nil" => (s.cur + r.n < r.src \/ r.e = r.srce)

After(s, e, r) ==
  IF s.mode = "rec" /\ r.src > MaxRecorded
  THEN [s EXCEPT !.mode = "broken", !.src = r.src]
  ELSE [s EXCEPT !.cur = @ + r.n, !.src = r.src]

(* reading until the error delivers all the rest of the stream *)
DrainOK(s, r) ==
  /\ DOMAIN r = {"n", "from", "e", "src", "srce"}
  /\ r.src = s.total
  /\ r.n = s.total - s.cur
  /\ DataOK(r, s.cur)
  /\ r.e = s.final

NotCrashed(r) == "panic" \notin DOMAIN r /\ "hang" \notin DOMAIN r

Outcomes(s, e) ==
  CASE s.mode = "broken" -> IF NotCrashed(e.r) THEN {[st |-> s, res |-> e.r]} ELSE {}
    [] e.op = "read" /\ s.mode # "broken" ->
         IF NotCrashed(e.r) /\ ReadOK(s, e, e.r) THEN {[st |-> After(s, e, e.r), res |-> e.r]} ELSE {}
    [] e.op = "rewind" /\ s.mode # "broken" ->
         {[st |-> [s EXCEPT !.mode = "play", !.cur = 0], res |-> [ok |-> TRUE]]}
    [] e.op = "drain" /\ s.mode # "broken" ->
         IF NotCrashed(e.r) /\ DrainOK(s, e.r)
         THEN {[st |-> [s EXCEPT !.cur = s.total, !.src = s.total], res |-> e.r]} ELSE {}
=============================================================================
