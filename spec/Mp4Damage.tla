------------------------------ MODULE Mp4Damage -----------------------------
(***************************************************************************)
(* What may happen when any bytes are read as a MP4 file (fmp4.Init,       *)
(* fmp4.Parts, pmp4.Presentation).                                         *)
(*                                                                         *)
(* Result of reading: [end, kib, tracks, zero, again, kib2, odd]           *)
(*   end    "ok" or "err"                                                  *)
(*   kib    memory obtained, in KiB                                        *)
(*   tracks number of tracks;  zero: some time scale is zero               *)
(*   again  what has been read is written: "ok", "err", or "skip" if it    *)
(*          cannot be because payloads are missing                         *)
(*   kib2   memory obtained by the payload getters, at most                *)
(*   odd    some track is AC-3 or E-AC-3 with a rate that is not 48000,    *)
(*          44100 or 32000, or MPEG-4 audio with its channels described    *)
(*          by a program config element                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Fail == [err |-> TRUE]
\* occurrences of a box name in the file
Count(b, code) == LET n == {k \in 1 .. Len(b) - 3 : SubSeq(b, k, k + 3) = code} IN Len(SelectSeq([k \in 1 .. Len(b) |-> k \in n], LAMBDA x : x))
Trun == <<116, 114, 117, 110>>
Stts == <<115, 116, 116, 115>>

\* memory is proportional to the file, plus what the samples that a run or a
\* table may declare take: 19200 for a trun, 30 * 60 * 60 * 48 for a stts
Base(b) == 1024 + 2 * Len(b)
\* the samples of runs that are added to a track are kept in a single array
PartsKib(b) == LET n == Count(b, Trun) IN Base(b) + (20000 * n) + (80 * n * n)
\* 5184000 samples, 48 bytes and a pointer each, with room for growing
TableKib(b) == Base(b) + (Count(b, Stts) * 1500000)

StartStates(cfg) == {cfg}
Outcomes(s, e) ==
  LET keep(x) == {[st |-> s, res |-> x]}
      r == e.r
      okBound == CASE e.kind = "parts" -> r.kib <= PartsKib(e.buf)
                   [] e.kind = "init" -> r.kib <= Base(e.buf)
                   [] OTHER -> r.kib <= TableKib(e.buf)
  IN IF "end" \notin DOMAIN r THEN keep(Fail)
     ELSE IF ~okBound THEN keep(Fail)
     ELSE IF r.end = "err" THEN keep(r)
     \* a payload takes as much as the file, at most
     ELSE IF r.kib2 > (Len(e.buf) \div 1024) + 64 THEN keep(Fail)
     ELSE IF e.kind # "parts" /\ (r.tracks = 0 \/ r.zero) THEN keep(Fail)
     \* these are read but not written
     ELSE IF r.again = "err" /\ ~r.odd THEN keep(Fail)
     ELSE keep(r)
=============================================================================
