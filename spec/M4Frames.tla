------------------------------ MODULE M4Frames ------------------------------
(* Byte-level framing of MPEG-4 audio, ISO 14496-3: ADTS (1.A.5) and AudioSyncStream (1.36). *)
EXTENDS Bits

Rates == <<96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350>>
RateIdx(r) == IF \E i \in 1 .. 13 : Rates[i] = r THEN (CHOOSE i \in 1 .. 13 : Rates[i] = r) - 1 ELSE 15
RateOf(i, explicit) == IF i = 15 THEN explicit ELSE Rates[i + 1]
Channels(c) == IF c = 7 THEN 8 ELSE c
MaxFrame == 5120

WantedChan(x) == IF x.chan # 0 THEN x.chan ELSE IF x.count \in 0 .. 6 THEN x.count ELSE IF x.count = 8 THEN 7 ELSE -1

\* ---- AudioSyncStream
RECURSIVE Ass(_, _)
Ass(b, acc) ==
  IF Len(b) < 3 THEN [err |-> TRUE]
  ELSE LET n == (b[2] % 32) * 256 + b[3] IN
       IF b[1] # 86 \/ b[2] \div 32 # 7 \/ Len(b) < 3 + n THEN [err |-> TRUE]
       ELSE LET els == Append(acc, SubSeq(b, 4, 3 + n)) IN
            IF Len(b) = 3 + n THEN [els |-> els] ELSE Ass(SubSeq(b, 4 + n, Len(b)), els)
AssEnc(els) == Flat([k \in 1 .. Len(els) |-> <<86, 224 + (Len(els[k]) \div 256), Len(els[k]) % 256>> \o els[k]])

\* ---- ADTS
RECURSIVE Adts(_, _)
Adts(b, acc) ==
  IF Len(b) < 8 THEN [err |-> TRUE]
  ELSE LET n  == (b[4] % 4) * 2048 + b[5] * 8 + b[6] \div 32
           fi == (b[3] \div 4) % 16
           ch == (b[3] % 2) * 4 + b[4] \div 64
       IN IF b[1] # 255 \/ b[2] < 240 \/ b[2] % 2 = 0 \/ fi > 12 \/ n <= 7 \/ n - 7 > MaxFrame \/ b[7] % 4 # 0 \/ Len(b) < n
          THEN [err |-> TRUE]
          ELSE LET ps == Append(acc, [type |-> b[3] \div 64 + 1, rate |-> Rates[fi + 1], chan |-> ch, count |-> Channels(ch), au |-> SubSeq(b, 8, n)])
               IN IF Len(b) = n THEN [pkts |-> ps] ELSE Adts(SubSeq(b, n + 1, Len(b)), ps)
AdtsOne(p) ==
  LET n == Len(p.au) + 7
      c == WantedChan(p)
  IN <<255, 241, (p.type - 1) * 64 + RateIdx(p.rate) * 4 + c \div 4, (c % 4) * 64 + n \div 2048, (n \div 8) % 256, (n % 8) * 32 + 31, 252>> \o p.au
AdtsEncodable(p) == p.type \in 1 .. 4 /\ RateIdx(p.rate) # 15 /\ WantedChan(p) \in 0 .. 7 /\ Len(p.au) + 7 < 8192
=============================================================================
