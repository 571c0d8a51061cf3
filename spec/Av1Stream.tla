----------------------------- MODULE Av1Stream ------------------------------
(***************************************************************************)
(* AV1 low-overhead bitstream (5.2), OBU header (5.3.2), LEB128 (4.10.5).  *)
(* The wire has sizes inside OBUs; the API has OBUs without them.          *)
(***************************************************************************)
EXTENDS Bits

Fail == [err |-> TRUE]

\* number of bytes of the LEB128 at position i (1-based), 0 if cut or too long
RECURSIVE LebLen(_, _, _)
LebLen(b, i, n) ==
  IF n = 8 \/ i > Len(b) THEN 0
  ELSE IF b[i] < 128 THEN n + 1 ELSE LebLen(b, i + 1, n + 1)

\* its value as bits, most significant first
LebBits(b, i, n) == Flat([k \in 1 .. n |-> ToBits(b[i + n - k] % 128, 7)])
Fits(bs) == \A k \in 1 .. Len(bs) - 32 : bs[k] = 0
LebOK(b, i) == LET n == LebLen(b, i, 0) IN n > 0 /\ Fits(LebBits(b, i, n))

LebDecode(b) ==
  LET n == LebLen(b, 1, 0) IN
  IF ~LebOK(b, 1) THEN Fail
  ELSE [v |-> Limbs32(LET x == LebBits(b, 1, n) IN IF Len(x) > 32 THEN LastN(x, 32) ELSE x), n |-> n]

\* minimal encoding of a 32-bit value
RECURSIVE LebGroups(_)
LebGroups(bs) == \* bs: 35 bits, groups of 7 from the least significant
  LET low == Val(LastN(bs, 7))
      up == SubSeq(bs, 1, Len(bs) - 7)
  IN IF \A k \in 1 .. Len(up) : up[k] = 0 THEN <<low>> ELSE <<low + 128>> \o LebGroups(up)
LebEncode(v) == LebGroups(PadTo(LimbBits(v), 35))

Header(b) ==
  IF Len(b) < 1 THEN Fail
  ELSE IF b[1] >= 128 THEN Fail                  \* forbidden bit
  ELSE IF (b[1] \div 4) % 2 = 1 THEN Fail        \* extensions are not supported
  ELSE [type |-> (b[1] \div 8) % 16, size |-> (b[1] \div 2) % 2 = 1]

IsFail(x) == "err" \in DOMAIN x
Huge == 2 ^ 24

\* <<ok, obus>>
RECURSIVE Units(_)
Units(b) ==
  LET h == Header(b) IN
  IF IsFail(h) THEN <<FALSE, <<>>>>
  ELSE IF ~h.size THEN <<FALSE, <<>>>>
  ELSE IF ~LebOK(b, 2) THEN <<FALSE, <<>>>>
  ELSE LET n == LebLen(b, 2, 0)
           x == LebBits(b, 2, n)
           small == \A k \in 1 .. Len(x) - 24 : x[k] = 0
           size == IF small THEN Val(IF Len(x) > 24 THEN LastN(x, 24) ELSE x) ELSE Huge
           e == 1 + n + size
       IN IF e > Len(b) THEN <<FALSE, <<>>>>
          ELSE LET u == <<b[1] - 2>> \o SubSeq(b, n + 2, e)
               IN IF e = Len(b) THEN <<TRUE, <<u>>>>
                  ELSE LET r == Units(SubSeq(b, e + 1, Len(b))) IN <<r[1], <<u>> \o r[2]>>

Decode(b) == LET r == Units(b) IN IF r[1] THEN [obus |-> r[2]] ELSE Fail

\* an OBU that already carries its size is written as is
EncodeOne(u) ==
  IF Header(u).size THEN u
  ELSE <<u[1] + 2>> \o LebEncode(<<(Len(u) - 1) \div 65536, (Len(u) - 1) % 65536>>) \o Tail(u)
Encode(us) ==
  IF \E i \in 1 .. Len(us) : IsFail(Header(us[i])) THEN Fail
  ELSE [buf |-> Flat([i \in 1 .. Len(us) |-> EncodeOne(us[i])])]

StartStates(cfg) == {0}
Outcomes(s, e) ==
  {[st |-> s, res |->
     CASE e.op = "lebdec" -> LebDecode(e.buf)
       [] e.op = "lebenc" -> LET x == LebEncode(e.v) IN [buf |-> x, n |-> Len(x), size |-> Len(x)]
       [] e.op = "obu" -> Header(e.buf)
       [] e.op = "dec" -> Decode(e.buf)
       [] e.op = "enc" -> Encode(e.obus)]}
=============================================================================
