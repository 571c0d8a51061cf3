-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Bit-level view of byte buffers: the vocabulary of every bitstream       *)
(* specification here.  Bit 0 is the most significant bit of byte 1.       *)
(* Numbers that may exceed TLC's 32-bit integers are bit sequences, or     *)
(* sequences of 16-bit limbs (most significant first).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

Bit(buf, i) == (buf[(i \div 8) + 1] \div (2 ^ (7 - (i % 8)))) % 2

NBits(buf) == 8 * Len(buf)
HasBits(buf, pos, n) == n <= NBits(buf) - pos

BitSeq(buf, pos, n) == [i \in 1 .. n |-> Bit(buf, pos + i - 1)]

(* value of a sequence of at most 30 bits *)
Val(bs) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, bs)
U(buf, pos, n) == Val(BitSeq(buf, pos, n))
Flag(buf, pos) == Bit(buf, pos) = 1

(* bits of v on n positions, n <= 30 *)
ToBits(v, n) == [i \in 1 .. n |-> (v \div (2 ^ (n - i))) % 2]

PadTo(bs, n) == [i \in 1 .. n |-> IF i <= n - Len(bs) THEN 0 ELSE bs[i - (n - Len(bs))]]

(* k 16-bit limbs of a bit sequence of at most 16k bits *)
LimbsOf(bs, k) == LET p == PadTo(bs, 16 * k)
                  IN [j \in 1 .. k |-> Val(SubSeq(p, 16 * (j - 1) + 1, 16 * j))]
Limbs64(bs) == LimbsOf(bs, 4)
Limbs32(bs) == LimbsOf(bs, 2)

(* bits of a sequence of limbs *)
LimbBits(ls) == Flat([j \in 1 .. Len(ls) |-> ToBits(ls[j], 16)])

LastN(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))

(* subtract 1 from a non-zero binary number: flip the trailing zeros and the last one *)
Decr(bs) == LET one == CHOOSE i \in 1 .. Len(bs) :
                         bs[i] = 1 /\ \A j \in i + 1 .. Len(bs) : bs[j] = 0
            IN [i \in 1 .. Len(bs) |-> IF i < one THEN bs[i] ELSE IF i = one THEN 0 ELSE 1]

Incr(bs) == \* add 1, growing by one bit
  LET p == <<0>> \o bs
      z == CHOOSE i \in 1 .. Len(p) : p[i] = 0 /\ \A j \in i + 1 .. Len(p) : p[j] = 1
  IN [i \in 1 .. Len(p) |-> IF i < z THEN p[i] ELSE IF i = z THEN 1 ELSE 0]

Half(bs) == SubSeq(bs, 1, Len(bs) - 1)  \* floor(x / 2)

(* Exponential-Golomb codes (ITU-T H.264 9.1): z zero bits, a one, z bits.   *)
(* 32-bit values only: z <= 31.                                            *)
RECURSIVE LeadingZeros(_, _)
LeadingZeros(buf, pos) ==
  IF pos >= NBits(buf) THEN 1000
  ELSE IF Bit(buf, pos) = 1 THEN 0 ELSE 1 + LeadingZeros(buf, pos + 1)

GolombValid(buf, pos) ==
  LET z == LeadingZeros(buf, pos)
  IN z <= 31 /\ HasBits(buf, pos, 2 * z + 1)

GolombLen(buf, pos) == 2 * LeadingZeros(buf, pos) + 1

(* value as bits *)
GolombBits(buf, pos) ==
  LET z == LeadingZeros(buf, pos) IN Decr(BitSeq(buf, pos + z, z + 1))

(* signed value: magnitude as bits, and sign *)
GolombSigned(buf, pos) ==
  LET v   == GolombBits(buf, pos)
      odd == v[Len(v)] = 1
  IN [mag |-> IF odd THEN Half(Incr(v)) ELSE Half(v),
      neg |-> ~odd /\ \E i \in 1 .. Len(v) : v[i] = 1]

(* replace n bits of buf at pos *)
WriteBits(buf, pos, bs) ==
  LET newbit(i) == IF i >= pos /\ i < pos + Len(bs) THEN bs[i - pos + 1] ELSE Bit(buf, i)
  IN [k \in 1 .. Len(buf) |-> Val([j \in 1 .. 8 |-> newbit(8 * (k - 1) + j - 1)])]
=============================================================================
