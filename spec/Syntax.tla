------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* Interpreter of syntax tables, in both directions.                       *)
(*                                                                         *)
(* A table is a sequence of items, as in the syntax sections of codec      *)
(* specifications:                                                         *)
(*   <<"u", name, n>>          n-bit number (n <= 30)                       *)
(*   <<"w", name, n>>          n-bit number, 16 < n <= 32, as two limbs     *)
(*   <<"f", name>>             flag                                        *)
(*   <<"ue", name>>            unsigned Exp-Golomb code, as two limbs       *)
(*   <<"se", name>>            signed Exp-Golomb code, [neg, mag]           *)
(*   <<"if", c, items>>        items are present when Cond(c, values)       *)
(*   <<"def", name, x>>        value x, nothing in the bitstream            *)
(*   <<"calc", name>>          value Calc(name, values), ditto              *)
(*   <<"rep", name, c, items>> Count(c, values) times; a sequence of values *)
(*   <<"check", c>>            error unless Cond(c, values)                 *)
(*   <<"range", c>>            unless Cond(c, values) the outcome is        *)
(*                             unspecified (the element is out of range)   *)
(*   <<"ext", name>>           decoded by Ext(name, state)                  *)
(*   <<"fix", n, x>>           n bits of value x that are not checked       *)
(*   <<"fs", name, n>>         n flags; a sequence of booleans              *)
(*   <<"ses", name, c>>        Count(c, values) signed codes, not kept;      *)
(*                             they are encoded from name, cyclically       *)
(*                                                                         *)
(* Decoder state: b (bits), p (bits consumed), ok, odd (unspecified), v     *)
(* (values by name), ctx (values of the enclosing tables).                 *)
(***************************************************************************)
EXTENDS Bits, TLC, FiniteSetsExt

CONSTANTS Cond(_, _), Count(_, _), Calc(_, _), Ext(_, _), ExtEnc(_, _)
\* substituted in the .cfg file by the operators MyCond, MyCount, ... of the
\* codec module (an INSTANCE would make TLC lose its Java overrides)

NoValues == [x \in {} |-> 0]
BitsOf(buf) == [i \in 1 .. 8 * Len(buf) |-> Bit(buf, i - 1)]
Begin(bits) == [b |-> bits, p |-> 0, ok |-> TRUE, odd |-> FALSE, v |-> NoValues, ctx |-> NoValues]

Bad(s) == [s EXCEPT !.ok = FALSE]
Left(s) == Len(s.b) - s.p
Field(s, n) == SubSeq(s.b, s.p + 1, s.p + n)
Put(s, n, name, x) == [s EXCEPT !.p = @ + n, !.v = @ @@ (name :> x)]
Env(s) == s.v @@ s.ctx

\* a number of at most 2 limbs as an integer, saturated
N(x) == IF x[1] >= 16384 THEN 2 ^ 30 ELSE x[1] * 65536 + x[2]
L(n) == <<n \div 65536, n % 65536>>

\* signed numbers
SN(x) == IF x.neg THEN -N(x.mag) ELSE N(x.mag)
SL(n) == IF n < 0 THEN [neg |-> TRUE, mag |-> L(-n)] ELSE [neg |-> FALSE, mag |-> L(n)]

\* bind a value: TLC would evaluate a LET definition at every reference
With(F(_), x) == FoldLeft(LAMBDA a, b : F(a), x, <<0>>)

\* leading zeros of the Golomb code at the cursor, or -1
RECURSIVE GZ1(_, _, _)
GZ1(s, i, last) == IF i > last THEN -1 ELSE IF s.b[s.p + i] = 1 THEN i - 1 ELSE GZ1(s, i + 1, last)
GZ(s) == With(LAMBDA z : IF z >= 0 /\ 2 * z + 1 <= Left(s) THEN z ELSE -1,
              GZ1(s, 1, IF Left(s) < 32 THEN Left(s) ELSE 32))
GBits(s, z) == With(LAMBDA b : Decr(b), SubSeq(s.b, s.p + z + 1, s.p + 2 * z + 1))

Signed(bs) ==
  LET odd == bs[Len(bs)] = 1
  IN With(LAMBDA m : [neg |-> ~odd /\ m # <<0, 0>>, mag |-> m],
          Limbs32(IF odd THEN With(LAMBDA i : Half(i), Incr(bs)) ELSE Half(bs)))

\* one element on its own
GVal(s, z) == Val(SubSeq(s.b, s.p + z + 1, s.p + 2 * z + 1)) - 1 \* of a short code
SInt(k) == IF k % 2 = 1 THEN [neg |-> FALSE, mag |-> L((k + 1) \div 2)] ELSE [neg |-> k > 0, mag |-> L(k \div 2)]
RdUE(s, name) ==
  With(LAMBDA z : IF z < 0 THEN Bad(s)
                  ELSE Put(s, 2 * z + 1, name, IF z < 15 THEN With(LAMBDA k : L(k), GVal(s, z)) ELSE Limbs32(GBits(s, z))), GZ(s))
RdSE(s, name) ==
  With(LAMBDA z : IF z < 0 THEN Bad(s)
                  ELSE Put(s, 2 * z + 1, name, IF z < 15 THEN With(LAMBDA k : SInt(k), GVal(s, z))
                                               ELSE With(LAMBDA g : Signed(g), GBits(s, z))), GZ(s))
RdU(s, name, n) == IF Left(s) < n THEN Bad(s) ELSE Put(s, n, name, Val(Field(s, n)))
RdW(s, name, n) == IF Left(s) < n THEN Bad(s) ELSE Put(s, n, name, Limbs32(Field(s, n)))
RdF(s, name) == IF Left(s) < 1 THEN Bad(s) ELSE Put(s, 1, name, s.b[s.p + 1] = 1)

RECURSIVE Strip(_)
Strip(bs) == IF bs[1] = 1 THEN bs ELSE Strip(Tail(bs)) \* of a non-zero number
RECURSIVE Log2(_)
Log2(m) == IF m < 2 THEN 0 ELSE 1 + Log2(m \div 2)
GInt(k) == With(LAMBDA z : ToBits(k + 1, 2 * z + 1), Log2(k + 1)) \* short codes
GEnc(l) == IF l[1] = 0 /\ l[2] < 32767 THEN GInt(l[2])
           ELSE With(LAMBDA x : [i \in 1 .. Len(x) - 1 |-> 0] \o x,
                     With(LAMBDA y : Strip(y), With(LAMBDA z : Incr(z), LimbBits(l))))
SEnc(x) == \* k -> 2k - 1 when positive, -2k otherwise
  IF x.mag[1] = 0 /\ x.mag[2] < 16000
  THEN GInt(IF x.neg \/ x.mag[2] = 0 THEN 2 * x.mag[2] ELSE 2 * x.mag[2] - 1)
  ELSE With(LAMBDA d : GEnc(LimbsOf(IF ~x.neg /\ x.mag # <<0, 0>> THEN Decr(d) ELSE d, 3)),
            LimbBits(x.mag) \o <<0>>)

Bytes(bits) == \* zero padded
  [k \in 1 .. (Len(bits) + 7) \div 8 |->
    Val([j \in 1 .. 8 |-> IF 8 * (k - 1) + j <= Len(bits) THEN bits[8 * (k - 1) + j] ELSE 0])]
RBSP(bits) == Bytes(Append(bits, 1))

\* ---- generation of value assignments
\* vals: name -> non-empty sequence of interesting values, the first is the default.
\* A generator module defines Vals, Bases (a sequence) and NRandom, and takes
\* assignment Pick(i), i \in 1 .. Total: every value of every name on every base,
\* then random assignments.
Rand(seed, i, j) == LET a == (i * 7919 + j * 31337 + (seed % 1000) * 4111 + 12345) % 32749
                        c == (a * a + 7 * j + i) % 32719
                        d == (c * c + 31 * a + j) % 32693
                    IN (d * 61 + c) % 32687
Default(vals) == [n \in DOMAIN vals |-> vals[n][1]]
\* the names as a sequence, and as a function to their positions
SinglesOf(vals, bases) ==
  SetToSeq(UNION {{<<b, n, k>> : k \in 1 .. Len(vals[n])} : b \in 1 .. Len(bases), n \in DOMAIN vals})
OrderOf(vals) == With(LAMBDA q : [n \in DOMAIN vals |-> CHOOSE k \in 1 .. Len(q) : q[k] = n], SetToSeq(DOMAIN vals))
RandomOne(vals, order, seed, i) ==
  [n \in DOMAIN vals |-> vals[n][1 + (Rand(seed, i, order[n]) % Len(vals[n]))]]
PickOne(vals, bases, singles, order, seed, i) ==
  IF i <= Len(singles) THEN [bases[singles[i][1]] EXCEPT ![singles[i][2]] = vals[singles[i][2]][singles[i][3]]]
  ELSE RandomOne(vals, order, seed, i)

\* ---- decoder
RECURSIVE Dec(_, _), DecItem(_, _), DecRep(_, _, _, _)

Dec(items, s) == FoldLeft(LAMBDA x, it : IF x.ok THEN DecItem(it, x) ELSE x, s, items)

DecRep(items, s, n, i) == \* accumulates the list in s.v.list
  IF i > n \/ ~s.ok THEN s
  ELSE With(LAMBDA x : DecRep(items, x, n, i + 1),
            With(LAMBDA o : [o EXCEPT !.v = ("list" :> Append(s.v.list, o.v)), !.ctx = s.ctx],
                 Dec(items, [s EXCEPT !.v = NoValues, !.ctx = (("i" :> i) @@ ("prev" :> s.v.list)) @@ s.ctx])))

DecItem(it, s) ==
  LET k == it[1] IN
  CASE k = "u" -> RdU(s, it[2], it[3])
    [] k = "w" -> RdW(s, it[2], it[3])
    [] k = "f" -> RdF(s, it[2])
    [] k = "ue" -> RdUE(s, it[2])
    [] k = "se" -> RdSE(s, it[2])
    [] k = "if" -> IF Cond(it[2], Env(s)) THEN Dec(it[3], s) ELSE s
    [] k = "def" -> Put(s, 0, it[2], it[3])
    [] k = "calc" -> Put(s, 0, it[2], Calc(it[2], Env(s)))
    [] k = "rep" ->
         With(LAMBDA o : IF o.ok THEN [o EXCEPT !.v = s.v @@ (it[2] :> o.v.list), !.ctx = s.ctx] ELSE o,
              With(LAMBDA n : With(LAMBDA x : DecRep(it[4], x, n, 1), [s EXCEPT !.v = ("list" :> <<>>), !.ctx = Env(s)]),
                   Count(it[3], Env(s))))
    [] k = "check" -> IF Cond(it[2], Env(s)) THEN s ELSE Bad(s)
    [] k = "range" -> IF Cond(it[2], Env(s)) THEN s ELSE [s EXCEPT !.odd = TRUE]
    [] k = "ext" -> Ext(it[2], s)
    [] k = "fix" -> IF Left(s) < it[2] THEN Bad(s) ELSE [s EXCEPT !.p = @ + it[2]]
    [] k = "fs" -> IF Left(s) < it[3] THEN Bad(s)
                   ELSE Put(s, it[3], it[2], [i \in 1 .. it[3] |-> s.b[s.p + i] = 1])
    [] k = "ses" -> FoldLeft(LAMBDA x, i : IF ~x.ok THEN x
                                           ELSE With(LAMBDA z : IF z < 0 THEN Bad(x) ELSE [x EXCEPT !.p = @ + 2 * z + 1], GZ(x)),
                             s, [i \in 1 .. Count(it[3], Env(s)) |-> i])

\* ---- encoder: values by name -> bits
RECURSIVE Enc(_, _), EncItem(_, _)
Encode(items, v) == Enc(items, [bits |-> <<>>, v |-> v]).bits \* v may hold more than needed
Enc(items, st) == FoldLeft(LAMBDA acc, it : EncItem(it, acc), st, items)
EncItem(it, st) ==
  LET k == it[1]
      Out(x) == [st EXCEPT !.bits = @ \o x]
  IN
  CASE k = "u" -> Out(ToBits(st.v[it[2]], it[3]))
    [] k = "w" -> Out(LastN(LimbBits(st.v[it[2]]), it[3]))
    [] k = "f" -> Out(<<IF st.v[it[2]] THEN 1 ELSE 0>>)
    [] k = "ue" -> Out(GEnc(st.v[it[2]]))
    [] k = "se" -> Out(SEnc(st.v[it[2]]))
    [] k = "if" -> IF Cond(it[2], st.v) THEN Enc(it[3], st) ELSE st
    [] k = "def" -> [st EXCEPT !.v = (it[2] :> it[3]) @@ @]
    [] k = "calc" -> [st EXCEPT !.v = (it[2] :> Calc(it[2], st.v)) @@ @]
    [] k = "rep" -> \* elements are taken cyclically from the given ones
         LET l == st.v[it[2]]
             e(i) == (l[((i - 1) % Len(l)) + 1] @@ ("i" :> i)) @@ st.v
         IN FoldLeft(LAMBDA acc, i : [acc EXCEPT !.bits = Enc(it[4], [bits |-> @, v |-> e(i)]).bits],
                     st, [i \in 1 .. Min({Count(it[3], st.v), 300}) |-> i])
    [] k = "check" -> st
    [] k = "range" -> st
    [] k = "ext" -> Out(ExtEnc(it[2], st.v))
    [] k = "fix" -> Out(ToBits(it[3], it[2]))
    [] k = "fs" -> Out([i \in 1 .. it[3] |-> IF st.v[it[2]][i] THEN 1 ELSE 0])
    [] k = "ses" -> LET l == st.v[it[2]]
                    IN Out(Flat([i \in 1 .. Count(it[3], st.v) |-> SEnc(l[((i - 1) % Len(l)) + 1])]))

=============================================================================
