--------------------------- MODULE MCMpeg4Audio -----------------------------
(* Both directions of the specification agree: what is encoded decodes to the same. *)
EXTENDS GenM4Vals
VARIABLE x
Payloads == {<<>>, <<1>>, <<255, 241, 76>>, [k \in 1 .. 300 |-> k % 256]}
Pkt(t, r, c, a) == [type |-> t, rate |-> r, chan |-> c, count |-> Channels(c), au |-> a]
Pkts == {Pkt(t, r, c, a) : t \in 1 .. 4, r \in {96000, 44100, 7350}, c \in 0 .. 7, a \in Payloads \ {<<>>}}
Asc0 == {AscOf([rate |-> r, cc |-> c, etype |-> t, erate |-> q, short |-> s, dep |-> d, delay |-> l]) :
          r \in {96000, 7350, 1, 16777215}, c \in {<<k, Channels(k)>> : k \in 0 .. 7}, t \in {0, 5, 29}, q \in {8000, 5}, s \in BOOLEAN, d \in BOOLEAN, l \in {0, 16383}}
Smcs == {SmcOf([sub |-> s, progs |-> SVals.progs[p], other |-> o, otherlen |-> l, crc |-> c, crcsum |-> 165]) :
          s \in {0, 63}, p \in 1 .. Len(SVals.progs), o \in BOOLEAN, l \in {SVals.otherlen[k] : k \in 1 .. Len(SVals.otherlen)}, c \in BOOLEAN}
Ames == {AmeOf([E0 EXCEPT !.sub = s, !.progs = ProgsA[p], !.present = r, !.same = q, !.start = t]) :
          s \in {0, 2}, p \in 1 .. Len(ProgsA), r \in BOOLEAN, q \in BOOLEAN, t \in {0, 3, 8}}
Init == x \in {[k |-> "asc", v |-> v] : v \in Asc0} \cup {[k |-> "smc", v |-> v] : v \in Smcs} \cup {[k |-> "ame", v |-> v] : v \in Ames}
              \cup {[k |-> "adts", v |-> <<p>>] : p \in Pkts} \cup {[k |-> "adts", v |-> <<p, Pkt(2, 48000, 2, <<0>>)>>] : p \in Pkts}
              \cup {[k |-> "ass", v |-> <<a, b>>] : a \in Payloads, b \in Payloads}
Next == UNCHANGED x
Trip == CASE x.k = "asc" -> With(LAMBDA d : d.ok /\ AscView(d.v) = x.v /\ Left(d) < 8, Dec(Asc, Begin(BitsOf(Bytes(Encode(Asc, AscVals(x.v)))))))
          [] x.k = "smc" -> With(LAMBDA d : d.ok /\ SmcView(d.v) = x.v /\ Left(d) < 8, Dec(Smc, Begin(BitsOf(Bytes(SmcBits(x.v))))))
          [] x.k = "ame" -> With(LAMBDA r : r = [odd |-> FALSE, r |-> [same |-> x.v.same, cfg |-> x.v.given[1], data |-> x.v.data]],
                                 Ame([buf |-> Bytes(AmeBits(x.v)), present |-> x.v.present,
                                      given |-> IF x.v.present /\ ~x.v.same THEN <<>> ELSE x.v.given]))
          [] x.k = "adts" -> Adts(Flat([k \in 1 .. Len(x.v) |-> AdtsOne(x.v[k])]), <<>>) = [pkts |-> x.v]
          [] x.k = "ass" -> Ass(AssEnc(x.v), <<>>) = [els |-> x.v]
=============================================================================
