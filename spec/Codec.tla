------------------------------- MODULE Codec --------------------------------
(* C14, C15: the encodings, byte by byte.

   Numbers are 32 bytes, big endian (n: "u256"), or any number of bytes
   without leading zeros ("big").  An encoded number is the count of its
   bytes followed by them, without leading zeros.                           *)
EXTENDS Cases, SequencesExt

TxHeader == 0
TxbHeader == 2
SumHeader == 4
DerHeader == 3

Zeros(n) == [j \in 1..n |-> 0]
Pad(s) == Zeros(32 - Len(s)) \o s
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[1] = 0 THEN Strip(Tail(s)) ELSE s

EncNum(n) == LET s == Strip(n) IN <<Len(s)>> \o s
EncInfo(v) == v.ts \o v.prev \o v.pow \o v.diff \o v.founder \o EncNum(v.height)
Enc(v) ==
    CASE v.t \in {"u256", "big"} -> EncNum(v.n)
      [] v.t = "tx"  -> <<TxHeader>> \o v.sender \o v.receiver \o v.ts \o v.sig \o EncNum(v.amount) \o v.data
      [] v.t = "txb" -> <<TxbHeader>> \o v.root \o EncInfo(v) \o EncNum(v.fee) \o FlattenSeq(v.txs)
      [] v.t = "sum" -> <<SumHeader>> \o v.root \o EncInfo(v)
      [] v.t = "der" -> <<DerHeader>> \o EncInfo(v)
      [] v.t = "info" -> EncInfo(v)

-----------------------------------------------------------------------------
(* decoding: [ok, v, next]; a byte string that is not ok has to be refused   *)

No == [ok |-> FALSE, v |-> <<>>, next |-> 0]
\* bytes i .. i+n-1
Cut(d, i, n) == SubSeq(d, i, i + n - 1)

DecNum(d, i, limit) ==
    IF i > Len(d) THEN No
    ELSE IF d[i] > limit \/ i + d[i] > Len(d) THEN No
    ELSE [ok |-> TRUE, v |-> Cut(d, i + 1, d[i]), next |-> i + d[i] + 1]

DecInfo(d, i, t) ==
    IF i + 137 > Len(d) THEN No
    ELSE LET h == DecNum(d, i + 137, 32) IN
         IF ~h.ok THEN No
         ELSE [ok |-> TRUE, next |-> h.next,
               v |-> [t |-> t, ts |-> Cut(d, i, 8), prev |-> Cut(d, i + 8, 32), pow |-> Cut(d, i + 40, 32),
                      diff |-> Cut(d, i + 72, 32), founder |-> Cut(d, i + 104, 33), height |-> Pad(h.v)]]

With(r, f, x) == [k \in DOMAIN r \union {f} |-> IF k = f THEN x ELSE r[k]]

DecTx(d) ==
    IF 139 > Len(d) THEN No
    ELSE LET a == DecNum(d, 139, 32) IN
         IF ~a.ok THEN No
         ELSE [ok |-> TRUE, next |-> Len(d) + 1,
               v |-> [t |-> "tx", sender |-> Cut(d, 1, 33), receiver |-> Cut(d, 34, 33), ts |-> Cut(d, 67, 8),
                      sig |-> Cut(d, 75, 64), amount |-> Pad(a.v), data |-> SubSeq(d, a.next, Len(d))]]
DecSum(d, i) ==
    IF i + 31 > Len(d) THEN No
    ELSE LET r == DecInfo(d, i + 32, "sum") IN IF ~r.ok THEN No ELSE [r EXCEPT !.v = With(@, "root", Cut(d, i, 32))]
DecTxb(d, i) ==
    IF i + 31 > Len(d) THEN No
    ELSE LET r == DecInfo(d, i + 32, "txb") IN
         IF ~r.ok THEN No
         ELSE LET f == DecNum(d, r.next, 32) IN
              IF ~f.ok THEN No
              ELSE IF (Len(d) + 1 - f.next) % 32 # 0 THEN No
              ELSE [ok |-> TRUE, next |-> Len(d) + 1,
                    v |-> With(With(With(r.v, "root", Cut(d, i, 32)), "fee", Pad(f.v)), "txs",
                               [j \in 1..((Len(d) + 1 - f.next) \div 32) |-> Cut(d, f.next + 32 * (j - 1), 32)])]
Dec(as, d) ==
    CASE as = "u256" -> LET n == DecNum(d, 1, 32) IN IF n.ok THEN [n EXCEPT !.v = [t |-> "u256", n |-> Pad(n.v)]] ELSE No
      [] as = "big"  -> LET n == DecNum(d, 1, 255) IN IF n.ok THEN [n EXCEPT !.v = [t |-> "big", n |-> Strip(n.v)]] ELSE No
      [] as = "tx"   -> DecTx(d)
      [] as = "info" -> DecInfo(d, 1, "info")
      [] as = "der"  -> DecInfo(d, 1, "der")
      [] as = "sum"  -> DecSum(d, 1)
      [] as = "txb"  -> DecTxb(d, 1)
      [] as = "main" -> IF d = <<>> THEN No
                        ELSE IF d[1] = TxbHeader THEN DecTxb(d, 2)
                        ELSE IF d[1] = SumHeader THEN DecSum(d, 2)
                        ELSE No

\* the encoding as the decoders take it
Plain(as, v) == LET e == Enc(v) IN IF as \in {"tx", "der", "sum", "txb"} THEN Tail(e) ELSE e

-----------------------------------------------------------------------------
(* what the property says of an answered case *)

SameValue(x, v) == x.t = v.t /\ \A f \in DOMAIN x : x[f] = v[f]

ValueDiff(e) ==
    LET r == e.r IN
    IF r.res # "ok" THEN {<<"encoding", "ok", r.res>>}
    ELSE One("announced size", r.size = Len(r.dump), Len(r.dump), r.size)
         \union One("hash", r.hash, "hash of the encoding", r.hash)
         \union One("decodes to an equal value", IF r.back.res = "ok" THEN SameValue(r.back.v, e.v) ELSE FALSE, e.v, r.back)
         \union One("same hash, size and encoding after decoding", r.again, TRUE, r.again)

BytesDiff(e) ==
    LET r == e.r
        x == Dec(e.as, e.d)
    IN  IF r.res = "panic" THEN {<<"answers", "a value or an error", "abort">>}
        ELSE IF ~x.ok THEN One("refused", r.res = "err", "err", r)
        ELSE One("content", IF r.res = "ok" THEN SameValue(r.v, x.v) ELSE TRUE, x.v, r)

(* values far too long to be written down here: their sizes, and that what is
   decoded is the same again, at every one of the places the harness compares *)
BulkSize(e) == IF e.t = "tx" THEN 1 + 33 + 33 + 8 + 64 + (1 + e.a) + e.m
               ELSE 1 + 32 + (8 + 32 + 32 + 32 + 33) + (1 + e.a) + (1 + e.b) + 32 * e.m
BulkDiff(e) ==
    LET r == e.r IN
    One("answers", r.res = "ok", "ok", r.res)
    \union One("announced size", r.size = BulkSize(e), BulkSize(e), r.size)
    \union One("bytes written", r.len = BulkSize(e), BulkSize(e), r.len)
    \union One("laid out as it should be", r.layout, TRUE, r.layout)
    \union One("hash", r.hash, "hash of the encoding", r.hash)
    \union One("decodes to an equal value", r.back = "ok", "ok", r.back)
    \union One("less is another or none", r.cut \in (IF e.t = "tx" THEN {"shorter"} ELSE {"err"}), IF e.t = "tx" THEN "shorter" ELSE "err", r.cut)

CodecDiff(e) == IF e.k = "bulk" THEN BulkDiff(e) ELSE IF e.k = "value" THEN ValueDiff(e) ELSE BytesDiff(e)

-----------------------------------------------------------------------------
(* the cases *)

Rnd(n) == [j \in 1..n |-> RandomElement(0..255)]
Fill(n, b) == [j \in 1..n |-> b]
\* a number of len bytes that starts with b
NumOf(len, b, style) ==
    IF len = 0 THEN <<>>
    ELSE <<b>> \o (CASE style = "zeros" -> Zeros(len - 1) [] style = "ones" -> Fill(len - 1, 255) [] OTHER -> Rnd(len - 1))
Num32(len, b, style) == Pad(NumOf(len, b, style))
AnyNum(k) == LET n == k % 33 IN Num32(n, RandomElement(1..255), "rnd")
Mod(a, b) == a - b * (a \div b)
Ts(m) == IF m = 0 THEN Zeros(8) ELSE IF m = 1 THEN Fill(8, 255) ELSE Zeros(m) \o Rnd(8 - m)
AnyTs(k) == Ts(Mod(k, 8))
Hash32(k) == CASE k % 11 = 0 -> Zeros(32) [] k % 11 = 1 -> Fill(32, 255) [] OTHER -> Rnd(32)

InfoFields(h, k) ==
    [ts |-> AnyTs(k), prev |-> Hash32(k), pow |-> Hash32(k \div 11), diff |-> Hash32(k \div 7),
     founder |-> Rnd(33), height |-> h]
TxOf(amount, data, k) ==
    [t |-> "tx", sender |-> Rnd(33), receiver |-> Rnd(33), ts |-> AnyTs(k), sig |-> Rnd(64), amount |-> amount, data |-> data]
SumOf(h, k) == With(With(InfoFields(h, k), "t", "sum"), "root", Hash32(k \div 3))
DerOf(h, k) == With(InfoFields(h, k), "t", "der")
TxbOf(h, fee, n, k) ==
    With(With(With(With(InfoFields(h, k), "t", "txb"), "root", Hash32(k \div 3)), "fee", fee), "txs", [j \in 1..n |-> Hash32(k + j)])

Case(v) == [k |-> "value", v |-> v]
Styles == <<"zeros", "ones", "rnd">>
Lead == <<1, 127, 128, 255>>
\* every length, the smallest and the largest of it and others
Numbers == FlattenSeq([len \in 1..33 |-> FlattenSeq([s \in 1..3 |-> [b \in 1..4 |-> Num32(len - 1, Lead[b], Styles[s])]])])
BigLens == <<0, 1, 2, 3, 8, 31, 32, 33, 64, 127, 128, 200, 254, 255>>
Bigs == FlattenSeq([l \in 1..Len(BigLens) |-> FlattenSeq([s \in 1..3 |-> [b \in 1..4 |-> NumOf(BigLens[l], Lead[b], Styles[s])]])])
DataLens == [j \in 1..70 |-> j - 1] \o <<127, 128, 255, 256, 257, 1000, 4095, 4096, 5000, 65535, 65536, 70001>>
Counts == [j \in 1..40 |-> j - 1] \o <<63, 64, 65, 127, 128, 255, 256, 257, 2047, 2048, 2100, 4097, 5000>>

(* any of the fields all zeros (b = 0) or as large as can be (b = 255), the
   others random; set: which of them                                       *)
Plain8(b, set, i, n) == IF (set \div (2 ^ (i - 1))) % 2 = 1 THEN Fill(n, b) ELSE Rnd(n)
ExtremeInfo(b, set) ==
    [ts |-> Plain8(b, set, 1, 8), prev |-> Plain8(b, set, 2, 32), pow |-> Plain8(b, set, 3, 32), diff |-> Plain8(b, set, 4, 32),
     founder |-> Plain8(b, set, 5, 33), height |-> Plain8(b, set, 6, 32)]
ExtremeSum(b, set) == With(With(ExtremeInfo(b, set), "t", "sum"), "root", Plain8(b, set, 7, 32))
ExtremeTxb(b, set) ==
    With(With(With(With(ExtremeInfo(b, set), "t", "txb"), "root", Plain8(b, set, 7, 32)), "fee", Plain8(b, set, 8, 32)),
         "txs", [j \in 1..(set % 3) |-> Plain8(b, set \div 3, j, 32)])
ExtremeTx(b, set) ==
    [t |-> "tx", sender |-> Plain8(b, set, 1, 33), receiver |-> Plain8(b, set, 2, 33), ts |-> Plain8(b, set, 3, 8),
     sig |-> Plain8(b, set, 4, 64), amount |-> Plain8(b, set, 5, 32), data |-> Plain8(b, set, 6, (set * 7) % 40)]
\* the two accounts are one
Himself(v) == With(v, "receiver", v.sender)
Extremes ==
    FlattenSeq([z \in 1..2 |->
        LET b == IF z = 1 THEN 0 ELSE 255 IN
        [j \in 1..64 |-> Case(With(ExtremeInfo(b, j - 1), "t", "der"))]
        \o [j \in 1..128 |-> Case(ExtremeSum(b, j - 1))]
        \o [j \in 1..256 |-> Case(ExtremeTxb(b, j - 1))]
        \o [j \in 1..64 |-> Case(ExtremeTx(b, j - 1))]
        \o [j \in 1..64 |-> Case(Himself(ExtremeTx(b, j - 1)))]])

Bulk(t, m, a, b) == [k |-> "bulk", t |-> t, m |-> m, a |-> a, b |-> b]
Mega == 1024 * 1024
BulkLens == <<99999, 131073, Mega - 139, Mega, Mega + 1, 16 * Mega + 1>>
BulkCounts == <<8193, 32767, 32768, 65535, 65536, 65537, 300001>>
Bulks == [j \in 1..(2 * Len(BulkLens)) |-> Bulk("tx", BulkLens[((j - 1) % Len(BulkLens)) + 1], (j * 7) % 33, 0)]
         \o [j \in 1..(2 * Len(BulkCounts)) |-> Bulk("txb", BulkCounts[((j - 1) % Len(BulkCounts)) + 1], (j * 5) % 33, (j * 11) % 33)]

ValueCases(n) ==
    Bulks \o
    Extremes \o
    [j \in 1..Len(Numbers) |-> Case([t |-> "u256", n |-> Numbers[j]])]
    \o [j \in 1..Len(Bigs) |-> Case([t |-> "big", n |-> Bigs[j]])]
    \o [j \in 1..Len(Numbers) |-> Case(TxOf(Numbers[j], Rnd(j % 4), j))]
    \o [j \in 1..Len(DataLens) |-> Case(TxOf(AnyNum(j), Rnd(DataLens[j]), j))]
    \o [j \in 1..40 |-> Case(TxOf(AnyNum(j), Zeros(j), j))]
    \o [j \in 1..40 |-> Case(With(TxOf(AnyNum(j), <<>>, j), "some", j % 2 = 0))]
    \o [j \in 1..Len(Numbers) |-> Case(SumOf(Numbers[j], j))]
    \o [j \in 1..Len(Numbers) |-> Case(DerOf(Numbers[j], j))]
    \o [j \in 1..Len(Numbers) |-> Case(TxbOf(Numbers[j], AnyNum(j * 7), j % 3, j))]
    \o [j \in 1..Len(Numbers) |-> Case(TxbOf(AnyNum(j * 5), Numbers[j], j % 3, j))]
    \o [j \in 1..Len(Counts) |-> Case(TxbOf(AnyNum(j), AnyNum(j * 3), Counts[j], j))]
    \o [j \in 1..n |->
            CASE j % 5 = 0 -> Case([t |-> "u256", n |-> AnyNum(RandomElement(0..32))])
              [] j % 5 = 1 -> Case(TxOf(AnyNum(RandomElement(0..32)), Rnd(RandomElement(0..100)), RandomElement(0..1000)))
              [] j % 5 = 2 -> Case(TxbOf(AnyNum(RandomElement(0..32)), AnyNum(RandomElement(0..32)), RandomElement(0..12), RandomElement(0..1000)))
              [] j % 5 = 3 -> Case(SumOf(AnyNum(RandomElement(0..32)), RandomElement(0..1000)))
              [] OTHER -> Case(DerOf(AnyNum(RandomElement(0..32)), RandomElement(0..1000)))]

-----------------------------------------------------------------------------

Bytes(as, d) == [k |-> "bytes", as |-> as, d |-> d]
Kinds == <<"u256", "big", "tx", "info", "der", "sum", "txb", "main", "main">>
\* a value of the k-th kind, with a number of len bytes
Base(k, len, m) ==
    CASE k = 1 -> [t |-> "u256", n |-> Num32(len, 200, "rnd")]
      [] k = 2 -> [t |-> "big", n |-> NumOf(len, 200, "rnd")]
      [] k = 3 -> TxOf(Num32(len, 3, "rnd"), Rnd(m), 5)
      [] k \in {4, 5} -> DerOf(Num32(len, 7, "rnd"), 5)
      [] k = 6 -> SumOf(Num32(len, 7, "rnd"), 5)
      [] k = 7 -> TxbOf(Num32(len, 7, "rnd"), Num32((len * 5) % 33, 9, "rnd"), m, 5)
      [] k = 8 -> SumOf(Num32(len, 7, "rnd"), 5)
      [] k = 9 -> TxbOf(Num32(len, 7, "rnd"), Num32((len * 5) % 33, 9, "rnd"), m, 5)
As(k) == Kinds[k]
Bare(k, v) == IF k \in {1, 2} THEN Enc(v) ELSE IF k = 4 THEN EncInfo(v) ELSE Plain(As(k), v)
Once(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE

Truncations(k, len, m) ==
    LET of(d) == [j \in 1..Len(d) |-> Bytes(As(k), SubSeq(d, 1, j - 1))] IN of(Bare(k, Base(k, len, m)))
Trailing(k, len, m) ==
    LET of(d) == [j \in 1..70 |-> Bytes(As(k), d \o Rnd(j))] IN of(Bare(k, Base(k, len, m)))
\* position of the first number's count
At(k) == CASE k \in {1, 2} -> 1 [] k = 3 -> 139 [] k \in {4, 5} -> 138 [] k \in {6, 7} -> 170 [] OTHER -> 171
Counted(k, len, m) ==
    LET of(d) == [j \in 1..256 |-> Bytes(As(k), [d EXCEPT ![At(k)] = j - 1])] IN of(Bare(k, Base(k, len, m)))
\* and of the second's
Counted2(k, len, m) ==
    LET of(d) == [j \in 1..256 |-> Bytes(As(k), [d EXCEPT ![At(k) + 1 + len] = j - 1])] IN of(Bare(k, Base(k, len, m)))
Headers(k, len, m) ==
    LET of(d) == [j \in 1..256 |-> Bytes(As(k), [d EXCEPT ![1] = j - 1])] IN of(Bare(k, Base(k, len, m)))
\* a number with z redundant zeros in front, in the place of the first or the second
Redundant(k, len, m, z, second) ==
    LET of(d) == LET i == IF second THEN At(k) + 1 + len ELSE At(k)
                 IN  Bytes(As(k), SubSeq(d, 1, i - 1) \o <<d[i] + z>> \o Zeros(z) \o SubSeq(d, i + 1, Len(d)))
    IN  of(Bare(k, Base(k, len, m)))
\* a few bytes replaced, removed or put in
Torn(k, len, m) ==
    LET of(d) == LET i == RandomElement(1..Len(d))
                     j == RandomElement(1..Len(d))
                 IN  CASE (i + j) % 3 = 0 -> [d EXCEPT ![i] = RandomElement(0..255), ![j] = RandomElement(0..255)]
                       [] (i + j) % 3 = 1 -> SubSeq(d, 1, i - 1) \o SubSeq(d, j, Len(d))
                       [] OTHER -> SubSeq(d, 1, i) \o Rnd(RandomElement(1..40)) \o SubSeq(d, i + 1, Len(d))
    IN  Bytes(As(k), of(Bare(k, Base(k, len, m))))

BytesCases(n) ==
    FlattenSeq([k \in 1..9 |->
        Truncations(k, 0, 1) \o Truncations(k, 1, 2) \o Truncations(k, 32, 0) \o Truncations(k, 9, 3)
        \o Trailing(k, 0, 1) \o Trailing(k, 7, 2)
        \o Counted(k, 0, 1) \o Counted(k, 5, 4) \o Counted(k, 32, 3)
        \o (IF k \in {7, 9} THEN Counted2(k, 0, 1) \o Counted2(k, 5, 0) \o Counted2(k, 32, 3) ELSE <<>>)
        \o (IF k \in {8, 9} THEN Headers(k, 1, 1) \o Headers(k, 20, 2) ELSE <<>>)
        \o FlattenSeq([z \in 1..8 |-> <<Redundant(k, 0, 1, z, FALSE), Redundant(k, 3, 1, z * 3, FALSE), Redundant(k, 32 - z, 2, z, FALSE)>>])
        \o (IF k \in {7, 9} THEN FlattenSeq([z \in 1..8 |-> <<Redundant(k, 0, 1, z, TRUE), Redundant(k, 3, 1, z, TRUE), Redundant(k, 13, 2, z, TRUE)>>]) ELSE <<>>)])
    \o <<Bytes("main", <<>>)>>
    \o [j \in 1..n |-> IF Mod(j, 3) = 0 THEN Bytes(Kinds[Mod(j \div 3, 9) + 1], Rnd(RandomElement(0..300)))
                       ELSE Torn(Mod(j \div 3, 9) + 1, RandomElement(0..32), RandomElement(0..4))]
=============================================================================
