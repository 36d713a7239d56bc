------------------------------ MODULE Retarget ------------------------------
(* C09: the difficulty of a block from its predecessor's and the two times,
   and the fee of a difficulty.  All 256 demands, at every boundary the rule
   has between two times, at the ends of the 64-bit range and at random.     *)
EXTENDS Cases, U256, SequencesExt

INSTANCE BlockTree WITH
    Plus <- UPlus, Minus <- UMinus, Leq <- ULeq, Times <- UTimes,
    Zero <- UZero, MaxNum <- UMax, Root <- 1,
    FeeStep <- UFromInt(62500), GasPrice <- <<10752, 34023, 145>>,
    CoinsPerCycle <- <<0, 9280, 53284, 34884, 24071, 41>>,
    BlocksPerEpoch <- 1000000, BlockTime <- UFromInt(600),
    MinLz <- 1, MaxLz <- 256

Max64 == <<65535, 65535, 65535, 65535>>
Is64(x) == ULeq(x, Max64)
Befores == {<<>>, <<1>>, <<599>>, <<600>>, <<601>>, UFromInt(1597924800), <<0, 0, 1>>, <<65535, 65535>>,
            <<0, 0, 0, 32768>>, <<65535, 65535, 65535, 32767>>, UMinus(Max64, <<601>>), UMinus(Max64, <<600>>),
            UMinus(Max64, <<599>>), UMinus(Max64, <<1>>), Max64}
Steps == {<<>>, <<1>>, <<2>>, <<299>>, <<300>>, <<598>>, <<599>>, <<600>>, <<601>>, <<602>>, <<1199>>, <<1200>>, <<1201>>,
          UFromInt(3600), UFromInt(65536), UFromInt(66136), UFromInt(90000), UFromInt(700000), UFromInt(3000000), UFromInt(40000000), UFromInt(1000000000), <<0, 0, 1>>, <<600, 0, 1>>, <<0, 0, 0, 32768>>, <<600, 0, 0, 32768>>, Max64}
Good(q) == Is64(q[2])
PairSet == {q \in {<<p, UPlus(p, d)>> : p \in Befores, d \in Steps} : Good(q)}
           \union {<<p, UMinus(p, d)>> : <<p, d>> \in {z \in Befores \X Steps : ULeq(z[2], z[1])}}

RandomTime(k) == CASE k % 3 = 0 -> UTrim(<<RandomElement(0..65535), RandomElement(0..65535), RandomElement(0..65535), RandomElement(0..65535)>>)
                   [] k % 3 = 1 -> UTrim(<<RandomElement(0..65535), RandomElement(0..65535)>>)
                   [] OTHER -> UTrim(<<RandomElement(0..3000)>>)
\* close to one another more often than not
RandomPair(k) == LET near(p) == IF k % 2 = 0 THEN {RandomTime(k \div 2)}
                                ELSE {x \in {UPlus(p, UTrim(<<RandomElement(0..1300)>>))} : Is64(x)}
                 IN  CHOOSE z \in UNION {{<<p, t>> : t \in near(p) \union (IF near(p) = {} THEN {p} ELSE {})} : p \in {RandomTime(k)}} : TRUE
RandomCase(k) == CHOOSE c \in {[k |-> "retarget", lz |-> RandomElement(1..256), p |-> q[1], t |-> q[2]] : q \in {RandomPair(k)}} : TRUE

RetargetCases(n) ==
    SetToSeq({[k |-> "retarget", lz |-> z, p |-> q[1], t |-> q[2]] : z \in 0..256, q \in PairSet})
    \o [k \in 1..n |-> RandomCase(k)]

RetargetDiff(e) ==
    LET lz == Retarget(IF e.lz = 0 THEN 1 ELSE e.lz, e.p, e.t)
    IN  One("answers", e.r.res = "ok", "ok", e.r.res)
        \union One("leading zeros", e.r.lz = lz, lz, e.r.lz)
        \union One("nothing else changes", e.r.canon, TRUE, e.r.canon)
        \union One("fee", e.r.fee = Fee(lz), Fee(lz), e.r.fee)
=============================================================================
