----------------------------- MODULE ConcCases ------------------------------
(* Scenarios of several threads on one tree, for the harness, which explores the
   schedules; what it records is judged by Lin.                               *)
EXTENDS Cases, U256, SequencesExt

NoDiff(e) == {}
U(k) == UFromInt(k)
FeeNow == U(62500)                                  \* of a new tree's tip
Price == <<10752, 34023, 145>>

Scenario == [k |-> "", coin |-> <<>>, gas |-> <<>>, blocks |-> <<>>, txs |-> <<>>, threads |-> <<>>, der |-> FALSE, flushes |-> FALSE, epoch |-> FALSE]
Of(k, c, g, ths) == [Scenario EXCEPT !.k = k, !.coin = c, !.gas = g, !.threads = ths]

-----------------------------------------------------------------------------
(* ledger calls (C02): two or three accounts, the second of which may be nearly
   full                                                                        *)
Led(l, k, a, b, x) == [op |-> l, k |-> k, a |-> a, b |-> b, x |-> x]
Get(l, a) == [op |-> IF l = "coin" THEN "getcoin" ELSE "getgas", a |-> a]
Calls(l) == {Led(l, "add", 1, 0, U(1)), Led(l, "sub", 1, 0, U(3)), Led(l, "sub", 1, 0, U(5)),
             Led(l, "send", 1, 2, U(4)), Led(l, "send", 2, 1, U(2)), Led(l, "send", 1, 1, U(2)),
             Led(l, "add", 2, 0, U(7))}
            \union (IF l = "coin" THEN {Led(l, "set", 1, 0, U(11))} ELSE {})
Readers(l) == {<<>>, <<Get(l, 1), Get(l, 2)>>, <<Get(l, 2), Get(l, 1)>>, <<Get(l, 1), Get(l, 1)>>}
LedgerPairs ==
    {Of("ledger", <<U(5), U(3)>>, <<U(5), U(3)>>, IF r = <<>> THEN <<<<x>>, <<y>>>> ELSE <<<<x>>, <<y>>, r>>)
        : x \in Calls("coin"), y \in Calls("coin"), r \in Readers("coin")}
    \union {Of("ledger", <<U(5), U(3)>>, <<U(5), U(3)>>, IF r = <<>> THEN <<<<x>>, <<y>>>> ELSE <<<<x>>, <<y>>, r>>)
        : x \in Calls("gas"), y \in Calls("gas"), r \in Readers("gas")}
Full == UMinus(UMax, U(2))
NearlyFull ==
    {Of("ledger", <<U(5), Full>>, <<U(5), Full>>, <<<<x>>, <<y>>, <<Get(l, 2), Get(l, 1)>>>>)
        : l \in {"coin", "gas"},
          x \in {Led("coin", "add", 2, 0, U(2)), Led("coin", "send", 1, 2, U(2)), Led("gas", "add", 2, 0, U(2)), Led("gas", "send", 1, 2, U(2))},
          y \in {Led("coin", "sub", 2, 0, U(1)), Led("coin", "send", 1, 2, U(1)), Led("gas", "send", 2, 1, U(1)), Led("gas", "add", 2, 0, U(1))}}

\* an account nobody has touched yet (3)
Fresh ==
    UNION {{Of("ledger", <<U(5), U(3), UZero>>, <<U(5), U(3), UZero>>, <<<<x>>, <<y>>>> \o z)
        : x \in {Led(l, "add", 3, 0, U(2)), Led(l, "send", 1, 3, U(4)), Led(l, "send", 3, 2, U(0)), Led(l, "send", 3, 2, U(1))},
          y \in {Led(l, "add", 3, 0, U(5)), Led(l, "send", 2, 3, U(1)), Led(l, "sub", 3, 0, U(2))},
          z \in {<<>>, <<<<Get(l, 3), Get(l, 3)>>>>, <<<<Led(l, "add", 3, 0, U(16))>>>>}} : l \in {"coin", "gas"}}

SomeAmount(v) == OneOf(<<U(1), U(2), U(3), U(5), U(8), U(260), UZero, <<0, 1>>, UMax>>)
RandomCall(m) ==
    LET l == OneOf(<<"coin", "coin", "gas">>) IN
    CASE RandomElement(1..6) <= 2 -> Get(l, RandomElement(1..m))
      [] OTHER -> Led(l, IF l = "coin" THEN OneOf(<<"add", "sub", "set", "send", "send">>) ELSE OneOf(<<"add", "sub", "send">>),
                      RandomElement(1..m), RandomElement(1..m), SomeAmount(m))
RandomLedger(v) ==
    LET m == RandomElement(1..3) IN
    Of("ledger", [a \in 1..m |-> SomeAmount(v)], [a \in 1..m |-> SomeAmount(v)],
       [t \in 1..RandomElement(2..3) |-> [j \in 1..RandomElement(1..3) |-> RandomCall(m)]])
LedgerCases(n) == SetToSeq(LedgerPairs) \o SetToSeq(NearlyFull) \o SetToSeq(Fresh) \o [j \in 1..n |-> RandomLedger(j)]

-----------------------------------------------------------------------------
(* the standalone funds database (C18): additions and removals (of something, from
   those who have something) and reads                                         *)
FundCalls == {Led("coin", k, a, 0, U(x)) : k \in {"add", "sub"}, a \in 1..2, x \in {1, 3, 5}}
FundReads == {<<>>, <<Get("coin", 1), Get("coin", 2)>>, <<Get("coin", 1), Get("coin", 1)>>}
Fund(c, ths) == Of("funds", c, [a \in DOMAIN c |-> UZero], ths)
FundPairs ==
    {Fund(<<U(5), c>>, IF r = <<>> THEN <<<<x>>, <<y>>>> ELSE <<<<x>>, <<y>>, r>>)
        : x \in FundCalls, y \in {z \in FundCalls : z.a = 1}, r \in FundReads, c \in {U(4), UMinus(UMax, U(2))}}
FundFresh ==
    {Fund(<<UZero, U(4)>>, <<<<Led("coin", "add", 1, 0, x)>>, <<Led("coin", k, 1, 0, y)>>>> \o r)
        : x \in {U(2), UMax}, k \in {"add", "sub"}, y \in {U(1), U(2), U(3)}, r \in {<<>>, <<<<Get("coin", 1)>>>>, <<<<Led("coin", "add", 1, 0, U(8))>>>>}}
FundCall(m) ==
    IF RandomElement(1..6) = 1 THEN Get("coin", RandomElement(1..m))
    ELSE Led("coin", OneOf(<<"add", "add", "sub">>), RandomElement(1..m), 0, OneOf(<<U(1), U(2), U(3), U(5), U(8), U(260), <<0, 1>>, UMax>>))
RandomFunds(v) ==
    LET m == RandomElement(1..2) IN
    Fund([a \in 1..m |-> OneOf(<<U(1), U(5), U(260), <<0, 1>>, UMinus(UMax, U(3))>>)],
         [t \in 1..RandomElement(2..3) |-> [j \in 1..RandomElement(1..3) |-> FundCall(m)]])
FundCases(n) == (IF n < 100 THEN SubSeq(SetToSeq(FundFresh \union FundPairs), 1, 4 * n) ELSE SetToSeq(FundFresh \union FundPairs)) \o [j \in 1..n |-> RandomFunds(j)]

-----------------------------------------------------------------------------
(* submissions (C04): a transaction moves x from a to b; its encoding has as many
   bytes as the amount needs, and d bytes of data                              *)
RECURSIVE Bytes(_)
Bytes(x) == IF x = <<>> THEN 0 ELSE 2 * (Len(x) - 1) + (IF x[Len(x)] > 255 THEN 2 ELSE 1)
TxSize(t) == 1 + 33 + 33 + 8 + 64 + 1 + Bytes(t.x) + t.d
Tx(a, b, x, d) == [a |-> a, b |-> b, x |-> x, d |-> d]
Submit(t) == [op |-> "submit", tx |-> t]
Credit(l, a, x) == Led(l, "add", a, 0, x)
Cost(t) == UTimes(Price, TxSize(t))
\* coins: fee and what the first k transactions of account 1 move, and e more (or less)
RECURSIVE Moves(_, _), Burns(_, _)
Moves(ts, k) == IF k = 0 THEN UZero ELSE UPlus(Moves(ts, k - 1), IF ts[k].a = 1 THEN ts[k].x ELSE UZero)
Burns(ts, k) == IF k = 0 THEN UZero ELSE UPlus(Burns(ts, k - 1), IF ts[k].a = 1 THEN Cost(ts[k]) ELSE UZero)
Nudge(x, e) == IF e >= 0 THEN UPlus(x, U(e)) ELSE IF ULeq(U(0 - e), x) THEN UMinus(x, U(0 - e)) ELSE UZero
Capped(x) == IF ULeq(x, UMax) THEN x ELSE UMax
Sub(ts, kc, ec, kg, eg, ths) ==
    LET rich == UTimes(Price, 2000) IN
    [Scenario EXCEPT !.k = "submit", !.txs = ts, !.threads = ths,
        !.coin = [a \in 1..3 |-> IF a = 1 THEN Capped(Nudge(UPlus(FeeNow, Moves(ts, kc)), ec)) ELSE IF a = 2 THEN U(100000) ELSE UZero],
        !.gas  = [a \in 1..3 |-> IF a = 1 THEN Nudge(Burns(ts, kg), eg) ELSE IF a = 2 THEN rich ELSE UZero]]
T1 == Tx(1, 2, U(1000), 0)
T2 == Tx(1, 2, U(700), 0)
T3 == Tx(2, 1, U(500), 0)
T4 == Tx(1, 1, U(300), 1)
T5 == Tx(1, 3, U(90000), 0)
Two(x, y) == <<<<Submit(1)>>, <<Submit(2)>>>>
With3(th) == <<<<Submit(1)>>, <<Submit(2)>>, th>>
Extras == {<<>>, <<Get("coin", 1), Get("coin", 2)>>, <<Get("gas", 1), Get("gas", 1)>>, <<Get("coin", 2), Get("gas", 1)>>,
           <<Credit("coin", 1, U(700))>>, <<Credit("gas", 1, Cost(T1))>>, <<[op |-> "tx", tx |-> 1], Get("gas", 1)>>,
           <<Get("gas", 1), [op |-> "tx", tx |-> 2]>>}
SubmitPairs ==
    UNION {{Sub(ts, kc, ec, kg, eg, IF e = <<>> THEN <<<<Submit(1)>>, <<Submit(2)>>>> ELSE With3(e))
        : kc \in 0..2, ec \in {-1, 0}, kg \in {1, 2}, eg \in {0}, e \in Extras} : ts \in {<<T1, T2>>, <<T1, T3>>}}
    \union {Sub(<<x, y>>, kc, 0, kg, eg, <<<<Submit(1)>>, <<Submit(2)>>>>)
        : x \in {T1, T4, T5}, y \in {T2, T3, T4, T5}, kc \in 1..2, kg \in 1..2, eg \in {-1, 0}}
RandomTx(v) == Tx(RandomElement(1..2), RandomElement(1..3), OneOf(<<UZero, U(1), U(700), U(1000), U(62500), UMax>>), OneOf(<<0, 0, 1, 20>>))
RandomSubmit(v) ==
    LET m == RandomElement(2..4)
        ts == [j \in 1..m |-> IF RandomElement(1..2) = 1 THEN Tx(1, RandomElement(1..3), U(700 + j), 0) ELSE RandomTx(j)]
        \* the transactions are shared out among the threads
        k == RandomElement(1..(m - 1))
        first == [j \in 1..k |-> Submit(j)]
        second == [j \in 1..(m - k) |-> Submit(k + j)]
        x == OneOf(<<<<>>, <<Get("coin", 1), Get("coin", 2)>>, <<Get("gas", 1), Get("coin", 1)>>, <<Credit("coin", 1, U(700))>>,
                     <<Credit("gas", 1, Cost(T1)), Get("gas", 1)>>, <<[op |-> "tx", tx |-> 1], [op |-> "tx", tx |-> 2]>>>>)
    IN  Sub(ts, RandomElement(1..m), OneOf(<<-1, 0, 0, 1, 5>>), RandomElement(1..m), OneOf(<<-1, 0, 0, 1>>),
            IF x = <<>> THEN <<first, second>> ELSE <<first, second, x>>)
SubmitCases(n) == SetToSeq(SubmitPairs) \o [j \in 1..n |-> RandomSubmit(j)]

-----------------------------------------------------------------------------
(* chains (C05, C06): blocks with their heights, relative to the chain's          *)
App(b) == [op |-> "append", b |-> b]
AppTx(b, ts) == [op |-> "append+", b |-> b, txs |-> ts]
AtH(h) == [op |-> "at", h |-> h]
ByHash(b) == [op |-> "hash", b |-> b]
GetLast == [op |-> "last"]
Height == [op |-> "height"]
Mine(on) == [op |-> "mine", on |-> on]
Chn(d, bs, ths) == [Scenario EXCEPT !.k = "chain", !.der = d, !.blocks = bs, !.threads = ths,
                                    !.txs = IF d THEN <<>> ELSE <<Tx(1, 2, U(1), 0), Tx(2, 1, U(2), 3)>>,
                                    !.coin = <<UZero, UZero>>, !.gas = <<UZero, UZero>>]
ChainReaders == {<<>>, <<Height, AtH(0)>>, <<GetLast, Height>>, <<ByHash(1), GetLast>>, <<AtH(0), ByHash(1)>>, <<AtH(0), AtH(1)>>,
                 <<ByHash(2), AtH(1)>>, <<ByHash(1), ByHash(1)>>, <<GetLast, GetLast>>, <<Height, GetLast, AtH(1)>>}
Thr(a, b, r) == IF r = <<>> THEN <<a, b>> ELSE <<a, b, r>>
ChainPairs(d) ==
    {Chn(d, <<0, 0, 1>>, Thr(<<App(1)>>, <<App(2)>>, r)) : r \in ChainReaders}
    \union {Chn(d, <<0, 1>>, Thr(<<App(1)>>, <<App(2)>>, r)) : r \in ChainReaders}
    \union {Chn(d, <<0, 1, 0>>, Thr(<<App(1), App(2)>>, <<App(3)>>, r)) : r \in ChainReaders}
    \union {Chn(d, <<0, 0, 1, 1>>, <<<<App(1), App(3)>>, <<App(2), App(4)>>>>), Chn(d, <<0, 0, 0>>, <<<<App(1)>>, <<App(2)>>, <<App(3)>>>>),
            Chn(d, <<0, 1, 2>>, <<<<App(1)>>, <<App(2)>>, <<App(3)>>>>), Chn(d, <<-1, 0>>, <<<<App(1)>>, <<App(2)>>>>),
            Chn(d, <<0, 0>>, <<<<App(1)>>, <<App(1)>>, <<ByHash(1), Height>>>>)}
    \union {Chn(d, <<0, 1>>, Thr(<<Mine(0)>>, <<App(1)>>, r)) : r \in ChainReaders}
    \union {Chn(d, <<0, 1>>, Thr(<<Mine(1)>>, <<App(1)>>, r)) : r \in ChainReaders}
    \union {Chn(d, <<0, 1, 1>>, <<<<Mine(m)>>, <<App(1), App(2)>>>>) : m \in 0..2}
    \union {Chn(d, <<0, 1, 1>>, <<<<Mine(0), Mine(m)>>, <<App(1), App(2)>>>>) : m \in 1..3}
Stores ==
    {Chn(FALSE, <<0, 0>>, Thr(<<AppTx(1, <<1>>)>>, <<AppTx(2, <<2>>)>>, r))
        : r \in {<<>>, <<[op |-> "tx", tx |-> 1], GetLast>>, <<GetLast, [op |-> "tx", tx |-> 2]>>}}
    \union {Chn(FALSE, <<0, 0>>, <<<<AppTx(1, <<1, 2>>)>>, <<[op |-> "store", tx |-> 1], [op |-> "tx", tx |-> 2]>>>>),
            Chn(FALSE, <<0, 0>>, <<<<[op |-> "store", tx |-> 1]>>, <<[op |-> "store", tx |-> 1]>>, <<[op |-> "tx", tx |-> 1], [op |-> "tx", tx |-> 1]>>>>)}
ChainOp(d, m, mining) ==
    CASE RandomElement(1..10) <= 5 -> App(RandomElement(1..m))
      [] OTHER -> OneOf(<<AtH(RandomElement(0..2)), ByHash(RandomElement(1..m)), GetLast, Height>>)
RandomChain(d, v) ==
    LET m == RandomElement(2..4)
        bs == [j \in 1..m |-> OneOf(<<0, 0, 1, 1, 2, -1, 3>>)]
        mining == RandomElement(1..3) = 1
        th(k) == [j \in 1..RandomElement(1..3) |-> ChainOp(d, m, k = 1)]
    IN  Chn(d, bs, IF mining THEN <<<<Mine(RandomElement(0..m))>>, th(2)>> ELSE [k \in 1..RandomElement(2..3) |-> th(k)])
MainCases(n) == SetToSeq(ChainPairs(FALSE)) \o SetToSeq(Stores) \o [j \in 1..n |-> RandomChain(FALSE, j)]
DerCases(n) == SetToSeq(ChainPairs(TRUE)) \o [j \in 1..n |-> RandomChain(TRUE, j)]

-----------------------------------------------------------------------------
(* the end of an epoch is mined while others append to the chain, read it and store
   transactions (C10): the root's coins tell whether an allotment was made           *)
Epo(bs, ths) == [Chn(FALSE, bs, ths) EXCEPT !.epoch = TRUE, !.coin = <<U(5), U(3)>>, !.gas = <<UZero, U(4)>>]
EpochPairs ==
    {Epo(<<0, 1>>, Thr(<<Mine(0)>>, <<App(1)>>, r)) : r \in ChainReaders}
    \union {Epo(<<1, 0, 2>>, Thr(<<Mine(0)>>, <<App(1)>>, r)) : r \in ChainReaders}
    \union {Epo(<<0, 1>>, <<<<Mine(0)>>, x>>) : x \in ChainReaders \ {<<>>}}
    \union {Epo(<<0, 1, 1>>, <<<<Mine(0), Mine(m)>>, <<App(1), App(2)>>>>) : m \in 0..3}
    \union {Epo(<<0, 1>>, <<<<Mine(0)>>, <<[op |-> "store", tx |-> 1], [op |-> "tx", tx |-> 1], App(2)>>>>),
            Epo(<<0, 1>>, <<<<Mine(0)>>, <<AppTx(1, <<1, 2>>)>>, <<GetLast, [op |-> "tx", tx |-> 2]>>>>)}
RandomEpoch(v) ==
    LET m == RandomElement(2..4)
        bs == [j \in 1..m |-> OneOf(<<0, 1, 1, 2, -1>>)]
    IN  Epo(bs, <<<<Mine(0)>> \o (IF RandomElement(1..2) = 1 THEN <<>> ELSE <<Mine(RandomElement(0..m))>>), [j \in 1..RandomElement(1..3) |-> ChainOp(FALSE, m, FALSE)]>>)
EpochCases(n) == SetToSeq(EpochPairs) \o [j \in 1..n |-> RandomEpoch(j)]

-----------------------------------------------------------------------------
(* flushes while others go on, then a kill (C11, C12)                            *)
Flush == [op |-> "flush"]
DFlush == [op |-> "dflush"]
Fls(d, bs, ths) == [Chn(d, bs, ths) EXCEPT !.k = "flush", !.flushes = TRUE, !.coin = <<U(5), U(3)>>, !.gas = <<U(5), U(3)>>]
Rich(sc) == [sc EXCEPT !.coin = <<U(100000), U(100000)>>, !.gas = <<UTimes(Price, 2000), UTimes(Price, 2000)>>]
FlushCases(n) ==
    SetToSeq({Rich(Fls(FALSE, <<0, 1>>, ths))
        : ths \in {<<<<Flush>>, <<Submit(1), Submit(2)>>>>, <<<<Submit(1), Flush>>, <<Submit(2), App(1)>>>>,
                   <<<<Flush, Flush>>, <<Submit(1)>>, <<Submit(2)>>>>, <<<<Submit(2), Flush>>, <<Flush, App(1), Led("coin", "send", 2, 1, U(3))>>>>}})
    \o
    SetToSeq({Fls(d, <<0, 1, 2>>, ths)
        : d \in {TRUE, FALSE},
          ths \in {<<<<App(1), App(2)>>, <<DFlush>>>>, <<<<App(1), DFlush>>, <<App(2)>>>>, <<<<App(1), App(2), App(3)>>, <<DFlush, DFlush>>>>,
                   <<<<App(1), DFlush>>, <<App(2), DFlush>>>>, <<<<DFlush>>, <<DFlush>>, <<App(1)>>>>}})
    \o SetToSeq({Fls(FALSE, <<0, 1>>, ths)
        : ths \in {<<<<App(1), App(2)>>, <<Flush>>>>, <<<<App(1), Flush>>, <<App(2)>>>>, <<<<Flush>>, <<Flush>>, <<App(1)>>>>,
                   <<<<Flush>>, <<Led("coin", "send", 1, 2, U(4)), Led("gas", "send", 2, 1, U(2))>>>>,
                   <<<<Flush>>, <<Led("coin", "add", 1, 2, U(4)), App(1), [op |-> "store", tx |-> 1]>>>>,
                   <<<<AppTx(1, <<1, 2>>), Flush>>, <<Led("coin", "send", 1, 2, U(4)), App(2)>>>>}})
=============================================================================
