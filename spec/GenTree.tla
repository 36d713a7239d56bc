------------------------------ MODULE GenTree -------------------------------
(* The argument v of the operators only keeps TLC from evaluating them once and
   for all.

   Generates scripts of operations for the harness: random behaviours of the
   specification's operations, with arguments as classes ("the whole balance",
   "one more than fits", "one leading zero short", ...) which the harness makes
   concrete against the real tree.  The classes are those the specification's
   case distinctions are about, so that every branch of every operation is
   taken often.  Run with -simulate; each behaviour prints one script.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Profile, Depth
NAcc == 4

VARIABLES script, opened, era
vars == <<script, opened, era>>

\* F of v, with v evaluated once
Bind(v, F(_)) == CHOOSE r \in {F(k) : k \in {v}} : TRUE
Pick(s) == s[RandomElement(1..Len(s))]
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
\* a random element of a sequence of <<weight, element>>
RECURSIVE Total(_, _)
Total(ws, i) == IF i > Len(ws) THEN 0 ELSE ws[i][1] + Total(ws, i + 1)
RECURSIVE At(_, _, _)
At(ws, i, n) == IF n <= ws[i][1] THEN ws[i][2] ELSE At(ws, i + 1, n - ws[i][1])
Weigh(ws) == LET At1(n) == At(ws, 1, n) IN Bind(RandomElement(1..Total(ws, 1)), At1)

Acc(v) == RandomElement(1..NAcc)
Owner(v) == IF opened # {} /\ RandomElement(1..3) > 1 THEN RandomElement(opened) ELSE RandomElement(1..NAcc)

Amounts == <<<<2, "zero">>, <<2, "one">>, <<6, "small">>, <<4, "bal">>, <<3, "bal-">>, <<4, "bal+">>,
             <<8, "part">>, <<2, "half">>, <<1, "max">>, <<2, "room">>, <<2, "room+">>, <<2, "broom">>,
             <<3, "broom+">>, <<5, "byte">>, <<4, "tobyte">>, <<5, "rnd">>>>
LedgerOp(kind, v) ==
    LET Of(k) == IF k = "send" THEN [op |-> kind, k |-> k, a |-> Acc(v), b |-> Acc(v), x |-> Weigh(Amounts)]
                 ELSE [op |-> kind, k |-> k, a |-> Acc(v), x |-> Weigh(Amounts)]
    IN  Bind(Weigh(IF kind = "coin" THEN <<<<5, "add">>, <<4, "sub">>, <<2, "set">>, <<6, "send">>>>
                   ELSE <<<<5, "add">>, <<4, "sub">>, <<6, "send">>>>), Of)

Times == <<<<2, "same">>, <<2, "past">>, <<1, "zero">>, <<6, "early">>, <<3, "on-">>, <<4, "on">>, <<3, "on+">>,
           <<6, "late">>, <<2, "big">>, <<1, "max">>>>
Works == <<<<9, "exact">>, <<2, "more">>, <<3, "short">>, <<1, "none">>, <<2, "stale">>, <<2, "other">>, <<1, "zeros">>>>
MineOp(v) == [op |-> "mine", w |-> Weigh(Works), t |-> Weigh(Times), n |-> Weigh(<<<<9, "right">>, <<2, "wrong">>, <<1, "any">>>>)]
GoodMine(v) == [op |-> "mine", w |-> "ok", t |-> Weigh(Times), n |-> "right"]
Heights == <<<<9, "tip">>, <<3, "above">>, <<3, "below">>, <<2, "zero">>, <<2, "far">>, <<1, "byte">>, <<1, "huge">>, <<1, "wrap">>>>
AddBlockOp(v) == [op |-> "addblock", h |-> Weigh(Heights), kind |-> Weigh(<<<<5, "tx">>, <<1, "sum">>>>),
               lz |-> Weigh(<<<<4, "one">>, <<2, "two">>, <<3, "few">>>>), n |-> RandomElement(0..3)]
SubmitOp(v) == [op |-> "submit", a |-> Acc(v), b |-> Acc(v),
             x |-> Weigh(<<<<8, "spare">>, <<4, "spare+">>, <<3, "spare-">>, <<6, "part">>, <<3, "bal">>, <<2, "bal+">>,
                           <<3, "zero">>, <<3, "small">>, <<1, "max">>, <<3, "broom">>, <<3, "broom+">>, <<1, "nofee">>, <<1, "mfee">>, <<3, "byte">>>>),
             d |-> Weigh(<<<<9, "none">>, <<2, "empty">>, <<6, "one">>, <<12, "some">>, <<3, "long">>, <<1, "huge">>>>),
             g |-> Weigh(<<<<8, "exact">>, <<4, "short">>, <<3, "plus">>, <<1, "zero">>, <<2, "bytes-">>, <<4, "rich">>, <<3, "wide">>, <<1, "as is">>>>),
             c |-> Weigh(<<<<6, "as is">>, <<5, "exact">>, <<3, "short">>, <<3, "plus">>, <<3, "feeless">>, <<3, "wide">>>>)]
DMineOp(v) == [op |-> "dmine", o |-> Owner(v), w |-> Weigh(Works), t |-> Weigh(Times)]
DAddOp(v) == [op |-> "dadd", o |-> Owner(v), h |-> Weigh(Heights)]
DOpenOp(v) == [op |-> "dopen", o |-> Owner(v)]

Simple(n) == [op |-> n]

Weights == CASE Profile = "ledger" -> <<<<40, "coin">>, <<35, "gas">>, <<4, "odd">>, <<3, "submit">>, <<2, "goodmine">>, <<2, "flush">>, <<2, "close">>, <<1, "kill">>>>
             [] Profile = "submit" -> <<<<8, "coin">>, <<3, "gas">>, <<40, "submit">>, <<5, "resubmit">>, <<10, "goodmine">>, <<4, "addblock">>, <<2, "addtx">>, <<2, "flush">>, <<2, "close">>, <<2, "jump">>>>
             [] Profile = "chain"  -> <<<<30, "addblock">>, <<12, "mine">>, <<8, "addtx">>, <<4, "submit">>, <<4, "dmine">>, <<4, "flush">>, <<3, "close">>, <<3, "kill">>, <<2, "jump">>>>
             [] Profile = "der"    -> <<<<8, "addblock">>, <<6, "goodmine">>, <<20, "dmine">>, <<14, "dadd">>, <<10, "dopen">>, <<5, "dflush">>, <<4, "flush">>, <<4, "close">>, <<3, "kill">>, <<3, "jump">>>>
             [] Profile = "mine"   -> <<<<40, "mine">>, <<14, "dmine">>, <<4, "addblock">>, <<3, "dopen">>, <<2, "coin">>, <<2, "flush">>, <<2, "close">>, <<3, "jump">>>>
             [] Profile = "epoch"  -> <<<<14, "coin">>, <<12, "gas">>, <<14, "mine">>, <<5, "goodmine">>, <<4, "submit">>, <<4, "flush">>, <<4, "close">>, <<3, "kill">>, <<5, "jump">>, <<2, "addblock">>>>
             [] Profile = "durable" -> <<<<10, "coin">>, <<8, "gas">>, <<8, "submit">>, <<8, "goodmine">>, <<6, "addblock">>, <<4, "addtx">>, <<8, "dmine">>, <<4, "dadd">>, <<3, "dopen">>, <<9, "flush">>, <<6, "dflush">>, <<7, "close">>, <<8, "kill">>, <<1, "jump">>, <<6, "again">>, <<6, "dagain">>>>
             [] Profile = "peer" -> <<<<10, "coin">>, <<8, "gas">>, <<8, "submit">>, <<1, "resubmit">>, <<10, "goodmine">>, <<6, "mine">>, <<8, "addblock">>, <<5, "addtx">>, <<9, "dmine">>, <<5, "dadd">>, <<4, "dopen">>, <<2, "flush">>, <<2, "dflush">>, <<3, "rest">>, <<3, "jump">>>>
             [] OTHER -> <<<<1, "coin">>, <<1, "gas">>, <<1, "submit">>, <<1, "goodmine">>, <<1, "addblock">>, <<1, "dmine">>, <<1, "dadd">>, <<1, "dopen">>, <<1, "flush">>, <<1, "dflush">>, <<1, "close">>, <<1, "kill">>, <<1, "addtx">>>>

OpOf(k, v) ==
      CASE k \in {"coin", "gas"} -> LedgerOp(k, v)
        [] k = "submit" -> SubmitOp(v)
        [] k = "mine" -> MineOp(v)
        [] k = "goodmine" -> GoodMine(v)
        [] k = "odd" -> [op |-> k, k |-> Pick(<<"coin", "gas">>), a |-> Acc(v), x |-> Weigh(Amounts), y |-> Weigh(Amounts)]
        [] k = "addblock" -> AddBlockOp(v)
        [] k = "dmine" -> DMineOp(v)
        [] k = "dadd" -> DAddOp(v)
        [] k = "dopen" -> DOpenOp(v)
        [] k = "dagain" -> [op |-> k, o |-> Owner(v)]
        [] k = "dflush" -> [op |-> "dflush", o |-> Owner(v)]
        [] k = "jump" -> [op |-> "jump", h |-> 1000000 * (era + 1) - RandomElement(1..3)]
        [] OTHER -> Simple(k)
Op(v) == LET Of(k) == OpOf(k, v) IN Bind(Weigh(Weights), Of)

\* epochs that end with balances which differ in one respect
Tweak(v) == LET Of(k) == CASE k = "flip" -> [op |-> k, k |-> Pick(<<"coin", "gas">>), a |-> Acc(v)]
                           [] k = "swap" -> [op |-> k, k |-> Pick(<<"coin", "gas">>), a |-> Acc(v), b |-> Acc(v)]
                           [] k = "cross" -> [op |-> k, a |-> Acc(v)]
                           [] OTHER -> LedgerOp(k, v)
            IN  Bind(Weigh(<<<<8, "flip">>, <<3, "swap">>, <<2, "cross">>, <<2, "coin">>, <<2, "gas">>>>), Of)
Twin(v) == LET n == Len(script) IN
           IF n < 4 THEN [op |-> IF n % 2 = 0 THEN "gas" ELSE "coin", k |-> "add", a |-> Acc(v), x |-> "whole"]
           ELSE IF n < 8 THEN LedgerOp(Pick(<<"coin", "gas">>), v)
           ELSE CASE n % 3 = 2 -> [op |-> "jump", h |-> 1000000 * (era + 1) - 1]
                  [] n % 3 = 0 -> GoodMine(v)
                  [] OTHER -> Tweak(v)

Start(v) == CASE Profile = "epoch" -> <<Simple("open"), [op |-> "jump", h |-> 1000000 - RandomElement(1..4)]>>
           [] Profile \in {"submit", "ledger"} /\ RandomElement(1..2) = 1 ->
                <<Simple("open"), [op |-> "coin", k |-> "send", a |-> 1, b |-> 2, x |-> "part"],
                  [op |-> "coin", k |-> "send", a |-> 1, b |-> 3, x |-> "part"]>>
           [] OTHER -> <<Simple("open")>>

Init == /\ opened = {}
        /\ script \in {Start(opened)}
        /\ era = IF Profile = "epoch" THEN 1 ELSE 0

Next == /\ Len(script) < Depth
        /\ \E o \in {IF Profile = "twins" THEN Twin(script) ELSE Op(script)} :
            /\ script' = Append(script, o)
            /\ opened' = IF o.op \in {"dopen", "dmine", "dadd"} THEN opened \union {o.o} ELSE opened
            /\ era' = IF o.op = "jump" THEN era + 1 ELSE era
        /\ Len(script') = Depth => PrintT(<<"SCRIPT", ToJson(script')>>)

Spec == Init /\ [][Next]_vars
=============================================================================
