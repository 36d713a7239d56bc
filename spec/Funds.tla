------------------------------- MODULE Funds --------------------------------
(* C18: the standalone funds database.  Its ledger is BlockTree's; a kill goes
   on with what was on disk at that moment, and loses nothing.               *)
EXTENDS Cases, U256, SequencesExt

INSTANCE BlockTree WITH
    Plus <- UPlus, Minus <- UMinus, Leq <- ULeq, Times <- UTimes,
    Zero <- UZero, MaxNum <- UMax, Root <- 1,
    FeeStep <- UFromInt(62500), GasPrice <- <<10752, 34023, 145>>,
    CoinsPerCycle <- <<0, 9280, 53284, 34884, 24071, 41>>,
    BlocksPerEpoch <- 1000000, BlockTime <- UFromInt(600),
    MinLz <- 1, MaxLz <- 256

Allowed(f, known, v) ==
    CASE v.op = "add" -> LedgerAdd(f, v.a, v.x)
      [] v.op = "sub" -> IF v.a \notin known THEN {[res |-> "err", f |-> f]}
                         ELSE LedgerSub(f, v.a, v.x)
      [] OTHER -> {[res |-> "ok", f |-> f]}

\* known: addresses that were added to; nothing from an unknown one is nothing
\* either way, and so is nothing from an emptied one
RECURSIVE Run(_, _, _, _)
Run(e, k, f, known) ==
    IF k > Len(e.r) THEN {}
    ELSE LET v == e.r[k]
             w == Allowed(f, known, v)
                  \union (IF v.op = "sub" /\ v.x = <<>> /\ f[v.a] = <<>> THEN {[res |-> "ok", f |-> f], [res |-> "err", f |-> f]} ELSE {})
             fits == {y \in w : y.res = v.res}
             d == One(v.op \o ": result", fits # {}, {y.res : y \in w}, v.res)
                  \union One(v.op \o ": balances", v.bal \in {y.f : y \in IF fits # {} THEN fits ELSE w}, {y.f : y \in w}, v.bal)
                  \union One("unknown address", v.fresh = <<>>, <<>>, v.fresh)
         IN  IF d # {} THEN {<<k>> \o x : x \in d}
             ELSE Run(e, k + 1, v.bal, IF v.op = "add" /\ v.res = "ok" THEN known \union {v.a} ELSE known)

FundsDiff(e) == Run(e, 1, [j \in 1..e.n |-> <<>>], {})

-----------------------------------------------------------------------------
Amounts == <<"zero", "one", "bal", "bal-", "bal+", "room", "room+", "max", "byte", "small", "rnd", "rnd">>
RandomOp(n) ==
    LET w == RandomElement(1..20) IN
    CASE w <= 9 -> <<"add", RandomElement(1..n), OneOf(Amounts)>>
      [] w <= 17 -> <<"sub", RandomElement(1..n), OneOf(Amounts)>>
      [] w = 18 -> <<OneOf(<<"flush", "kill", "kill">>), 1, "">>
      [] OTHER -> <<"reopen", 1, "">>
Pairs == {<<a, b>> : a \in {"add", "sub"}, b \in {Amounts[j] : j \in DOMAIN Amounts}}
Short == {[k |-> "funds", n |-> 2, ops |-> <<<<x[1], 1, x[2]>>, <<y[1], 1, y[2]>>, <<"sub", 2, "one">>, <<"reopen", 1, "">>, <<z[1], 1, z[2]>>>>]
            : x \in {<<"add", "rnd">>, <<"add", "max">>, <<"sub", "zero">>, <<"add", "byte">>}, y \in Pairs, z \in {<<"sub", "bal">>, <<"add", "room+">>}}
\* every operation, then a kill
Killed == {[k |-> "funds", n |-> 2, ops |-> <<<<"add", 1, x>>, <<"kill", 1, "">>, <<y[1], 1, y[2]>>, <<"kill", 1, "">>, <<"sub", 1, "bal">>, <<"kill", 1, "">>>>]
            : x \in {"rnd", "byte", "max"}, y \in {p \in Pairs : p[2] \in {"one", "bal", "bal-", "rnd", "small"}}}
FundsCases(n) ==
    SetToSeq(Short \union Killed)
    \o [j \in 1..n |-> LET m == IF j % 20 = 7 THEN 25 ELSE (j % 4) + 1 IN
                        [k |-> "funds", n |-> m, ops |-> [q \in 1..(IF m = 25 THEN 90 ELSE 40) |-> RandomOp(m)]]]
=============================================================================
