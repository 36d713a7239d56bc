------------------------------- MODULE MCTree -------------------------------
(* The exhaustive model of BlockTree: every history of a small tree (small
   numbers, few accounts, short chains, epochs of two or three blocks) with every
   operation, flush, restart and kill.  It shows that the specification itself
   has the properties the traces are then compared with: conservation, gap-free
   append-only chains, isolation of the owners, limits of the difficulty, what an
   epoch's end does, and what a flush promises.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Top,          \* greatest number
          Accounts,     \* number of accounts; account 1 is the root
          Blocks,       \* identities of blocks that may come to be
          Epoch,        \* blocks per epoch
          Owners,       \* number of owners of derivative chains
          Money, Chains, Kills      \* which operations are explored

IPlus(a, b) == a + b
IMinus(a, b) == a - b
ILeq(a, b) == a <= b
ITimes(a, n) == a * n

INSTANCE BlockTree WITH
    Plus <- IPlus, Minus <- IMinus, Leq <- ILeq, Times <- ITimes,
    Zero <- 0, MaxNum <- Top, Root <- 1, FeeStep <- 1, GasPrice <- 1, CoinsPerCycle <- 2,
    BlocksPerEpoch <- Epoch, BlockTime <- 2, MinLz <- 1, MaxLz <- 3

VARIABLES st, fl,
          last      \* the last operation: what the action properties speak of
vars == <<st, fl, last>>

Acc == 1..Accounts
Genesis == [kind |-> "sum", h |-> 0, prev |-> 0, time |-> 0, lz |-> 1, fee |-> 0]
Fresh(n) == [a \in Acc |-> IF a = 1 THEN n ELSE 0]
Init ==
    LET s == [coin |-> Fresh(2), gas |-> Fresh(0), ocoin |-> Fresh(0), ogas |-> Fresh(0),
              main |-> [at |-> (0 :> 1), h |-> 1], txs |-> {}, der |-> <<>>, blk |-> (1 :> Genesis)]
    IN  st = s /\ fl = [FloorOf(s, <<>>) EXCEPT !.mh = 1] /\ last = [op |-> "new", res |-> "ok"]

\* the next identity: blocks are named in the order they come to be
Next1 == Cardinality(DOMAIN st.blk) + 1
Room == Next1 <= Blocks
Did(op, outs) ==
    \E r \in outs :
        /\ st' = r.st
        /\ fl' = IF Kills THEN Passed(fl, r.st) ELSE fl
        /\ last' = [op EXCEPT !.res = r.res]

Amounts == 0..Top
Coin == \E k \in {"add", "sub", "set", "send"}, a \in Acc, b \in Acc, x \in Amounts :
            /\ k # "send" => b = a
            /\ Did([op |-> "coin", k |-> k, a |-> a, b |-> b, x |-> x, res |-> ""], CoinOp(st, k, a, b, x))
Gas  == \E k \in {"add", "sub", "send"}, a \in Acc, b \in Acc, x \in Amounts :
            /\ k # "send" => b = a
            /\ Did([op |-> "gas", k |-> k, a |-> a, b |-> b, x |-> x, res |-> ""], GasOp(st, k, a, b, x))
Sub  == \E t \in 1..2, a \in Acc, b \in Acc, x \in Amounts, size \in 1..2 :
            Did([op |-> "submit", t |-> t, a |-> a, b |-> b, x |-> x, size |-> size, res |-> ""], Submit(st, t, a, b, x, size))
Foreign == Room /\ \E h \in 0..(Blocks + 1), t \in 0..3, lz \in {1, 3} :
            Did([op |-> "addblock", res |-> ""], AddBlock(st, Next1, [kind |-> "tx", h |-> h, prev |-> 0, time |-> t, lz |-> lz, fee |-> 0], {}))
Mining == Room /\ \E w \in 0..3, n \in 0..1, t \in {0, 1, 2, 3, 5} :
            Did([op |-> "mine", w |-> w, n |-> n, res |-> ""], Mine(st, w, n, Next1, MinedAttr(st, t)))
DerOp == \E o \in 1..Owners :
            \/ Did([op |-> "dopen", o |-> o, res |-> ""], DOpen(st, o))
            \/ Room /\ \E h \in 0..1 : Did([op |-> "dadd", o |-> o, res |-> ""], DAddBlock(st, o, Next1, [NoBlk EXCEPT !.kind = "der", !.h = h, !.lz = 1]))
            \/ Room /\ \E w \in 0..2, t \in {0, 2, 5} :
                 Did([op |-> "dmine", o |-> o, w |-> w, res |-> ""], DMine(st, o, w, Next1, DMinedAttr(Opened(st, o), o, t)))

Flush == /\ fl' = FlushMain(fl, st) /\ UNCHANGED st /\ last' = [op |-> "flush", res |-> "ok"]
DFlush == \E o \in DOMAIN st.der : fl' = FlushDer(fl, st, o) /\ UNCHANGED st /\ last' = [op |-> "dflush", res |-> "ok"]

\* a kill: anything the specification calls a survivor
Cut(c, h) == [at |-> [k \in {j \in DOMAIN c.at : j < h} |-> c.at[k]], h |-> h]
Kill ==
    \E mh \in fl.mh..st.main.h, c \in fl.coins, g \in fl.gases, oc \in fl.ocoins, og \in fl.ogases,
       ts \in SUBSET st.txs, dh \in [DOMAIN st.der -> 0..Blocks] :
        /\ fl.txs \subseteq ts
        /\ LET m == Cut(st.main, mh)
               n == [st EXCEPT !.coin = c, !.gas = g, !.ocoin = oc, !.ogas = og, !.main = m, !.txs = ts,
                        !.der = [o \in {p \in DOMAIN st.der : p \in DOMAIN fl.der \/ dh[p] > 0} |->
                                    [anchor |-> st.der[o].anchor, at |-> Cut(st.der[o], dh[o]).at, h |-> dh[o]]]]
           IN  /\ \A o \in DOMAIN st.der : dh[o] <= st.der[o].h
               /\ \A o \in DOMAIN n.der : SurvivesDer(fl, st, n, o)
               /\ SurvivesMain(fl, st, n) /\ SurvivesLedgers(fl, st, n) /\ SurvivesOld(fl, st, n) /\ SurvivesTxs(fl, st, n)
               /\ st' = n /\ fl' = Restarted(n)
               /\ last' = [op |-> "kill", res |-> "ok"]

Next == \/ Money /\ (Coin \/ Gas \/ Sub)
        \/ Chains /\ (Foreign \/ Mining \/ DerOp)
        \/ Kills /\ (Flush \/ DFlush \/ Kill)
        \/ Money /\ Kills /\ Mining
Spec == Init /\ [][Next]_vars

View == <<st, fl, last.op = "flush">>

-----------------------------------------------------------------------------
RECURSIVE SumTo(_, _)
SumTo(f, a) == IF a = 0 THEN 0 ELSE f[a] + SumTo(f, a - 1)
Sum(f) == SumTo(f, Accounts)

InRange == \A a \in Acc : /\ st.coin[a] \in 0..Top /\ st.gas[a] \in 0..Top
                          /\ st.ocoin[a] \in 0..Top /\ st.ogas[a] \in 0..Top
GapFree == /\ DOMAIN st.main.at = 0..(st.main.h - 1)
           /\ \A h \in DOMAIN st.main.at : st.blk[st.main.at[h]].h = h
           /\ \A h, k \in DOMAIN st.main.at : h # k => st.main.at[h] # st.main.at[k]
           /\ \A o \in DOMAIN st.der : DOMAIN st.der[o].at = 0..(st.der[o].h - 1)
Isolated == \A o, p \in DOMAIN st.der : o # p =>
                {st.der[o].at[h] : h \in DOMAIN st.der[o].at} \cap {st.der[p].at[h] : h \in DOMAIN st.der[p].at} = {}
Limits == \A b \in DOMAIN st.blk : st.blk[b].lz \in 0..3
Promise == Kills =>
           /\ fl.mh <= st.main.h
           /\ st.coin \in fl.coins /\ st.gas \in fl.gases /\ st.ocoin \in fl.ocoins /\ st.ogas \in fl.ogases
           /\ fl.txs \subseteq st.txs
           /\ \A o \in DOMAIN fl.der : o \in DOMAIN st.der /\ fl.der[o] <= st.der[o].h

\* what one step may do
Conserves ==
    /\ last'.op \in {"coin", "gas"} /\ last'.k = "send" => Sum(st'.coin) = Sum(st.coin) /\ Sum(st'.gas) = Sum(st.gas)
    /\ last'.op \in {"coin", "gas"} /\ last'.res = "err" => st' = st
    /\ last'.op = "coin" => st'.gas = st.gas
    /\ last'.op = "gas" => st'.coin = st.coin
    /\ last'.op = "submit" => /\ Sum(st'.coin) = Sum(st.coin)
                              /\ Sum(st.gas) - Sum(st'.gas) = (IF last'.res = "ok" /\ last'.t \notin st.txs THEN last'.size ELSE 0)
                              /\ last'.res = "err" => st' = st
AppendOnly == last'.op # "kill" => /\ IsPrefixOf(st.main, st'.main) /\ st'.main.h <= st.main.h + 1
                                   /\ \A o \in DOMAIN st.der : st'.der[o].anchor = st.der[o].anchor /\ IsPrefixOf(st.der[o], st'.der[o])
Apart == last'.op \in {"dopen", "dadd", "dmine"} =>
            /\ st'.main = st.main /\ st'.coin = st.coin /\ st'.gas = st.gas
            /\ \A o \in DOMAIN st.der \ {last'.o} : st'.der[o] = st.der[o]
Epochs == /\ last'.op = "mine" /\ last'.res = "ok" /\ st.main.h % Epoch = 0 =>
                /\ st'.ocoin = st.coin /\ st'.ogas = st.gas /\ st'.gas = st.gas
                /\ st'.coin = [st.coin EXCEPT ![1] = 2]
                /\ st'.blk[LastOf(st'.main)].kind = "sum"
          /\ ~(last'.op = "mine" /\ last'.res = "ok" /\ st.main.h % Epoch = 0) /\ last'.op # "kill" => st'.ocoin = st.ocoin /\ st'.ogas = st.ogas
Worked == last'.op = "mine" =>
            /\ last'.res = "ok" <=> last'.w >= TipAttr(st).lz /\ (last'.n = 0 <=> st.main.h % Epoch = 0)
            /\ last'.res = "ok" => /\ st'.blk[LastOf(st'.main)].prev = LastOf(st.main)
                                   /\ st'.blk[LastOf(st'.main)].lz - TipAttr(st).lz \in {-1, 0, 1}
Kept == last'.op = "kill" =>
            /\ IsPrefixOf(st'.main, st.main)
            /\ last.op = "flush" => st'.main = st.main /\ st'.coin = st.coin /\ st'.gas = st.gas /\ st'.ocoin = st.ocoin
                                    /\ st'.ogas = st.ogas /\ st'.txs = st.txs
StepsConserve == [][Conserves]_vars
StepsAppend == [][AppendOnly]_vars
StepsApart == [][Apart]_vars
StepsEpochs == [][Epochs]_vars
StepsWorked == [][Worked]_vars
StepsKept == [][Kept]_vars
=============================================================================
