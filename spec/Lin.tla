-------------------------------- MODULE Lin ---------------------------------
(* C02, C04 and what C05, C06, C11 and C12 say of several threads.  Each line of
   the recording is a history of one scenario: the operations of its threads with
   their results, for each operation those that had returned before it was called
   (pre), and what was there in the end.  A behaviour of this module is a way to
   let the operations take effect one at a time, each between its call and its
   return; a history is right if some behaviour explains every result and the end.
   Such a behaviour prints <<"LIN", number of the history>>.

   An operation takes effect in one step, except for
     - a submission, which is decided at once but whose coins, gas and stored
       transaction become visible in separate steps;
     - an appended block and the transactions that come with it;
     - mining, which chooses the block to stand on before it appends;
     - a flush, which promises what was there when it was called, once it is over. *)
EXTENDS U256, Json, IOUtils, TLC, FiniteSets, Sequences

INSTANCE BlockTree WITH
    Plus <- UPlus, Minus <- UMinus, Leq <- ULeq, Times <- UTimes,
    Zero <- UZero, MaxNum <- UMax, Root <- 1,
    FeeStep <- UFromInt(62500), GasPrice <- <<10752, 34023, 145>>,
    CoinsPerCycle <- <<0, 9280, 53284, 34884, 24071, 41>>,
    BlocksPerEpoch <- 1000000, BlockTime <- UFromInt(600),
    MinLz <- 1, MaxLz <- 256

H == ndJsonDeserialize(IOEnv.TRACE)
N == Len(H)
Chunk == 100
Chunks == (N + Chunk - 1) \div Chunk

VARIABLES n,        \* the history
          done,     \* operations that took effect
          ph,       \* what is left of those that are taking effect
          s         \* the tree
vars == <<n, done, ph, s>>

Ops == H[n].ops
Ids == DOMAIN Ops

BlkOf(h) == [b \in 0..(Len(h.lzs) - 1) |-> [NoBlk EXCEPT !.lz = h.lzs[b + 1]]]
\* the chain stands on block 0 with height -1, relative to where it began
Start(h) == [coin |-> h.coin, gas |-> h.gas, vcoin |-> h.coin, vgas |-> h.gas,
             main |-> [at |-> <<>>, h |-> 0], blk |-> BlkOf(h), txs |-> {},
             fl |-> [h |-> 0, coins |-> {h.coin}, gases |-> {h.gas}, txs |-> {}],
             pend |-> <<>>, raced |-> FALSE]

\* what was passed since the flushes that count
Pass(t) ==
    LET up(f) == [f EXCEPT !.coins = @ \union {t.coin}, !.gases = @ \union {t.gas}]
    IN  [t EXCEPT !.fl = up(@), !.pend = [i \in DOMAIN @ |-> up(@[i])]]
Now(t) == [h |-> t.main.h, coins |-> {t.coin}, gases |-> {t.gas}, txs |-> t.txs]

Finish(i, t) == done' = done \union {i} /\ ph' = [j \in DOMAIN ph \ {i} |-> ph[j]] /\ s' = t
Leave(i, left, t) == IF left = {} THEN Finish(i, t)
                     ELSE done' = done /\ ph' = (i :> left) @@ ph /\ s' = t

Ledger(i, o) ==
    \E r \in LedgerCall(IF o.op = "coin" THEN s.vcoin ELSE s.vgas, o.k, o.a, o.b, o.x) :
        /\ r.res = o.res
        /\ \E v \in LedgerCall(IF o.op = "coin" THEN s.coin ELSE s.gas, o.k, o.a, o.b, o.x) :
            /\ v.res = o.res
            /\ Finish(i, Pass(IF o.op = "coin" THEN [s EXCEPT !.vcoin = r.f, !.coin = v.f]
                              ELSE [s EXCEPT !.vgas = r.f, !.gas = v.f]))

\* a submission: T is the transaction
T(o) == H[n].txs[o.tx]
Size(o) == H[n].sizes[o.tx]
Virtual == [coin |-> s.vcoin, gas |-> s.vgas, main |-> s.main, blk |-> (0 :> [NoBlk EXCEPT !.lz = H[n].lzs[1]]) @@ s.blk,
            txs |-> {}]
Decide(i, o) ==
    LET t == T(o)
        ok == SubmitAllowed(Virtual, t.a, t.b, t.x, Size(o))
        r == Submitted(Virtual, o.tx, t.a, t.b, t.x, Size(o))
    IN  IF o.res = "ok"
        THEN ok /\ Leave(i, {"coins", "gas", "store"}, [s EXCEPT !.vcoin = r.coin, !.vgas = r.gas])
        ELSE o.res = "err" /\ ~ok /\ Finish(i, s)
Visible(i, o) ==
    LET t == T(o) IN
    \/ /\ "coins" \in ph[i]
       /\ t.a = t.b \/ CanDebit(s.coin, t.a, t.x)
       /\ Leave(i, ph[i] \ {"coins"}, Pass([s EXCEPT !.coin = IF t.a = t.b THEN @ ELSE CreditTo(DebitFrom(@, t.a, t.x), t.b, t.x)]))
    \/ /\ "gas" \in ph[i]
       /\ CanDebit(s.gas, t.a, SubmitGas(Size(o)))
       /\ Leave(i, ph[i] \ {"gas"}, Pass([s EXCEPT !.gas = DebitFrom(@, t.a, SubmitGas(Size(o)))]))
    \/ /\ "store" \in ph[i]
       /\ Leave(i, ph[i] \ {"store"}, [s EXCEPT !.txs = @ \union {o.tx}])

Append0(i, o, left) ==
    IF H[n].blocks[o.b] = s.main.h
    THEN o.res = "ok" /\ Leave(i, left, [s EXCEPT !.main = Grow(@, o.b)])
    ELSE o.res = "err" /\ Finish(i, s)

Mined(b) == H[n].mined[CHOOSE k \in DOMAIN H[n].mined : H[n].mined[k].id = b]
\* mined over no transactions, just below an epoch's end: only there it is allowed
Epoch == H[n].epoch
Sealed(f) == [f EXCEPT ![1] = <<0, 9280, 53284, 34884, 24071, 41>>]
Choose(i, o) ==
    LET t == LastOf(s.main) IN
    IF o.w[t + 1] = 1 /\ (Epoch => s.main.h = 0) THEN Leave(i, {t}, s) ELSE o.res = "err" /\ Finish(i, s)
AppendMined(i, o) ==
    LET t == CHOOSE b \in ph[i] : TRUE IN
    IF LastOf(s.main) = t
    THEN /\ o.res = "ok"
         /\ Mined(o.val).prev = t
         /\ Mined(o.val).h = s.main.h
         /\ Finish(i, [s EXCEPT !.main = Grow(@, o.val), !.coin = IF Epoch THEN Sealed(@) ELSE @])
    ELSE /\ o.res = "err"
         /\ \/ Finish(i, s)
            \* not what it should be, but known: the epoch ended for the refused block
            \/ Epoch /\ Finish(i, [s EXCEPT !.coin = Sealed(@), !.raced = TRUE])

Read(o) ==
    CASE o.op = "getcoin" -> s.coin[o.a]
      [] o.op = "getgas" -> s.gas[o.a]
      [] o.op = "tx" -> IF o.tx \in s.txs THEN 1 ELSE 0
      [] o.op = "height" -> s.main.h
      [] o.op = "at" -> AtHeight(s.main, o.h)
      [] o.op = "hash" -> IF \E h \in 0..(s.main.h - 1) : AtHeight(s.main, h) = o.b THEN o.b ELSE 0
      [] o.op = "last" -> LastOf(s.main)

(* what a kill leaves.  It may come at any moment, also in the middle of
   operations: their steps so far count.                                     *)
SeesChain(f, c) ==
    /\ f.h = c.h
    /\ f.last = LastOf(c)
    /\ \A k \in DOMAIN f.at : f.at[k] = AtHeight(c, k - 1)
    /\ \A b \in DOMAIN f.hash : f.hash[b] = IF \E h \in 0..(c.h - 1) : AtHeight(c, h) = b THEN b ELSE 0
SeesTxs(f) == {k \in DOMAIN f.txs : f.txs[k] # 0}
Survives(f) ==
    /\ f.opens = "ok"
    /\ f.h >= s.fl.h /\ f.h <= s.main.h
    /\ SeesChain(f, [at |-> s.main.at, h |-> f.h])
    /\ f.coin \in s.fl.coins /\ f.gas \in s.fl.gases
    /\ \A k \in DOMAIN f.txs : f.txs[k] \in {0, 1}
    /\ SeesTxs(f) \subseteq s.txs /\ s.fl.txs \subseteq SeesTxs(f)

Step(i) ==
    LET o == Ops[i] IN
    CASE o.op \in {"coin", "gas"} -> Ledger(i, o)
      [] o.op = "submit" -> IF i \in DOMAIN ph THEN Visible(i, o) ELSE Decide(i, o)
      [] o.op = "append" -> Append0(i, o, {})
      [] o.op = "append+" -> IF i \in DOMAIN ph
                             THEN \E x \in ph[i] : Leave(i, ph[i] \ {x}, [s EXCEPT !.txs = @ \union {x}])
                             ELSE Append0(i, o, {o.txs[k] : k \in DOMAIN o.txs})
      [] o.op = "mine" -> IF i \in DOMAIN ph THEN AppendMined(i, o) ELSE Choose(i, o)
      [] o.op = "store" -> o.res = "ok" /\ Finish(i, [s EXCEPT !.txs = @ \union {o.tx}])
      [] o.op \in {"flush", "dflush"} ->
            /\ o.res = "ok"
            /\ IF i \in DOMAIN ph
               THEN Finish(i, [s EXCEPT !.pend = [j \in DOMAIN @ \ {i} |-> @[j]],
                                        !.fl = [h |-> IF s.pend[i].h > @.h THEN s.pend[i].h ELSE @.h,
                                                coins |-> IF o.op = "flush" THEN s.pend[i].coins ELSE @.coins,
                                                gases |-> IF o.op = "flush" THEN s.pend[i].gases ELSE @.gases,
                                                txs |-> @.txs \union s.pend[i].txs]])
               ELSE Leave(i, {"end"}, [s EXCEPT !.pend = (i :> Now(s)) @@ @])
      [] o.op = "kill" -> Survives(o.val) /\ Finish(i, s)
      [] OTHER -> o.res = "ok" /\ o.val = Read(o) /\ Finish(i, s)

Init == n \in {0 - b : b \in 1..Chunks} /\ done = {} /\ ph = <<>> /\ s = 0
Next ==
    IF n < 0
    THEN \E m \in ((0 - n - 1) * Chunk + 1)..(IF (0 - n) * Chunk > N THEN N ELSE (0 - n) * Chunk) :
            n' = m /\ done' = {} /\ ph' = <<>> /\ s' = Start(H[m])
    ELSE /\ n' = n
         /\ \E i \in Ids \ done :
                /\ \A k \in DOMAIN Ops[i].pre : Ops[i].pre[k] \in done
                /\ Step(i)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* does the end fit? *)
Fits(f) ==
    /\ f.coin = s.coin /\ f.gas = s.gas
    /\ SeesChain(f, s.main)
    /\ SeesTxs(f) = s.txs /\ \A k \in DOMAIN f.txs : f.txs[k] \in {0, 1}
Explained ==
    n > 0 /\ done = Ids /\ Fits(H[n].fin) /\ ("img" \in DOMAIN H[n] => Survives(H[n].img))
        => PrintT(<<IF s.raced THEN "RACED" ELSE "LIN", n>>)
=============================================================================
