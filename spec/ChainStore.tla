----------------------------- MODULE ChainStore ------------------------------
(* How a chain gets to disk, at the grain of single writes, with a kill possible
   between any two of them.  Two append-only stores (blocks by height, heights by
   hash) and the coin ledger, whose writes reach the disk in order but at any time
   from when they were made until their store is flushed; the config, which names
   the height; flushes, which may overlap, and an appender.

   The switches are the decisions that matter; with any of them the other way a
   kill at some instant breaks one of the invariants, and each was once so or is
   an obvious mistake.  BlockTree's durability operators (what a kill may take
   back) are what this protocol is shown to provide.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxBlocks,        \* blocks that may come to be
          Flushers,         \* flushes that may overlap
          Lock,             \* one flush at a time
          Early,            \* the height is read before the stores are flushed
          Replace,          \* the config is replaced by renaming
          Filter,           \* a block found by hash has to have that hash
          AllotFlushed,     \* opening flushes the allotment
          AllotOnce         \* an allotment that is there is not made again

None == 0 - 1
VARIABLES blocks,   \* [disk, log]: height -> block; log of <<height, block>>
          refs,     \* block -> height
          coins,    \* the root's coins, None if never set
          conf,     \* on disk: [k |-> "none"], [k |-> "ok", h], [k |-> "torn"]
          height,   \* in memory
          acc,      \* the blocks accepted: height -> block
          next,     \* next identity
          adding,   \* what the appender has done of the next block
          fs,       \* the flushers: [pc, h, was]
          owed,     \* height promised by a flush
          dues,     \* balances the root may be left with
          fresh     \* just opened
vars == <<blocks, refs, coins, conf, height, acc, next, adding, fs, owed, dues, fresh>>

Store(d) == [disk |-> d, log |-> <<>>]
Put(s, k, v) == [s EXCEPT !.log = Append(@, <<k, v>>)]
RECURSIVE Play(_, _)
Play(d, l) == IF l = <<>> THEN d ELSE Play((l[1][1] :> l[1][2]) @@ d, Tail(l))
Synced(s) == Store(Play(s.disk, s.log))
Cut(s, n) == Store(Play(s.disk, SubSeq(s.log, 1, n)))
Look(s, k) == LET d == Play(s.disk, s.log) IN IF k \in DOMAIN d THEN d[k] ELSE None

Idle == [pc |-> "idle", h |-> 0, was |-> 0]
Allotment == 2
\* opening: reads the config, makes the first block and the allotment if need be
OpenAt(c, b, r, k, id) ==
    LET h == IF c.k = "ok" THEN c.h ELSE 0
        b1 == IF h = 0 THEN Put(b, 0, id) ELSE b
        r1 == IF h = 0 THEN Put(r, id, 100) ELSE r
        h1 == IF h = 0 THEN 1 ELSE h
        want == h1 = 1 /\ (~AllotOnce \/ Look(k, 1) = None)
        k1 == IF want THEN Put(k, 1, Allotment) ELSE k
        k2 == IF AllotFlushed /\ h1 = 1 THEN Synced(k1) ELSE k1
    IN  [blocks |-> b1, refs |-> r1, height |-> h1, coins |-> k2, new |-> h = 0]

Init ==
    LET o == OpenAt([k |-> "none"], Store(<<>>), Store(<<>>), Store(<<>>), 1) IN
    /\ blocks = o.blocks /\ refs = o.refs /\ coins = o.coins /\ height = o.height
    /\ conf = [k |-> "none"] /\ acc = (0 :> 1) /\ next = 2 /\ adding = 0
    /\ fs = [f \in 1..Flushers |-> Idle] /\ owed = 1 /\ dues = {Allotment} /\ fresh = TRUE

\* heights are stored one more than they are: 0 is None
AddBlock ==
    /\ fresh' = FALSE
    /\ \/ adding = 0 /\ next <= MaxBlocks /\ blocks' = Put(blocks, height, next) /\ adding' = 1
          /\ UNCHANGED <<refs, height, acc, next>>
       \/ adding = 1 /\ refs' = Put(refs, next, height + 100) /\ adding' = 2 /\ UNCHANGED <<blocks, height, acc, next>>
       \/ adding = 2 /\ height' = height + 1 /\ acc' = (height :> next) @@ acc /\ next' = next + 1 /\ adding' = 0
          /\ UNCHANGED <<blocks, refs>>
    /\ UNCHANGED <<coins, conf, fs, owed, dues>>

Spend == /\ Look(coins, 1) > 0 /\ fresh' = FALSE
         /\ coins' = Put(coins, 1, Look(coins, 1) - 1)
         /\ dues' = dues \union {Look(coins, 1) - 1}
         /\ UNCHANGED <<blocks, refs, conf, height, acc, next, adding, fs, owed>>

Seep == \* a store writes out the first entry of its log
    /\ \/ blocks.log # <<>> /\ blocks' = [disk |-> Play(blocks.disk, SubSeq(blocks.log, 1, 1)), log |-> Tail(blocks.log)] /\ UNCHANGED <<refs, coins>>
       \/ refs.log # <<>> /\ refs' = [disk |-> Play(refs.disk, SubSeq(refs.log, 1, 1)), log |-> Tail(refs.log)] /\ UNCHANGED <<blocks, coins>>
       \/ coins.log # <<>> /\ coins' = [disk |-> Play(coins.disk, SubSeq(coins.log, 1, 1)), log |-> Tail(coins.log)] /\ UNCHANGED <<blocks, refs>>
    /\ UNCHANGED <<conf, height, acc, next, adding, fs, owed, dues, fresh>>

At(f, pc) == [fs EXCEPT ![f].pc = pc]
FlushStep(f) ==
    /\ fresh' = FALSE
    /\ LET x == fs[f]
           dump(h, pc) == IF Replace
                          THEN conf' = [k |-> "ok", h |-> h] /\ fs' = At(f, "coins")
                          ELSE IF pc = "write" THEN conf' = [k |-> "torn"] /\ fs' = At(f, "written")
                          ELSE conf' = [k |-> "ok", h |-> h] /\ fs' = At(f, "coins")
       IN
       \/ /\ x.pc = "idle" /\ (Lock => \A g \in DOMAIN fs : fs[g].pc = "idle")
          /\ fs' = [fs EXCEPT ![f] = [pc |-> "blocks", h |-> height, was |-> height]]
          /\ UNCHANGED <<blocks, refs, coins, conf, owed, dues>>
       \/ x.pc = "blocks" /\ blocks' = Synced(blocks) /\ fs' = At(f, "refs") /\ UNCHANGED <<refs, coins, conf, owed, dues>>
       \/ x.pc = "refs" /\ refs' = Synced(refs)
          /\ fs' = [fs EXCEPT ![f].pc = "write", ![f].h = IF Early THEN @ ELSE height]
          /\ UNCHANGED <<blocks, coins, conf, owed, dues>>
       \/ x.pc \in {"write", "written"} /\ dump(x.h, x.pc) /\ UNCHANGED <<blocks, refs, coins, owed, dues>>
       \/ /\ x.pc = "coins" /\ coins' = Synced(coins) /\ fs' = [fs EXCEPT ![f] = Idle]
          /\ owed' = IF x.was > owed THEN x.was ELSE owed
          /\ dues' = {Look(coins, 1)}
          /\ UNCHANGED <<blocks, refs, conf>>
    /\ UNCHANGED <<height, acc, next, adding>>

Kill ==
    \E i \in 0..Len(blocks.log), j \in 0..Len(refs.log), k \in 0..Len(coins.log) :
        LET o == OpenAt(conf, Cut(blocks, i), Cut(refs, j), Cut(coins, k), next) IN
        /\ conf.k # "torn"
        /\ next <= MaxBlocks + 1
        /\ blocks' = o.blocks /\ refs' = o.refs /\ coins' = o.coins /\ height' = o.height
        /\ acc' = IF o.new THEN (0 :> next) ELSE acc
        /\ next' = IF o.new THEN next + 1 ELSE next
        /\ adding' = 0 /\ fs' = [f \in 1..Flushers |-> Idle]
        /\ owed' = owed /\ dues' = dues /\ fresh' = TRUE
        /\ UNCHANGED conf

Next == AddBlock \/ Spend \/ Seep \/ (\E f \in 1..Flushers : FlushStep(f)) \/ Kill
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the config can be read at any instant
Readable == conf.k # "torn"
\* every height below the chain's yields the block that was accepted there
Prefix == \A h \in 0..(height - 1) : h \in DOMAIN acc /\ Look(blocks, h) = acc[h]
\* a block is found by its hash if and only if it is on the chain
ByHash(b) == LET r == Look(refs, b) - 100 IN
    IF Look(refs, b) = None \/ r >= height THEN None
    ELSE IF Filter /\ Look(blocks, r) # b THEN None ELSE Look(blocks, r)
Indexed == \A b \in 1..(next - 1) :
    ByHash(b) = IF \E h \in 0..(height - 1) : h \in DOMAIN acc /\ acc[h] = b THEN b ELSE None
\* nothing that a flush promised is taken back
Promised == height >= owed
\* the allotment is made once: neither missing nor made again after it was spent
Allotted == fresh => Look(coins, 1) \in dues
=============================================================================
