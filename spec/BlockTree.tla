------------------------------ MODULE BlockTree ------------------------------
(* The block chain tree: two ledgers (coins, gas) and their previous-epoch
   copies, the append-only main chain with its transaction store, one
   derivative chain per owner, and what of all this is on disk.

   The specification is functional: each operation maps a state and arguments
   to a *set* of allowed outcomes [res, st].  The same operators are used by
   the exhaustive model (MCTree), the script generator (GenTree), the trace
   specification (TraceTree) and the linearizability specification (Lin).
   Numbers are abstract: the arithmetic is a parameter, so that the exhaustive
   model can use small integers and the traces 256-bit limbs.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Plus(_, _),         \* a + b, unbounded
    Minus(_, _),        \* a - b for b <= a
    Leq(_, _),
    Times(_, _),        \* a * ordinary integer
    Zero,
    MaxNum,             \* greatest number a ledger can hold
    Root,               \* the account that receives the cycle's allotment
    FeeStep,            \* fee per leading zero of the difficulty
    GasPrice,           \* gas per byte of a transaction
    CoinsPerCycle,
    BlocksPerEpoch,
    BlockTime,          \* target time between blocks, in the time type
    MinLz, MaxLz        \* limits of the demanded leading zeros

Ok(st)  == [res |-> "ok",  st |-> st]
Err(st) == [res |-> "err", st |-> st]

-----------------------------------------------------------------------------
(* Ledgers.  A ledger is a function (or sequence) from accounts to numbers.  *)

CanCredit(f, a, x) == Leq(x, Minus(MaxNum, f[a]))
CanDebit(f, a, x)  == Leq(x, f[a])
CreditTo(f, a, x)  == [f EXCEPT ![a] = Plus(@, x)]
DebitFrom(f, a, x) == [f EXCEPT ![a] = Minus(@, x)]

(* Results of one ledger call on ledger f: a set of [res, f] pairs *)
LedgerAdd(f, a, x) ==
    IF CanCredit(f, a, x)
    THEN {[res |-> "ok", f |-> CreditTo(f, a, x)]}
    ELSE {[res |-> "err", f |-> f]}
LedgerSub(f, a, x) ==
    IF CanDebit(f, a, x)
    THEN {[res |-> "ok", f |-> DebitFrom(f, a, x)]}
    ELSE {[res |-> "err", f |-> f]}
LedgerSet(f, a, x) == {[res |-> "ok", f |-> [f EXCEPT ![a] = x]]}
LedgerSend(f, a, b, x) ==
    IF a = b
    THEN \* nothing changes; whether an uncovered one is refused is left open
         IF CanDebit(f, a, x)
         THEN {[res |-> "ok", f |-> f]}
         ELSE {[res |-> "ok", f |-> f], [res |-> "err", f |-> f]}
    ELSE IF CanDebit(f, a, x) /\ CanCredit(f, b, x)
         THEN {[res |-> "ok", f |-> CreditTo(DebitFrom(f, a, x), b, x)]}
         ELSE {[res |-> "err", f |-> f]}

LedgerCall(f, op, a, b, x) ==
    CASE op = "add"  -> LedgerAdd(f, a, x)
      [] op = "sub"  -> LedgerSub(f, a, x)
      [] op = "set"  -> LedgerSet(f, a, x)
      [] op = "send" -> LedgerSend(f, a, b, x)

CoinOp(st, op, a, b, x) ==
    {[res |-> r.res, st |-> [st EXCEPT !.coin = r.f]] : r \in LedgerCall(st.coin, op, a, b, x)}
GasOp(st, op, a, b, x) ==
    {[res |-> r.res, st |-> [st EXCEPT !.gas = r.f]] : r \in LedgerCall(st.gas, op, a, b, x)}

-----------------------------------------------------------------------------
(* Chains.  A chain is [at, h]: the block at each height and the height.  A
   block is known by an identity (its hash); st.blk gives its attributes.    *)

AtHeight(c, h)   == IF h >= 0 /\ h < c.h /\ h \in DOMAIN c.at THEN c.at[h] ELSE 0
LastOf(c)        == AtHeight(c, c.h - 1)
OnChain(c, b, h) == AtHeight(c, h) = b      \* h: the height block b claims
Grow(c, b)       == [at |-> (c.h :> b) @@ c.at, h |-> c.h + 1]
IsPrefixOf(c, d) == /\ c.h <= d.h
                    /\ \A h \in DOMAIN d.at : h < c.h => AtHeight(c, h) = d.at[h]

(* attributes of a block, of a stand-in where none is known *)
NoBlk == [kind |-> "none", h |-> 0 - 9, prev |-> 0, time |-> Zero, lz |-> 0, fee |-> Zero]
Attr(st, b)  == IF b \in DOMAIN st.blk THEN st.blk[b] ELSE NoBlk
TipAttr(st) == Attr(st, LastOf(st.main))

(* Difficulty is the number of leading zero bits demanded.  A block that
   comes too early (or not later at all) raises it, a late one lowers it.    *)
Retarget(lz, before, now) ==
    LET early == IF Leq(now, before) THEN TRUE
                 ELSE Leq(Minus(now, before), BlockTime) /\ Minus(now, before) # BlockTime
        onTime == ~early /\ Minus(now, before) = BlockTime
    IN  IF early THEN IF lz < MaxLz THEN lz + 1 ELSE lz
        ELSE IF onTime THEN lz
        ELSE IF lz > MinLz THEN lz - 1 ELSE lz

Fee(lz) == Times(FeeStep, lz)

EpochEnd(h) == h > 0 /\ h % BlocksPerEpoch = 0

(* A foreign block b (attributes a) offered to the main chain with
   transactions ts: joins only directly above the tip                        *)
AddBlock(st, b, a, ts) ==
    IF a.h = st.main.h
    THEN {Ok([st EXCEPT !.main = Grow(@, b), !.blk = (b :> a) @@ @, !.txs = @ \union ts])}
    ELSE {Err([st EXCEPT !.blk = (b :> a) @@ @])}

AddTxs(st, ts) == {Ok([st EXCEPT !.txs = @ \union ts])}

(* A mining attempt.  work: leading zeros of the hash over tip, commitment
   and nonce.  b, a: identity and attributes of the block that results.      *)
MineAllowed(st, work, ntx) ==
    /\ work >= TipAttr(st).lz
    /\ IF EpochEnd(st.main.h) THEN ntx = 0 ELSE ntx > 0

MinedAttr(st, time) ==
    LET lz == Retarget(TipAttr(st).lz, TipAttr(st).time, time)
    IN  [kind |-> IF EpochEnd(st.main.h) THEN "sum" ELSE "tx",
         h    |-> st.main.h,
         prev |-> LastOf(st.main),
         time |-> time,
         lz   |-> lz,
         fee  |-> IF EpochEnd(st.main.h) THEN Zero ELSE Fee(lz)]

Mine(st, work, ntx, b, a) ==
    IF ~MineAllowed(st, work, ntx) THEN {Err(st)}
    ELSE LET st1 == [st EXCEPT !.main = Grow(@, b), !.blk = (b :> a) @@ @]
         IN  IF EpochEnd(st.main.h)
             THEN {Ok([st1 EXCEPT !.ocoin = st.coin, !.ogas = st.gas,
                                  !.coin = [@ EXCEPT ![Root] = CoinsPerCycle]])}
             ELSE {Ok(st1)}

-----------------------------------------------------------------------------
(* Derivative chains: st.der is a function from the owners opened so far to
   [anchor, at, h]                                                           *)

NewDer(st) == [anchor |-> LastOf(st.main), at |-> <<>>, h |-> 0]
DOpen(st, o) ==
    IF o \in DOMAIN st.der THEN {Ok(st)}
    ELSE {Ok([st EXCEPT !.der = (o :> NewDer(st)) @@ @])}
Opened(st, o) == (CHOOSE r \in DOpen(st, o) : TRUE).st

DerGrow(d, b) == [d EXCEPT !.at = (d.h :> b) @@ @, !.h = @ + 1]

DAddBlock(st, o, b, a) ==
    LET st0 == [Opened(st, o) EXCEPT !.blk = (b :> a) @@ @]
    IN  IF a.h = st0.der[o].h
        THEN {Ok([st0 EXCEPT !.der[o] = DerGrow(@, b)])}
        ELSE {Err(st0)}

(* identity and attributes of what the next derivative block stands on: the
   chain's last block, or the anchor with the beginning difficulty           *)
DerAnchored(st, o) == LET d == st.der[o] IN
    d.h > 0 \/ OnChain(st.main, d.anchor, Attr(st, d.anchor).h)
DerTip(st, o) == LET d == st.der[o] IN IF d.h > 0 THEN LastOf(d) ELSE d.anchor
DerTipLz(st, o) == IF st.der[o].h > 0 THEN Attr(st, DerTip(st, o)).lz ELSE MinLz
DerTipTime(st, o) == Attr(st, DerTip(st, o)).time

DMineAllowed(st, o, work) == DerAnchored(st, o) /\ work >= DerTipLz(st, o)

DMinedAttr(st, o, time) ==
    [kind |-> "der",
     h    |-> st.der[o].h,
     prev |-> DerTip(st, o),
     time |-> time,
     lz   |-> Retarget(DerTipLz(st, o), DerTipTime(st, o), time),
     fee  |-> Zero]

DMine(st, o, work, b, a) ==
    LET st0 == Opened(st, o) IN
    IF ~DMineAllowed(st0, o, work) THEN {Err(st0)}
    ELSE {Ok([st0 EXCEPT !.der[o] = DerGrow(@, b), !.blk = (b :> a) @@ @])}

-----------------------------------------------------------------------------
(* Submitting transaction t of size bytes that moves x from a to b *)

SubmitGas(size) == Times(GasPrice, size)
SubmitAllowed(st, a, b, x, size) ==
    LET need == Plus(Fee(TipAttr(st).lz), x)
    IN  /\ Leq(SubmitGas(size), st.gas[a])
        /\ Leq(need, st.coin[a])
        /\ a = b \/ CanCredit(st.coin, b, x)

Submitted(st, t, a, b, x, size) ==
    [st EXCEPT !.coin = IF a = b THEN @ ELSE CreditTo(DebitFrom(@, a, x), b, x),
               !.gas  = DebitFrom(@, a, SubmitGas(size)),
               !.txs  = @ \union {t}]

(* Applying a transaction that is already stored a second time is a known
   finding (see known_findings.json); the specification of the property says
   it has no further effect, ReplayApplied is what the code does.            *)
Submit(st, t, a, b, x, size) ==
    IF t \in st.txs THEN {Ok(st), Err(st)}
    ELSE IF SubmitAllowed(st, a, b, x, size)
         THEN {Ok(Submitted(st, t, a, b, x, size))}
         ELSE {Err(st)}
ReplayApplied(st, t, a, b, x, size) ==
    IF t \in st.txs /\ SubmitAllowed(st, a, b, x, size)
    THEN {Ok(Submitted(st, t, a, b, x, size))} ELSE {}

-----------------------------------------------------------------------------
(* Durability.  fl: what a kill may at most take back.
     mh      height of the main chain at the last completed flush
     der     owner -> height at the last completed flush of its chain
     coins, gases, ocoins, ogases: the ledger states since that flush
     txs     transactions stored at that flush
   A kill leaves prefixes of the chains, each ledger in one of the states it
   passed through, and a set of transactions between the two.                *)

FloorOf(st, ders) ==
    [mh    |-> st.main.h,
     der   |-> ders,
     coins |-> {st.coin},
     gases |-> {st.gas},
     ocoins |-> {st.ocoin},
     ogases |-> {st.ogas},
     txs   |-> st.txs]

Passed(fl, st) ==
    [fl EXCEPT !.coins = @ \union {st.coin},
               !.gases = @ \union {st.gas},
               !.ocoins = @ \union {st.ocoin},
               !.ogases = @ \union {st.ogas}]

FlushMain(fl, st) == FloorOf(st, fl.der)
FlushDer(fl, st, o) ==
    IF o \in DOMAIN st.der THEN [fl EXCEPT !.der = (o :> st.der[o].h) @@ @] ELSE fl

(* after a restart everything that is read is also on disk *)
Restarted(st) == FloorOf(st, [o \in {p \in DOMAIN st.der : st.der[p].h > 0} |-> st.der[o].h])

(* may a kill in state st (with floor fl) be followed by state n? *)
SurvivesMain(fl, st, n) ==
    /\ n.main.h >= fl.mh
    /\ IsPrefixOf(n.main, st.main)
SurvivesLedgers(fl, st, n) ==
    /\ n.coin \in fl.coins
    /\ n.gas \in fl.gases
SurvivesOld(fl, st, n) == n.ocoin \in fl.ocoins /\ n.ogas \in fl.ogases
SurvivesTxs(fl, st, n) == fl.txs \subseteq n.txs /\ n.txs \subseteq st.txs
SurvivesDer(fl, st, n, o) ==
    IF o \in DOMAIN fl.der
    THEN /\ n.der[o].anchor = st.der[o].anchor
         /\ n.der[o].h >= fl.der[o]
         /\ IsPrefixOf(n.der[o], st.der[o])
    ELSE \* never flushed: it may start again at the tip of now
         \/ n.der[o].h = 0 /\ n.der[o].anchor = LastOf(n.main)
         \/ /\ o \in DOMAIN st.der
            /\ n.der[o].anchor = st.der[o].anchor
            /\ IsPrefixOf(n.der[o], st.der[o])
=============================================================================
