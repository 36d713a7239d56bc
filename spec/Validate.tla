------------------------------ MODULE Validate ------------------------------
(* C08: a block validates against its predecessor exactly if it links to it,
   carries the retargeted difficulty, its proof of work meets the
   predecessor's demand and (a transaction block) its commitment is that of
   its transactions.  The harness builds real pairs of blocks, altered in any
   of these respects, and measures them with its own means (its own SHA-256
   over its own concatenation); this module says what the answer has to be.  *)
EXTENDS Cases, U256, SequencesExt

INSTANCE BlockTree WITH
    Plus <- UPlus, Minus <- UMinus, Leq <- ULeq, Times <- UTimes,
    Zero <- UZero, MaxNum <- UMax, Root <- 1,
    FeeStep <- UFromInt(62500), GasPrice <- <<10752, 34023, 145>>,
    CoinsPerCycle <- <<0, 9280, 53284, 34884, 24071, 41>>,
    BlocksPerEpoch <- 1000000, BlockTime <- UFromInt(600),
    MinLz <- 1, MaxLz <- 256

Kinds  == {"tx", "sum", "der"}
Links  == {"bit", "zero", "before", "random"}
Diffs  == {"harder", "easier", "kept", "first", "bit", "random"}
Roots  == {"zero", "random", "dropped", "added", "replaced", "bit"}
Works  == {"more", "short", "none", "zeros", "wrongtx", "wrongprev", "new"}
Times0 == {"same", "past", "early", "on-", "on", "on+", "late", "zero", "max"}
PTimes == {"", "zero", "max"}
Heights == {"random", "max", "zero", "one", "same", "below", "skip"}
PHeights == {"zero", "one", "epoch", "byte", "max"}
Txs == {"zeros", "twice", "pred", "link"}
Founders == {"zero", "same", "root"}
Fees == {"zero", "max"}
Demands == {1, 2, 7, 8, 9, 10, 15, 16}
OddDemands == {"ones", "random", "zeros then random"}

Fair(kind, pkind) ==
    [k |-> "validate", kind |-> kind, pkind |-> pkind, plz |-> 3, ptime |-> "", time |-> "early", pdiff |-> "",
     link |-> "", diff |-> "", root |-> "", pow |-> "", ntx |-> 2, height |-> "", pred |-> "", ph |-> "", txs |-> "", founder |-> "", fee |-> ""]

Wrong(f) == {f, [f EXCEPT !.link = "random"], [f EXCEPT !.diff = "easier"], [f EXCEPT !.diff = "harder"], [f EXCEPT !.pow = "short"]}
            \union (IF f.kind = "tx" THEN {[f EXCEPT !.root = "random"]} ELSE {})
OneOff(f) ==
    {f}
    \union {[f EXCEPT !.link = x] : x \in Links}
    \union {[f EXCEPT !.root = x] : x \in Roots}
    \union {[f EXCEPT !.pow = x, !.plz = y] : x \in Works, y \in {1, 3, 8, 9}}
    \union {[f EXCEPT !.diff = x, !.time = t, !.plz = y] : x \in Diffs \union {""}, t \in Times0, y \in {1, 2, 8, 9}}
    \union {[f EXCEPT !.plz = x, !.time = t, !.ptime = p] : x \in Demands, t \in Times0, p \in PTimes}
    \union {[f EXCEPT !.ntx = x, !.root = y] : x \in 0..9, y \in Roots \union {""}}
    \union (IF f.kind = "tx" THEN {[f EXCEPT !.ntx = x, !.root = y] : x \in {100, 257, 1100, 4200}, y \in Roots \union {""}} ELSE {})
    \union {[f EXCEPT !.pdiff = x, !.time = t] : x \in OddDemands, t \in Times0}
    \union {[f EXCEPT !.plz = x, !.time = t] : x \in {17, 18, 128, 247, 248, 249, 255, 256}, t \in {"early", "on", "late"}}
    \* whatever a block's validity does not depend on, with everything right and with
    \* one thing wrong
    \union {[g EXCEPT !.height = x, !.ph = y] : g \in Wrong(f), x \in Heights \union {""}, y \in PHeights \union {""}}
    \union {[g EXCEPT !.founder = x, !.fee = y] : g \in Wrong(f), x \in Founders \union {""}, y \in Fees \union {""}}
    \union {[g EXCEPT !.txs = x, !.ntx = n] : g \in Wrong(f), x \in Txs, n \in {1, 2, 3, 5}}
    \union {[f EXCEPT !.pred = "none", !.link = l, !.pow = "none"] : l \in Links}

Maybe(S, k) == RandomElement(IF RandomElement(1..k) = 1 THEN S ELSE {""})
RandomCase(k) ==
    [k |-> "validate", kind |-> RandomElement(Kinds), pkind |-> RandomElement(Kinds), plz |-> RandomElement(1..12),
     ptime |-> Maybe(PTimes, 4), time |-> RandomElement(Times0), pdiff |-> Maybe(OddDemands, 8),
     link |-> Maybe(Links, 6), diff |-> Maybe(Diffs, 4), root |-> Maybe(Roots, 5), pow |-> Maybe(Works, 3),
     ntx |-> RandomElement(0..33), height |-> Maybe(Heights, 4), pred |-> Maybe({"none"}, 30),
     ph |-> Maybe(PHeights, 4), txs |-> Maybe(Txs, 6), founder |-> Maybe(Founders, 4), fee |-> Maybe(Fees, 4)]

ValidateCases(n) ==
    SetToSeq(UNION {OneOff(Fair(a, b)) : a \in Kinds, b \in Kinds}) \o [k \in 1..n |-> RandomCase(k)]

\* a demand that a chain can have
Reachable(r) == r.pcanon /\ r.plz >= 1
Accepts(r) == /\ r.link
              /\ r.canon /\ r.lz = Retarget(r.plz, r.ptime, r.time)
              /\ r.work >= r.plz
              /\ r.root
Refuses(r) == ~r.link \/ r.work < r.plz \/ ~r.root
Expected(r) ==
    IF r.alone THEN {"true"}
    ELSE IF Reachable(r) THEN IF Accepts(r) THEN {"true"} ELSE {"false", "err"}
    ELSE IF Refuses(r) THEN {"false", "err"} ELSE {"true", "false", "err"}

ValidateDiff(e) ==
    LET r == e.r IN
    One("validate", r.res \in Expected(r), Expected(r), r)
    \union One("verify_block", r.verify = IF r.link THEN "true" ELSE "false", r.link, r.verify)
=============================================================================
