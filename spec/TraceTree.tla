----------------------------- MODULE TraceTree ------------------------------
(* Checks recordings of the real tree against BlockTree.  Each line of the
   recording is one operation with its arguments, its result, and everything
   that can be observed of the tree afterwards.  The recording consists of
   runs; each run is a behaviour of its own (an initial state per run).

   Every observed component is compared with what the specification allows,
   and a difference is charged to the property it breaks.  The state then
   takes over what was observed, so that the rest of the run is judged on its
   own and a difference in one component never taints another property.     *)
EXTENDS U256, Json, IOUtils, TLC, FiniteSets, Sequences

CONSTANT Scope      \* the properties to decide

INSTANCE BlockTree WITH
    Plus <- UPlus, Minus <- UMinus, Leq <- ULeq, Times <- UTimes,
    Zero <- UZero, MaxNum <- UMax, Root <- 1,
    FeeStep <- UFromInt(62500), GasPrice <- <<10752, 34023, 145>>,
    CoinsPerCycle <- <<0, 9280, 53284, 34884, 24071, 41>>,
    BlocksPerEpoch <- 1000000, BlockTime <- UFromInt(600),
    MinLz <- 1, MaxLz <- 256

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
Starts == {i \in 1..N : T[i].ev = "begin"}
Range(s) == {s[i] : i \in DOMAIN s}

VARIABLES l,        \* next line
          st,       \* BlockTree's state
          fl,       \* what a kill may take back
          pend,     \* owners whose chain was not looked at since a restart
          roots,    \* commitments of summaries seen in this run
          bad       \* differences found in the last line
vars == <<l, st, fl, pend, roots, bad>>

NoTree == [coin |-> <<>>, gas |-> <<>>, ocoin |-> <<>>, ogas |-> <<>>,
           main |-> [at |-> <<>>, h |-> 0], txs |-> {}, der |-> <<>>, blk |-> <<>>]
NoFloor == [mh |-> 0, der |-> <<>>, coins |-> {}, gases |-> {}, ocoins |-> {}, ogases |-> {}, txs |-> {}]

-----------------------------------------------------------------------------
(* differences: sets of <<property, what, expected, seen>> *)

Chk(ps, what, cond, exp, seen) ==
    IF cond THEN {} ELSE {<<p, what, exp, seen>> : p \in (ps \intersect Scope)}

None == {}

NbOf(e) == [i \in {e.nb[k].id : k \in DOMAIN e.nb} |->
                e.nb[CHOOSE k \in DOMAIN e.nb : e.nb[k].id = i]]
With(e, s) == [s EXCEPT !.blk = NbOf(e) @@ @]

(* comparing an observed chain with an expected one *)
ProbeDiff(ps, what, o, c) ==
    LET wrong == {k \in DOMAIN o.probe : o.probe[k][2] # AtHeight(c, o.probe[k][1])}
    IN  Chk(ps, what \o ": block at height", wrong = {},
            [k \in wrong |-> <<o.probe[k][1], AtHeight(c, o.probe[k][1])>>],
            [k \in wrong |-> o.probe[k]])
Found(b, c, s) == IF b # 0 /\ OnChain(c, b, Attr(s, b).h) THEN b ELSE 0
HashDiff(ps, what, o, c, s) ==
    LET wrong == {k \in DOMAIN o.hash : o.hash[k][2] # Found(o.hash[k][1], c, s)}
    IN  Chk(ps, what \o ": block by hash", wrong = {},
            [k \in wrong |-> Found(o.hash[k][1], c, s)], [k \in wrong |-> o.hash[k]])
ChainDiff(ps, what, o, c, s) ==
    Chk(ps, what \o ": height", o.h = c.h, c.h, o.h)
    \union Chk(ps, what \o ": last block", o.last = LastOf(c), LastOf(c), o.last)
    \union ProbeDiff(ps, what, o, c)
    \union HashDiff(ps, what, o, c, s)

TxDiff(ps, what, o, s) ==
    LET want(t) == IF t # 0 /\ t \in s.txs THEN t ELSE 0
        wrong == {k \in DOMAIN o :
                    \/ o[k][2] # (IF want(o[k][1]) = 0 THEN 0 ELSE 1)
                    \/ o[k][3] # want(o[k][1])
                    \/ o[k][4] # want(o[k][1])}
    IN  Chk(ps, what \o ": stored transactions", wrong = {},
            [k \in wrong |-> want(o[k][1])], [k \in wrong |-> o[k]])

DerChain(d) == [at |-> d.at, h |-> d.h]
HandleDiff(ps, d, s) ==
    LET c == s.der[d.o] IN
    IF d.o \notin DOMAIN s.der THEN Chk(ps, "chain of an owner", FALSE, 0, d.o)
    ELSE Chk(ps, "derivative chain: anchor", d.anchor = c.anchor, c.anchor, d.anchor)
         \union ChainDiff(ps, "derivative chain", d, DerChain(c), s)
DersDiff(ps, o, s) == UNION {HandleDiff(ps, o.der[k], s) : k \in DOMAIN o.der}

-----------------------------------------------------------------------------
(* taking over what was observed *)

SeenAt(o)    == [h \in {o.probe[k][1] : k \in {j \in DOMAIN o.probe : o.probe[j][2] > 0}} |->
                    o.probe[CHOOSE k \in DOMAIN o.probe : o.probe[k][1] = h][2]]
Blank(o, at) == [h \in DOMAIN at \ {o.probe[k][1] : k \in {j \in DOMAIN o.probe : o.probe[j][2] <= 0}} |-> at[h]]
SeenChain(o, c) == [at |-> SeenAt(o) @@ Blank(o, c.at), h |-> o.h]
SeenTxs(o, s) ==
    LET yes == {o[k][1] : k \in {j \in DOMAIN o : o[j][3] = o[j][1] /\ o[j][1] # 0}}
        no  == {o[k][1] : k \in {j \in DOMAIN o : o[j][3] # o[j][1]}}
    IN  (s.txs \union yes) \ no
SeenDer(o, s) ==
    LET os == {o.der[k].o : k \in DOMAIN o.der}
        dd(w) == o.der[CHOOSE k \in DOMAIN o.der : o.der[k].o = w]
    IN  [w \in os |-> LET c == SeenChain(dd(w), IF w \in DOMAIN s.der THEN s.der[w] ELSE [at |-> <<>>, h |-> 0])
                      IN  [anchor |-> dd(w).anchor, at |-> c.at, h |-> c.h]] @@ s.der
Seen(o, s) ==
    [s EXCEPT !.coin = o.coin, !.gas = o.gas, !.ocoin = o.ocoin, !.ogas = o.ogas,
              !.main = SeenChain(o.main, @), !.txs = SeenTxs(o.txs, s), !.der = SeenDer(o, s)]
(* everything of a state that was observed, nothing else (for what a kill leaves) *)
SeenOnly(o, s) ==
    [s EXCEPT !.coin = o.coin, !.gas = o.gas, !.ocoin = o.ocoin, !.ogas = o.ogas,
              !.main = [at |-> SeenAt(o.main), h |-> o.main.h],
              !.txs = {o.txs[k][1] : k \in {j \in DOMAIN o.txs : o.txs[j][3] = o.txs[j][1] /\ o.txs[j][1] # 0}},
              !.der = SeenDer([der |-> o.der], [der |-> <<>>])]

-----------------------------------------------------------------------------
(* what the specification allows for a line *)

(* named deviation: see known_findings.json *)
Replays(e, s) == IF e.ev = "submit" THEN ReplayApplied(s, e.t, e.a, e.b, e.x, e.size) ELSE {}

(* operations that name, besides the accounts, one whose name is not as long as
   theirs: an account of its own, numbered after them, empty before and after  *)
RECURSIVE OddRun(_, _, _)
OddRun(ops, k, s) ==
    IF k > Len(ops) THEN {[res |-> "ok", st |-> s]}
    ELSE LET v == ops[k]
             w == {x \in (IF v.l = "coin" THEN CoinOp(s, v.k, v.a, v.b, v.x) ELSE GasOp(s, v.k, v.a, v.b, v.x)) : x.res = v.res}
         IN  IF w = {} THEN {[res |-> "not " \o v.res \o " of " \o ToString(k), st |-> s]} ELSE OddRun(ops, k + 1, (CHOOSE x \in w : TRUE).st)
Odd(e, s) ==
    LET n == Len(s.coin) IN
    {[x EXCEPT !.st.coin = SubSeq(@, 1, n), !.st.gas = SubSeq(@, 1, n)]
        : x \in OddRun(e.ops, 1, [s EXCEPT !.coin = Append(@, UZero), !.gas = Append(@, UZero)])}

Allowed(e, s) ==
    CASE e.ev = "odd"      -> Odd(e, s)
      [] e.ev = "coin"     -> CoinOp(s, e.k, e.a, e.b, e.x)
      [] e.ev = "gas"      -> GasOp(s, e.k, e.a, e.b, e.x)
      [] e.ev = "submit"   -> Submit(s, e.t, e.a, e.b, e.x, e.size)
      [] e.ev = "addtx"    -> AddTxs(s, Range(e.t))
      [] e.ev = "addblock" -> AddBlock(s, e.b, Attr(s, e.b), Range(e.t))
      [] e.ev = "mine"     -> Mine(s, e.w, Len(e.txs), e.b, Attr(s, e.b))
      [] e.ev = "dopen"    -> DOpen(s, e.o)
      [] e.ev = "dadd"     -> DAddBlock(s, e.o, e.b, Attr(s, e.b))
      [] e.ev = "dmine"    -> DMine(s, e.o, e.w, e.b, Attr(s, e.b))
      [] OTHER             -> {Ok(s)}

(* whom a wrong result, and a wrong component, is charged to *)
ResOf(e)  == CASE e.ev \in {"coin", "gas", "odd", "churn"} -> {"C01"}
               [] e.ev = "submit" -> {"C03"}
               [] e.ev \in {"addtx", "addblock"} -> {"C05"}
               [] e.ev \in {"mine", "dmine"} -> {"C07"}
               [] e.ev \in {"dopen", "dadd"} -> {"C06"}
               [] e.ev \in {"flush", "dflush"} -> {"C11"}
               [] OTHER -> {}
CoinOf(e, end) == CASE e.ev = "submit" -> {"C03"}
               [] e.ev = "peer" -> {"C20"}
               [] e.ev = "mine" /\ end -> {"C10"}
               [] e.ev \in {"mine", "dmine"} /\ e.res = "err" -> {"C07", "C01"}
               [] OTHER -> {"C01"}
MainOf(e) == CASE e.ev = "peer" -> {"C20"}
               [] e.ev = "mine" -> {"C05", "C07"}
               [] e.ev \in {"dopen", "dadd", "dmine", "dflush"} -> {"C05", "C06"}
               [] OTHER -> {"C05"}
DerOf(e)  == IF e.ev = "peer" THEN {"C20"} ELSE IF e.ev = "dmine" THEN {"C06", "C07"} ELSE {"C06"}
TxsOf(e)  == IF e.ev = "peer" THEN {"C20"} ELSE IF e.ev = "submit" THEN {"C03", "C05"} ELSE {"C05"}

MinedDiff(e, s, a) ==       \* s: before; a: the new block's attributes
    LET x == MinedAttr(s, e.time) IN
    Chk({"C07", "C10"}, "mined: kind", a.kind = x.kind, x.kind, a.kind)
    \union Chk({"C07"}, "mined: height", a.h = x.h, x.h, a.h)
    \union Chk({"C07"}, "mined: predecessor", a.prev = x.prev, x.prev, a.prev)
    \union Chk({"C07"}, "mined: timestamp", a.time = x.time, x.time, a.time)
    \union Chk({"C07", "C09"}, "mined: difficulty", a.lz = x.lz /\ a.canon, x.lz, <<a.lz, a.canon>>)
    \union Chk({"C07", "C09"}, "mined: fee", a.fee = x.fee, x.fee, a.fee)
    \union Chk({"C07"}, "mined: founder", a.founder = e.f, e.f, a.founder)
    \union Chk({"C07"}, "mined: nonce", a.pow = e.pow, e.pow, a.pow)
    \union Chk({"C07"}, "mined: transactions", a.txs = e.txs, e.txs, a.txs)
    \union Chk({"C07"}, "mined: commitment", a.kind = "tx" => a.root = "match", "match", a.root)
DMinedDiff(e, s, a) ==
    LET x == DMinedAttr(s, e.o, e.time) IN
    Chk({"C07"}, "mined: kind", a.kind = x.kind, x.kind, a.kind)
    \union Chk({"C07"}, "mined: height", a.h = x.h, x.h, a.h)
    \union Chk({"C07", "C06"}, "mined: predecessor", a.prev = x.prev, x.prev, a.prev)
    \union Chk({"C07"}, "mined: timestamp", a.time = x.time, x.time, a.time)
    \union Chk({"C07", "C09"}, "mined: difficulty", a.lz = x.lz /\ a.canon, x.lz, <<a.lz, a.canon>>)
    \union Chk({"C07"}, "mined: founder", a.founder = e.o, e.o, a.founder)
    \union Chk({"C07"}, "mined: nonce", a.pow = e.pow, e.pow, a.pow)

(* two summaries commit to the same only if they cover the same balances *)
Clash(e, a, s) ==
    {r \in roots : r.root = a.root /\ (r.coin # s.coin \/ r.gas # s.gas)}
TwinDiff(e, s, a) ==
    LET tw == IF "twins" \in DOMAIN e THEN Range(e.twins) ELSE {} IN
    Chk({"C10"}, "summary: commitment shared by different balances",
        /\ Clash(e, a, s) = {}
        /\ \A t \in tw : (t.coin # s.coin \/ t.gas # s.gas) => t.root # a.root
        /\ \A t, u \in tw : (t.coin # u.coin \/ t.gas # u.gas) => t.root # u.root,
        "different", a.root)
    \union Chk({"C10"}, "summary: commitment does not depend on the balances alone",
        \A t \in tw : (t.coin = s.coin /\ t.gas = s.gas) => t.root = a.root, "same", a.root)

SurvivesMainSeen(o, f, s) == o.h >= f.mh /\ o.h <= s.main.h
TxsBetween(o, f, s) ==
    \A k \in DOMAIN o :
        LET t == o[k][1]
            there == o[k][2] = 1 /\ o[k][3] = t /\ o[k][4] = t
            not == o[k][2] = 0 /\ o[k][3] = 0 /\ o[k][4] = 0
        IN  /\ there \/ not
            /\ t # 0 /\ t \in f.txs => there
            /\ there => t # 0 /\ t \in s.txs

(* a derivative chain as it was found after a kill or restart *)
ImageDer(d, f, s, n, why) ==
    LET was == d.o \in DOMAIN s.der
        P == IF d.o \in DOMAIN f.der /\ was /\ f.der[d.o] = s.der[d.o].h THEN {"C06", "C11", "C12"} ELSE {"C06", "C12"}
        full == IF was THEN DerChain(s.der[d.o]) ELSE [at |-> <<>>, h |-> 0]
        \* only some heights were looked at; ChainDiff compares those
        n1 == IF was /\ d.h > 0 THEN [n EXCEPT !.der[d.o].at = [h \in {k \in DOMAIN full.at : k < d.h} |-> full.at[h]]] ELSE n
    IN  Chk(P, "restart: derivative chain", SurvivesDer(f, s, n1, d.o),
            [floor |-> f.der, was |-> IF was THEN s.der[d.o] ELSE 0], <<d, why>>)
        \union ChainDiff(P, "restart: derivative chain", d, [at |-> full.at, h |-> d.h], s)

(* what a kill during line e leaves: image im, judged from floor f, with s the
   furthest state the tree was in *)
(* named deviation: the storage engine does not survive a kill while it writes
   one of its own small files; see known_findings.json                       *)
Torn(im) == im.torn /\ PrintT(<<"KNOWN", "C12", "torn">>)
ImageDiff(im, f, s) ==
    IF im.opens # "ok"
    THEN Chk({"C12"}, "kill: reopening", Torn(im), "ok", <<im.opens, im.why>>)
    ELSE LET n == SeenOnly(im, s)
             tight == Cardinality(f.coins) = 1 /\ Cardinality(f.gases) = 1 /\ f.mh = s.main.h
             P == IF tight THEN {"C11", "C12"} ELSE {"C12"}
         IN  Chk(P, "kill: main chain", SurvivesMainSeen(im.main, f, s), [floor |-> f.mh, main |-> s.main], <<im.main, im.why>>)
             \union ChainDiff({"C12"}, "kill: main chain", im.main, [at |-> s.main.at, h |-> im.main.h], s)
             \union Chk(P, "kill: ledgers", SurvivesLedgers(f, s, n), <<f.coins, f.gases>>, <<n.coin, n.gas, im.why>>)
             \union Chk(P, "kill: previous epoch's ledgers", SurvivesOld(f, s, n), <<f.ocoins, f.ogases>>, <<n.ocoin, n.ogas, im.why>>)
             \union Chk(P, "kill: stored transactions", TxsBetween(im.txs, f, s), <<f.txs, s.txs>>, <<im.txs, im.why>>)
             \union UNION {ImageDer(im.der[k], f, s, n, im.why) : k \in {j \in DOMAIN im.der : im.der[j].h # 0 - 3 \/ ~Torn(im)}}
             \union Chk({"C12"}, "kill: mining goes on", im.goes = "ok", "ok", <<im.goes, im.why>>)

Images(e, f, s) ==
    IF "imgs" \notin DOMAIN e \/ Scope \intersect {"C06", "C11", "C12"} = {} THEN {}
    ELSE UNION {ImageDiff(e.imgs[k], f, s) : k \in DOMAIN e.imgs}

(* a second tree, new in another place, that was given the operations of the
   first ("same"), or the blocks and transactions the first one accepted
   ("handed"; nothing was said to it about balances)                         *)
PeerDiff(e, s) ==
    LET p == e.peer IN
    Chk({"C20"}, "peer: opening", p.opens = "ok", "ok", p.opens)
    \union (IF p.opens # "ok" THEN {} ELSE
        Chk({"C20"}, "peer: answers", p.other = <<>>, "the same", p.other)
        \union ChainDiff({"C20"}, "peer: main chain", p.main, s.main, s)
        \union UNION {Chk({"C20"}, "peer: derivative chain's anchor", p.der[k].anchor = s.der[p.der[k].o].anchor, s.der[p.der[k].o].anchor, p.der[k].anchor)
                      \union ChainDiff({"C20"}, "peer: derivative chain", p.der[k], DerChain(s.der[p.der[k].o]), s) : k \in DOMAIN p.der}
        \union TxDiff({"C20"}, "peer", p.txs, s)
        \union (IF e.mode # "same" THEN {} ELSE
            Chk({"C20"}, "peer: ledgers", p.coin = s.coin /\ p.gas = s.gas, <<s.coin, s.gas>>, <<p.coin, p.gas>>)
            \union Chk({"C20"}, "peer: previous epoch's ledgers", p.ocoin = s.ocoin /\ p.ogas = s.ogas, <<s.ocoin, s.ogas>>, <<p.ocoin, p.ogas>>)))

-----------------------------------------------------------------------------
(* the kinds of lines *)

\* the hash of the first block of all new trees, whoever made them: what the first
\* allotment, the root's address, the inception time and the beginning difficulty give
First == "c06f59eb3e3ee9770dcf346fcf918da19577263d5ae7dc5c79881ca40365031d"

Begin(e) ==
    /\ e.ev = "begin"
    /\ st' = NoTree /\ fl' = NoFloor /\ pend' = {} /\ roots' = {} /\ bad' = {}

(* a tree that cannot be opened ends its run *)
Fatal(e) ==
    /\ e.ev \in {"open", "close", "kill"} /\ e.fatal
    /\ bad' = Chk(IF e.ev = "open" THEN {"C11", "C12", "C05"} ELSE {"C11", "C12"}, e.ev \o ": reopening", FALSE, "ok", e.res)
    /\ UNCHANGED <<st, fl, pend, roots>>

FreshCoin(n) == [i \in 1..n |-> IF i = 1 THEN <<0, 9280, 53284, 34884, 24071, 41>> ELSE <<>>]
NoMoney(n) == [i \in 1..n |-> <<>>]
FirstOpen(e) ==
    /\ e.ev = "open" /\ ~e.fatal
    /\ LET o == e.obs
           s == Seen(o, With(e, NoTree))
           n == Len(o.coin)
           g == LastOf(s.main)
           a == Attr(s, g)
           s1 == [s EXCEPT !.main = [at |-> (0 :> g), h |-> 1], !.coin = FreshCoin(n), !.gas = NoMoney(n),
                           !.ocoin = NoMoney(n), !.ogas = NoMoney(n), !.txs = {}]
           f == [FloorOf(s1, <<>>) EXCEPT !.mh = 1]
       IN  /\ st' = s
           /\ fl' = f
           /\ pend' = {}
           /\ roots' = {}
           /\ bad' = Chk({"C10"}, "new tree: root's allotment", o.coin[1] = FreshCoin(n)[1], FreshCoin(n)[1], o.coin[1])
                \union Chk({"C01"}, "new tree: balances", Tail(o.coin) = Tail(FreshCoin(n)) /\ o.gas = NoMoney(n), "zero", <<o.coin, o.gas>>)
                \union Chk({"C10"}, "new tree: previous epoch", o.ocoin = NoMoney(n) /\ o.ogas = NoMoney(n), "zero", <<o.ocoin, o.ogas>>)
                \union Chk({"C05"}, "new tree: first block", o.main.h = 1 /\ a.kind = "sum" /\ a.h = 0, "summary", a)
                \union Chk({"C20"}, "new tree: same first block as every other", e.first = First, First, e.first)
                \union ChainDiff({"C05"}, "new tree", o.main, s1.main, s1)
                \union TxDiff({"C05"}, "new tree", o.txs, s1)
                \union Images(e, f, s1)

(* the tip was moved; only the harness does this *)
Jump(e) ==
    /\ e.ev = "jump"
    /\ st' = [st EXCEPT !.main.h = e.h]
    /\ bad' = {}
    /\ UNCHANGED <<fl, pend, roots>>

DJump(e) ==
    /\ e.ev = "djump"
    /\ st' = [st EXCEPT !.der[e.o].h = e.h]
    /\ bad' = {}
    /\ UNCHANGED <<fl, pend, roots>>

(* closed or killed, and opened again *)
Restart(e) ==
    /\ e.ev \in {"close", "kill"} /\ ~e.fatal
    /\ LET o == e.obs
           s == With(e, st)
           n == [SeenOnly(o, s) EXCEPT !.txs = SeenTxs(o.txs, s)]
           n1 == [Seen(o, s) EXCEPT !.main.at = [h \in {k \in DOMAIN @ : k < o.main.h} |-> @[h]]]
           exact == fl.mh = s.main.h /\ Cardinality(fl.coins) = 1 /\ Cardinality(fl.gases) = 1
                    /\ Cardinality(fl.ocoins) = 1 /\ Cardinality(fl.ogases) = 1 /\ fl.txs = s.txs
           P == IF exact THEN {"C11"} ELSE {"C12"}
       IN  /\ bad' = Chk(P, "restart: main chain", SurvivesMainSeen(o.main, fl, s), [floor |-> fl.mh, main |-> s.main], o.main)
                \union ChainDiff(P, "restart: main chain", o.main, [at |-> s.main.at, h |-> o.main.h], s)
                \union Chk(P \union (IF exact THEN {"C10"} ELSE {}), "restart: ledgers", SurvivesLedgers(fl, s, n), <<fl.coins, fl.gases>>, <<n.coin, n.gas>>)
                \union Chk(P \union (IF exact THEN {"C10"} ELSE {}), "restart: previous epoch's ledgers", SurvivesOld(fl, s, n), <<fl.ocoins, fl.ogases>>, <<n.ocoin, n.ogas>>)
                \union Chk(P, "restart: stored transactions", TxsBetween(o.txs, fl, s), <<fl.txs, s.txs>>, o.txs)
                \union Images(e, fl, s)
           /\ st' = n1
           /\ fl' = [FloorOf(n1, fl.der) EXCEPT !.txs = {t \in n1.txs : \E k \in DOMAIN o.txs : o.txs[k][1] = t}]
           /\ pend' = DOMAIN st.der \union pend
           /\ UNCHANGED roots

(* the first look at a chain after a restart *)
Look(e) ==
    /\ e.ev = "dopen" /\ e.o \in pend
    /\ LET o == e.obs
           s == With(e, st)
           ks == {k \in DOMAIN o.der : o.der[k].o = e.o}
           n == Seen(o, s)
           w == [SeenOnly(o, s) EXCEPT !.main = s.main]
       IN  /\ bad' = Chk({"C11", "C06"}, "restart: derivative chain opens", e.res = "ok" /\ ks # {}, "ok", e.res)
                \union (IF ks = {} THEN {} ELSE UNION {ImageDer(o.der[k], fl, s, w, "") : k \in ks})
           /\ st' = n
           /\ fl' = IF ks = {} THEN fl ELSE [fl EXCEPT !.der = (IF n.der[e.o].h > 0 \/ e.o \in DOMAIN fl.der THEN (e.o :> n.der[e.o].h) ELSE <<>>) @@ @]
           /\ pend' = pend \ {e.o}
           /\ UNCHANGED roots

Step(e) ==
    /\ e.ev \notin {"begin", "open", "close", "kill", "jump", "djump"}
    /\ ~(e.ev = "dopen" /\ e.o \in pend)
    /\ LET o == e.obs
           s == With(e, st)
           spec == Allowed(e, s)
           r0 == {x \in spec : x.res = e.res}
           more == IF \E x \in r0 : x.st.coin = o.coin /\ x.st.gas = o.gas THEN {}
                   ELSE {x \in Replays(e, s) : x.res = e.res /\ x.st.coin = o.coin /\ x.st.gas = o.gas}
           known == more # {} /\ PrintT(<<"KNOWN", "C03", "replay">>)
           cand == IF known THEN more ELSE IF r0 # {} THEN r0 ELSE spec
           x == (CHOOSE y \in cand : TRUE).st
           coins == {y.st.coin : y \in cand}
           gases == {y.st.gas : y \in cand}
           end == e.ev = "mine" /\ EpochEnd(s.main.h) /\ e.res = "ok"
           n == Seen(o, x)
           a == IF "b" \in DOMAIN e THEN Attr(s, e.b) ELSE NoBlk
           fl1 == Passed(Passed(fl, x), n)
       IN  /\ bad' =
                Chk(ResOf(e), e.ev \o ": result", r0 # {} \/ known, {y.res : y \in spec}, e.res)
                \union Chk(CoinOf(e, end), e.ev \o ": coins", o.coin \in coins, coins, o.coin)
                \union Chk(CoinOf(e, end), e.ev \o ": gas", o.gas \in gases, gases, o.gas)
                \union Chk({"C10"}, e.ev \o ": previous epoch", o.ocoin = x.ocoin /\ o.ogas = x.ogas,
                           <<x.ocoin, x.ogas>>, <<o.ocoin, o.ogas>>)
                \union ChainDiff(MainOf(e), e.ev \o ": main chain", o.main, x.main, s)
                \union Chk({"C05"}, e.ev \o ": other handle",
                           "main2" \in DOMAIN o => /\ o.main2.h = x.main.h
                                                  /\ o.main2.last = LastOf(x.main)
                                                  /\ o.main2.top = AtHeight(x.main, x.main.h - 1)
                                                  /\ o.main2.above = 0,
                           <<x.main.h, LastOf(x.main)>>, IF "main2" \in DOMAIN o THEN o.main2 ELSE <<>>)
                \union TxDiff(TxsOf(e), e.ev, o.txs, x)
                \union DersDiff(DerOf(e), o, x)
                \union (IF e.ev = "peer" THEN PeerDiff(e, x) ELSE {})
                \union (IF e.ev = "mine" /\ e.res = "ok" THEN MinedDiff(e, s, a) ELSE {})
                \union (IF e.ev = "mine" /\ e.res = "ok" /\ a.kind = "sum" THEN TwinDiff(e, s, a) ELSE {})
                \union (IF e.ev = "dmine" /\ e.res = "ok" THEN DMinedDiff(e, s, a) ELSE {})
                \union (IF e.ev \in {"mine", "dmine"} THEN Chk({"C08"}, e.ev \o ": validates", \A k \in DOMAIN e.valid : e.valid[k] = "true", "true", e.valid) ELSE {})
                \union Images(e, fl1, [x EXCEPT !.main = IF x.main.h >= s.main.h THEN x.main ELSE s.main,
                                                !.txs = s.txs \union x.txs])
           /\ st' = n
           /\ roots' = IF end THEN roots \union {[root |-> a.root, coin |-> s.coin, gas |-> s.gas]} ELSE roots
           /\ fl' = CASE e.ev = "flush" -> FlushMain(fl, n)
                      [] e.ev = "dflush" -> FlushDer(fl, n, e.o)
                      [] OTHER -> fl1
           /\ UNCHANGED pend

-----------------------------------------------------------------------------
Init == /\ l \in Starts
        /\ st = NoTree /\ fl = NoFloor /\ pend = {} /\ roots = {} /\ bad = {}

LastLine(i) == i = N \/ (i + 1) \in Starts

Next ==
    /\ l <= N
    /\ l' = IF LastLine(l) THEN N + l ELSE l + 1
    /\ LET e == T[l] IN
        Begin(e) \/ (e.ev \in {"open", "close", "kill"} /\ Fatal(e)) \/ FirstOpen(e) \/ Jump(e) \/ DJump(e) \/ Restart(e) \/ Look(e) \/ Step(e)

Spec == Init /\ [][Next]_vars

(* the property: no line differs from what the specification allows *)
Conforms == bad = {} \/ (PrintT(<<"BAD", l, ToJson(bad)>>) /\ FALSE)
=============================================================================
