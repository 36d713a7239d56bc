-------------------------------- MODULE Mass --------------------------------
(* Trees that hold thousands of accounts, transactions and blocks (C05, C07, C10, C11).
   What a tree holds is one of the versions of what it was given; a version is
   known by its number: 1 is the new tree's, every change makes another, and a
   change that is taken back makes one that equals an older one.              *)
EXTENDS Cases, SequencesExt

Changes == {"first", "last", "any"}
Big(m, t, b, st) == [k |-> "mass", n |-> m, txs |-> t, blocks |-> b, list |-> 0, steps |-> st]

Begin == <<"fill">>
Epochs == <<
    <<"end", "any", "end", "back", "end", "flush", "kill">>,
    <<"end", "last", "end", "flush", "close", "first", "end", "back", "back", "end", "flush", "kill", "any", "end">>,
    <<"flush", "kill", "end", "flush", "kill", "last", "end", "first", "end", "back", "end">>,
    <<"first", "back", "end", "first", "end", "back", "last", "end", "flush", "close">>>>
Keeps == <<
    <<"flush", "kill", "any", "flush", "kill", "last", "flush", "close">>,
    <<"flush", "close", "first", "flush", "kill", "fill", "flush", "kill">>>>
EpochMassCases(n) ==
    [j \in 1..n |-> Big(<<1500, 300, 12000, 5000, 150, 9000, 20000, 600>>[((j - 1) % 8) + 1] + RandomElement(0..20), 3, 3,
                        Begin \o Epochs[((j - 1) % Len(Epochs)) + 1])]
\* blocks of many transactions (C07)
Lists == <<100, 255, 256, 257, 1000, 1025, 4200, 5, 20000, 65535, 65536, 66000, 70000, 131073>>
MineMassCases(n) ==
    [j \in 1..n |-> [Big(5, 2, 2, <<"fill", "mine", "mine", "flush", "kill", "mine">>) EXCEPT !.list = Lists[((j - 1) % Len(Lists)) + 1]]]
\* ... and many of them, of all sizes (C05)
ChainMassCases(n) ==
    [j \in 1..n |-> [Big(5, <<5000, 20000, 300>>[((j - 1) % 3) + 1] + RandomElement(0..20), <<300, 30, 2000>>[((j - 1) % 3) + 1] + RandomElement(0..20),
                         <<"fill", "mine", "fill", "mine">>) EXCEPT !.list = <<40000, 9000, 70000>>[((j - 1) % 3) + 1]]]
KeepMassCases(n) ==
    [j \in 1..n |-> Big(<<300, 2000, 1000, 4000>>[((j - 1) % 4) + 1], <<700, 3000, 300, 20000>>[((j - 1) % 4) + 1] + RandomElement(0..20),
                        <<600, 300, 3000, 1500>>[((j - 1) % 4) + 1] + RandomElement(0..20), Begin \o Keeps[((j - 1) % Len(Keeps)) + 1])]

-----------------------------------------------------------------------------
(* v: versions, each by the number of the first that equals it; undo: those a
   change can be taken back to; old: the previous epoch's, 0 if there is none;
   roots: commitments, as <<version, number>>                                *)
RECURSIVE Run(_, _, _, _, _, _)
Run(e, k, v, undo, old, roots) ==
    IF k > Len(e.steps) THEN {}
    ELSE IF k > Len(e.r) THEN {<<k, "opens again", TRUE, FALSE>>}
    ELSE
    LET x == e.r[k]
        now == v[Len(v)]
        new == Len(v) + 1
        w == CASE x.op = "fill" \/ x.op \in Changes -> Append(v, new)
               [] x.op = "back" -> Append(v, undo[Len(undo)])
               [] OTHER -> v
        u == CASE x.op \in Changes -> Append(undo, now)
               [] x.op = "back" -> SubSeq(undo, 1, Len(undo) - 1)
               [] OTHER -> undo
        o == IF x.op = "end" THEN now ELSE old
        same == {r \in roots : r[1] = now}
        seen(n) == IF n \in 1..Len(w) THEN w[n] ELSE n
        d == One(x.op \o ": result", x.res = "ok", "ok", x.res)
             \union One(x.op \o ": balances", seen(x.now) = w[Len(w)], w[Len(w)], x.now)
             \union One(x.op \o ": previous epoch's balances", seen(x.old) = o, o, x.old)
             \union One(x.op \o ": nobody's balances in the previous epoch", x.extra = 0, 0, x.extra)
             \union One(x.op \o ": blocks that are not found", x.blocks = 0, 0, x.blocks)
             \union One(x.op \o ": transactions that are not found", x.txs = 0, 0, x.txs)
             \union One("mine: lists what it was given", x.listed, TRUE, x.listed)
             \union One("mine: commits to what it was given", x.committed, TRUE, x.committed)
             \union One("mine: validates", x.valid, TRUE, x.valid)
             \union (IF x.op # "end" THEN {}
                     ELSE One("commitment", \A r \in roots : (r[1] = now) = (r[2] = x.root), roots, <<now, x.root>>))
    IN  IF d # {} THEN {<<k>> \o y : y \in d}
        ELSE Run(e, k + 1, w, u, o, IF x.op = "end" THEN roots \union {<<now, x.root>>} ELSE roots)

MassDiff(e) == Run(e, 1, <<1>>, <<>>, 0, {})
=============================================================================
