------------------------------- MODULE Merkle -------------------------------
(* C13: a list's root and the inclusion proofs of its members.

   Ideally the root is injective: lists with different members have different
   roots.  The code builds a tree whose inner node is the hash of the bitwise
   AND of its two children, with all-ones padding; Root below is that tree
   over symbolic values (a node is the set of its children, the padding being
   neutral).  Where that construction itself gives two lists one root, a
   repeated root is the known finding; any other repetition is a violation.  *)
EXTENDS Cases, SequencesExt

Leaf(s) == [s |-> s, c |-> {}]          \* 0: the padding
Ones == Leaf(0)
Node(a, b) == [s |-> 0 - 1, c |-> {x \in {a, b} : x # Ones}]

RECURSIVE Width(_, _)
Width(n, w) == IF w > n THEN w ELSE Width(n, 2 * w)
RECURSIVE Up(_)
Up(r) == IF Len(r) = 1 THEN r[1] ELSE Up([j \in 1..(Len(r) \div 2) |-> Node(r[2 * j - 1], r[2 * j])])
Root(l) == LET w == Width(Len(l), 1) IN Up([j \in 1..w |-> IF j <= Len(l) THEN Leaf(l[j]) ELSE Ones])

Count(l, x) == Cardinality({j \in DOMAIN l : l[j] = x})
SameMembers(l, m) == Len(l) = Len(m) /\ \A j \in DOMAIN l : Count(l, l[j]) = Count(m, l[j])

Known(what) == PrintT(<<"KNOWN", "C13", what>>)

VariantDiff(e, j) ==
    LET m == e.variants[j]
        r == e.r.same[j]
    IN  IF m = e.list THEN One("root of the same list", r = "same", "same", r)
        ELSE IF r = "new" THEN {}
        ELSE IF SameMembers(e.list, m) THEN One("root of a permuted list", r # "panic", "any", r)
        ELSE One("root of another list", r = "new" \/ (r = "same" /\ Root(m) = Root(e.list) /\ Known("padding")), <<"new", m>>, r)

\* what a try has to give
Want(what) == CASE what = "member" -> "true" [] OTHER -> "false"
Lost == {"altered value, lost in the sibling", "bit in proof, lost in the other", "other member, lost in the sibling"}
TryDiff(t) ==
    One("proof: " \o t[1],
        \/ t[2] = Want(t[1])
        \/ t[2] = "true" /\ t[1] \in Lost /\ Known("absorbed")
        \/ t[2] = "true" /\ (t[1] = "no member, the padding" \/ t[3] = 0) /\ Known("padding"),
        Want(t[1]), t[2])

MerkleDiff(e) ==
    LET r == e.r IN
    One("builds", r.res = "ok", "ok", r.res)
    \union One("same list, same root", r.again, TRUE, r.again)
    \union One("proofs", \A j \in DOMAIN r.proofs : r.proofs[j] = "ok", "ok", r.proofs)
    \union One("members without a proof that holds", r.unproved = <<>>, <<>>, r.unproved)
    \union One("members asked", r.asked >= IF Len(e.list) > 2000 THEN 200 ELSE Len(e.list), Len(e.list), r.asked)
    \union UNION {TryDiff(r.tries[j]) : j \in DOMAIN r.tries}
    \union UNION {VariantDiff(e, j) : j \in DOMAIN r.same}

-----------------------------------------------------------------------------
Plain(n) == [j \in 1..n |-> j]
Dup(n) == [j \in 1..n |-> (j + 1) \div 2]
Same(n) == [j \in 1..n |-> 1]
Padded(n) == [j \in 1..n |-> IF j % 5 = 3 THEN 0 ELSE j]
New == 390
Without(l, k) == SubSeq(l, 1, k - 1) \o SubSeq(l, k + 1, Len(l))
Put(l, k, x) == SubSeq(l, 1, k - 1) \o <<x>> \o SubSeq(l, k, Len(l))
Places(l) == {k \in 1..Len(l) : k <= 9 \/ k >= Len(l) - 3 \/ k % 16 \in {0, 1}}
Variants(l) ==
    <<l, l \o <<New>>, l \o <<0>>, l \o <<0, 0>>, l \o <<New, New + 1>>, <<New>> \o l, <<0>> \o l>>
    \o SetToSeq(
        {Without(l, k) : k \in Places(l)} \union {[l EXCEPT ![k] = New] : k \in Places(l)}
        \union {[l EXCEPT ![k] = 0] : k \in Places(l)}
        \union {Put(l, k, l[k]) : k \in Places(l)} \union {Put(l, k, New) : k \in Places(l)}
        \union {[l EXCEPT ![k] = l[1]] : k \in Places(l)}
        \union {l \o <<l[k]>> : k \in Places(l)}
        \union {SubSeq(l, 1, k) : k \in Places(l)}
        \union {l \o SubSeq(l, k, Len(l)) : k \in {q \in Places(l) : Len(l) < 20}})
CaseOf(l, cap) == [k |-> "merkle", list |-> l, cap |-> cap, variants |-> Variants(l)]

\* long lists: a change at the end, in the middle, near a power of two
Long(j) == LET l == Plain(j) IN
    [k |-> "merkle", list |-> l, cap |-> 3,
     variants |-> <<l, Without(l, j), [l EXCEPT ![j] = j + 1], [l EXCEPT ![j \div 2] = j + 1], l \o <<j + 1>>,
                    SubSeq(l, 1, (j \div 4) * 3)>>]
LongOnes(n) == {511, 513, 1025, 2050, 20000, 70000} \union (IF n > 100 THEN {1024, 2047, 4100, 8000, 33000} ELSE {})
\* members that differ from another in one bit only (the roots of such lists
\* may meet, see "absorbed", so only membership is asked)
Twin(k, x) == 100000 * k + x
TwinList(l) == [k |-> "merkle", list |-> l, cap |-> 8, variants |-> <<l>>]
Twins == {TwinList(<<1, Twin(k, 1)>>) : k \in 1..3}
    \union {TwinList(<<1, 2, Twin(k, 1), Twin(k, 2), 3>>) : k \in 1..3}
    \union {TwinList([j \in 1..n |-> Twin((j - 1) % 4, (j + 3) \div 4)]) : n \in {4, 7, 16, 33}}
    \union {TwinList([j \in 1..n |-> Twin((j - 1) \div 8, ((j - 1) % 8) + 1)]) : n \in {9, 16, 31, 32}}

Lengths(n) == {j \in 0..(IF n > 100 THEN 300 ELSE 140) : j <= 40 \/ \E p \in {32, 64, 128, 256} : j \in (p - 2)..(p + 2)}
\* all lists up to length 4 over a few symbols
Small == UNION {[1..n -> 0..2] : n \in 1..4}
RandomList(j) ==
    LET of(n, m) == CaseOf([q \in 1..n |-> RandomElement(1..m)], 6)
    IN  CHOOSE x \in {of(RandomElement(1..24), RandomElement(1..30))} : TRUE
Fixed(l) == CHOOSE x \in {l} : TRUE
MerkleCases(n) ==
    SetToSeq({CaseOf(l, 4) : l \in Small}
             \union {CaseOf(Plain(j), 12) : j \in Lengths(n)} \union {CaseOf(Dup(j), 6) : j \in Lengths(n)}
             \union {CaseOf(Same(j), 3) : j \in {1, 2, 3, 4, 5, 7, 8, 9, 16, 17}} \union {CaseOf(Padded(j), 6) : j \in {1, 2, 3, 4, 5, 8, 13, 16}}
             \union {Long(j) : j \in LongOnes(n)} \union Twins)
    \o [j \in 1..n |-> RandomList(j)]
=============================================================================
