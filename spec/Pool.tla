-------------------------------- MODULE Pool --------------------------------
(* C17: the pool as a state machine: a set of items, each with a timestamp;
   taking yields one of the smallest timestamp, and which of several is a
   matter of the items alone (an order between items of equal timestamp that
   is the same at every taking, whatever the order of insertion).            *)
EXTENDS Cases, SequencesExt

Times(e) == e.times
Held0 == {}

\* one event against state st = [held, before]: [st, diff]
Step(e, st, v) ==
    LET T == e.times
        i == v.i
        held2 == CASE v.op = "push" -> st.held \union {i}
                   [] v.op = "pop" /\ v.r > 0 -> st.held \ {v.r}
                   [] v.op = "new" -> {}
                   [] OTHER -> st.held
        want == CASE v.op = "push" -> {IF i \in st.held THEN 0 ELSE 1}
                  [] v.op = "has" -> {IF i \in st.held THEN 1 ELSE 0}
                  [] v.op = "pop" ->
                        IF st.held = {} THEN {0}
                        ELSE {j \in st.held : /\ \A k \in st.held : T[j] <= T[k]
                                              /\ \A k \in st.held : T[j] = T[k] => <<k, j>> \notin st.before}
                  [] OTHER -> {1}
        after == IF v.op = "pop" /\ v.r > 0 THEN {<<v.r, k>> : k \in {q \in st.held \ {v.r} : T[q] = T[v.r]}} ELSE {}
        seen == {v.has[j] : j \in DOMAIN v.has}
        iter == {v.held[j] : j \in DOMAIN v.held}
    IN  [st |-> [held |-> held2, before |-> st.before \union after],
         diff |-> One(v.op, v.r \in want, want, v.r)
                  \union One(v.op \o ": size", v.len = Cardinality(held2), Cardinality(held2), v.len)
                  \union One(v.op \o ": emptiness", v.empty = (held2 = {}), held2 = {}, v.empty)
                  \union One(v.op \o ": membership", seen = held2, held2, seen)
                  \union One(v.op \o ": content", iter = held2 /\ Len(v.held) = Cardinality(held2), held2, v.held)]

RECURSIVE Run(_, _, _)
Run(e, k, st) ==
    IF k > Len(e.r) THEN {}
    ELSE LET s == Step(e, st, e.r[k]) IN IF s.diff # {} THEN {<<k>> \o d : d \in s.diff} ELSE Run(e, k + 1, s.st)
\* a crowd of which only the outcome is told: in, some of it once more, out
Sorted(T, o) == \A k \in 1..(Len(o) - 1) : T[o[k]] <= T[o[k + 1]]
RoundDiff(e, r) ==
    LET n == Len(e.times) IN
    One("pushing a crowd", \A k \in 1..n : r.taken[k] = k, "a longer pool each time", r.taken)
    \union One("pushing again", r.twice = 0, 0, r.twice)
    \union One("membership", r.known = n, n, r.known)
    \union One("content", r.listed = n, n, r.listed)
    \union One("all come out, once each", Len(r.out) = n /\ {r.out[k] : k \in DOMAIN r.out} = 1..n, n, r.out)
    \union One("sizes", /\ Len(r.left) = n /\ r.empty
                        /\ \A k \in DOMAIN r.left : r.left[k] = n - k, "one less each time", r.left)
SwarmDiff(e) ==
    IF e.r = <<>> THEN {<<"answers", "an outcome", "abort">>}
    ELSE LET d == RoundDiff(e, e.r[1]) \union RoundDiff(e, e.r[2]) IN
         IF d # {} THEN d
         ELSE One("earliest first", Sorted(e.times, e.r[1].out), "by time", e.r[1].out)
              \union One("the order is a matter of the items", e.r[1].out = e.r[2].out, e.r[1].out, e.r[2].out)
PoolDiff(e) == IF e.k = "swarm" THEN SwarmDiff(e) ELSE Run(e, 1, [held |-> {}, before |-> {}])

-----------------------------------------------------------------------------
Push(j) == <<"push", j>>
Pop == <<"pop", 0>>
\* everything out, then in again in the opposite order and out again
Drain(n) == [j \in 1..n |-> Pop]
Again(n) == [j \in 1..n |-> Push(n + 1 - j)] \o Drain(n + 1)

Patterns3 == {<<1, 1, 1>>, <<1, 1, 2>>, <<1, 2, 1>>, <<2, 1, 1>>, <<1, 2, 3>>, <<3, 2, 1>>, <<2, 2, 1>>}
Ops3 == {Push(1), Push(2), Push(3), Pop}
Short(L) == {[k |-> "pool", items |-> "made", times |-> t, ops |-> s \o Again(3)] : t \in Patterns3, s \in [1..L -> Ops3]}

RandomOp(n) == CASE RandomElement(1..10) <= 5 -> Push(RandomElement(1..n))
                 [] RandomElement(1..5) <= 4 -> Pop
                 [] RandomElement(1..6) <= 5 -> <<"has", RandomElement(1..n)>>
                 [] OTHER -> <<"new", 0>>
Long(j) ==
    LET of(n) == [k |-> "pool", items |-> IF j % 2 = 0 THEN "real" ELSE "made",
                  times |-> [q \in 1..n |-> RandomElement(1..(IF j % 3 = 0 THEN 2 ELSE 5))],
                  ops |-> [q \in 1..(10 + 2 * n) |-> RandomOp(n)] \o Drain(n) \o [q \in 1..n |-> Push(q)] \o Drain(n) \o Again(n)]
    IN  of(CHOOSE x \in {RandomElement(2..12)} : TRUE)

\* crowded: beyond any capacity asked for
Crowd(n, d) == [k |-> "pool", items |-> "made", times |-> [q \in 1..n |-> RandomElement(1..d)],
                ops |-> [q \in 1..n |-> Push(q)] \o [q \in 1..n |-> IF q % 3 = 0 THEN Push(q) ELSE Pop] \o Drain(n)]
Swarm(n, d) == [k |-> "swarm", items |-> IF n % 200 = 0 THEN "real" ELSE "made", times |-> [q \in 1..n |-> RandomElement(1..d)]]
Crowds(n) == <<Crowd(70, 5), Crowd(140, 50), Crowd(280, 100000), Swarm(600, 1), Swarm(1100, 1000000), Swarm(4200, 30)>> \o (IF n < 10000 THEN <<>> ELSE <<Crowd(600, 30), Crowd(1100, 1000000), Swarm(17000, 1000000), Swarm(10000, 100)>>)

PoolCases(n) == Crowds(n) \o SetToSeq(Short(4)) \o [j \in 1..n |-> Long(j)]
=============================================================================
