-------------------------------- MODULE Pack --------------------------------
(* C19: files written compressed.  A folder maps names to what was last put
   there: a write's number, or a state of damage.                            *)
EXTENDS Cases, SequencesExt

None == 0           \* no such file
Broken == 0 - 1     \* cut short, followed by something else, or never a compressed file
Unknown == 0 - 2    \* a write there did not fit

\* file 0 lies in a folder that does not exist
Want(v, dir) ==
    CASE v.op = "put" -> IF v.f = 0 THEN "err" ELSE "ok"
      [] v.op = "full" -> "err"
      [] v.op = "get" /\ v.f # 0 /\ dir[v.f] = Unknown -> IF v.res = "panic" THEN "ok" ELSE v.res
      [] v.op = "get" -> IF v.f = 0 \/ dir[v.f] \in {None, Broken} THEN "err" ELSE "ok"
      [] OTHER -> v.res
After(v, dir, w) ==
    CASE v.f = 0 -> dir
      [] v.op = "full" -> [dir EXCEPT ![v.f] = Unknown]
      [] v.op \in {"cut", "tail"} /\ dir[v.f] = Unknown -> dir
      [] v.op = "put" -> [dir EXCEPT ![v.f] = w]
      [] v.op \in {"cut", "tail"} -> IF v.res = "ok" THEN [dir EXCEPT ![v.f] = Broken] ELSE dir
      [] v.op = "junk" -> [dir EXCEPT ![v.f] = Broken]
      [] v.op = "drop" -> [dir EXCEPT ![v.f] = None]
      [] OTHER -> dir

\* same: for each write the first one of the same content
RECURSIVE Run(_, _, _, _)
Run(e, k, dir, w) ==
    IF k > Len(e.r.evs) THEN {}
    ELSE LET v == e.r.evs[k]
             x == Want(v, dir)
             n == IF v.op = "put" THEN w + 1 ELSE w
             d == One(v.op \o ": result", v.res = x, x, v.res)
                  \union One("get: content", (v.op = "get" /\ v.res = "ok" /\ x = "ok" /\ dir[v.f] # Unknown) => v.got # <<>> /\ \E j \in DOMAIN v.got : v.got[j] = dir[v.f],
                             IF v.f = 0 THEN 0 ELSE dir[v.f], v.got)
         IN  IF d # {} THEN {<<k>> \o y : y \in d} ELSE Run(e, k + 1, After(v, dir, n), n)
PackDiff(e) == Run(e, 1, [j \in 1..3 |-> None], 0)

-----------------------------------------------------------------------------
Classes == <<"zeros", "rnd", "magic", "text">>
Sizes == <<0, 1, 2, 7, 255, 256, 1000, 4096, 65535, 65536, 131071, 131072, 131073>>
M == 1024 * 1024
Large == <<M - 1, M, M + 1, 3 * M, 8 * M - 1, 8 * M + 1, 16 * M + 1, 40 * M>>
Length == IF RandomElement(1..4) = 1 THEN OneOf(Sizes) ELSE RandomElement(0..OneOf(<<10, 300, 5000, 300000>>))
RandomOp(j) ==
    LET w == RandomElement(1..24) IN
    CASE w <= 9 -> <<"put", RandomElement(1..3), OneOf(Classes), Length>>
      [] w <= 19 -> <<"get", RandomElement(1..3)>>
      [] w = 20 /\ j % 2 = 0 -> <<"tail", RandomElement(1..3), OneOf(<<1, 4, 300, 70000>>)>>
      [] w = 20 -> <<"cut", RandomElement(1..3), OneOf(<<"end", "any">>)>>
      [] w = 21 -> <<"junk", RandomElement(1..3)>>
      [] w = 22 -> <<"drop", RandomElement(1..3)>>
      [] w = 23 /\ j % 2 = 0 -> <<"full", RandomElement(1..3), OneOf(<<1, 20, 1000, 200000>>)>>
      [] w = 23 -> <<"put", 0, "rnd", 10>>
      [] OTHER -> <<"get", 0>>
PackCases(n) ==
    \* every kind and size over every other
    SetToSeq({[k |-> "pack", ops |-> <<<<"put", 1, Classes[a], Sizes[x]>>, <<"get", 1>>, <<"put", 1, Classes[b], Sizes[y]>>, <<"get", 1>>,
                                       <<"get", 2>>, <<"cut", 1, OneOf(<<"end", "any">>)>>, <<"get", 1>>, <<"put", 1, Classes[a], Sizes[x]>>, <<"get", 1>>,
                                       <<"tail", 1, OneOf(<<1, 3, 4, 30, 3000>>)>>, <<"get", 1>>>>]
              : a \in 1..4, b \in {1, 2, 4}, x \in DOMAIN Sizes, y \in {1, 2, 6, 8, 12}})
    \* far longer than any buffer
    \o FlattenSeq([a \in 1..4 |-> [x \in DOMAIN Large |->
          [k |-> "pack", ops |-> <<<<"put", 1, Classes[a], Large[x]>>, <<"get", 1>>, <<"put", 1, Classes[a], 20>>, <<"get", 1>>>>]]])
    \o [j \in 1..n |-> [k |-> "pack", ops |-> [q \in 1..24 |-> RandomOp(q)]]]
=============================================================================
