------------------------------- MODULE Submit --------------------------------
(* Submissions at the grain of the code's calls into the ledgers: read the gas,
   read the coins, decide, move the coins, burn the gas, store; several threads,
   credits coming in between.  With Locked the whole is one step to the other
   submissions, and every history is one of one-at-a-time submissions (BlockTree's
   Submit decided at the lock); without, accounts are overspent or a transaction
   is half applied.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Locked,           \* the lock is held throughout
          Submitters, MostMoved, \* each moves some amount from account 1 to 2
          Coins, Gas, Fee, Price, Credits
Threads == 1..Submitters
VARIABLES move, coin, gas, stored, pc, seen, res, lock, order, credits
vars == <<move, coin, gas, stored, pc, seen, res, lock, order, credits>>

Init == /\ move \in [Threads -> 1..MostMoved] /\ coin = <<Coins, 0>> /\ gas = Gas /\ stored = {} /\ lock = 0 /\ order = <<>> /\ credits = 0
        /\ pc = [t \in Threads |-> "start"] /\ seen = [t \in Threads |-> [g |-> 0, c |-> 0]] /\ res = [t \in Threads |-> ""]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Refuse(t) == res' = [res EXCEPT ![t] = "err"] /\ Go(t, "done") /\ order' = Append(order, [t |-> t, r |-> "err", c |-> credits, s |-> seen[t]])
             /\ lock' = (IF lock = t THEN 0 ELSE lock) /\ UNCHANGED <<coin, gas, stored, seen, credits>>
Step(t) ==
    \/ /\ pc[t] = "start" /\ (Locked => lock = 0) /\ lock' = IF Locked THEN t ELSE lock
       /\ Go(t, "coins") /\ seen' = [seen EXCEPT ![t].g = gas] /\ UNCHANGED <<coin, gas, stored, res, order, credits>>
    \/ /\ pc[t] = "coins" /\ Go(t, "decide") /\ seen' = [seen EXCEPT ![t].c = coin[1]]
       /\ UNCHANGED <<coin, gas, stored, res, lock, order, credits>>
    \/ /\ pc[t] = "decide"
       /\ IF seen[t].g < Price \/ seen[t].c < Fee + move[t] THEN Refuse(t)
          ELSE Go(t, "move") /\ UNCHANGED <<coin, gas, stored, seen, res, lock, order, credits>>
    \/ /\ pc[t] = "move"
       /\ IF coin[1] < move[t] THEN Refuse(t)
          ELSE /\ coin' = <<coin[1] - move[t], coin[2] + move[t]>> /\ Go(t, "burn")
               /\ UNCHANGED <<gas, stored, seen, res, lock, order, credits>>
    \/ /\ pc[t] = "burn"
       /\ IF gas < Price THEN Refuse(t)
          ELSE gas' = gas - Price /\ Go(t, "store") /\ UNCHANGED <<coin, stored, seen, res, lock, order, credits>>
    \/ /\ pc[t] = "store" /\ stored' = stored \union {t} /\ Go(t, "done") /\ res' = [res EXCEPT ![t] = "ok"]
       /\ lock' = (IF lock = t THEN 0 ELSE lock) /\ order' = Append(order, [t |-> t, r |-> "ok", c |-> credits, s |-> seen[t]])
       /\ UNCHANGED <<coin, gas, seen, credits>>
Credit == credits < Credits /\ credits' = credits + 1 /\ coin' = [coin EXCEPT ![1] = @ + 1] /\ UNCHANGED <<gas, stored, pc, seen, res, lock, order>>
Next == (Credit \/ \E t \in Threads : Step(t)) /\ UNCHANGED move
Spec == Init /\ [][Next]_vars

RECURSIVE Spent(_)
Spent(o) == IF o = <<>> THEN 0 ELSE Spent(SubSeq(o, 1, Len(o) - 1)) + (IF o[Len(o)].r = "ok" THEN move[o[Len(o)].t] ELSE 0)
Count(o) == Cardinality({i \in DOMAIN o : o[i].r = "ok"})
\* at the moment a submission is over, those over before it explain its result:
\* with some number of the credits it was accepted exactly if it was covered
Ordered ==
    \A i \in DOMAIN order :
        LET before == SubSeq(order, 1, i - 1)
            g == Gas - Price * Count(before)
            covered(k) == g >= Price /\ Coins + k - Spent(before) >= Fee + move[order[i].t]
        IN  \E k \in 0..order[i].c : covered(k) <=> order[i].r = "ok"
\* accepted is applied and stored, refused is neither
Whole == (\A t \in Threads : pc[t] = "done") =>
            /\ stored = {t \in Threads : res[t] = "ok"}
            /\ coin[2] = Spent(order)
            /\ gas = Gas - Price * Cardinality(stored)
            /\ coin[1] + coin[2] = Coins + credits
=============================================================================
