------------------------------- MODULE Ledger --------------------------------
(* Calls on one ledger at the grain of the code's reads and writes of single
   accounts: a call reads what it names, decides, and writes the new balances;
   readers read one account after the other.  With Validate a call's writes take
   effect together and only if what it read is still there, else the call begins
   again (the database's transactions); every history is then one of BlockTree's
   one-step calls (LedgerCall), whichever order they take effect in.  Without
   Validate updates are lost and balances overdrawn; without Together a transfer
   is visible half done; without Distinct a transfer to oneself makes coins.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Validate, Together, Distinct,
          Top,              \* the largest balance
          Start,            \* what each account has
          Amounts, Callers
Threads == 1..Callers
Accounts == {1, 2}
Calls == [k : {"add", "sub"}, a : Accounts, b : {0}, x : Amounts]
         \union [k : {"send"}, a : Accounts, b : Accounts, x : Amounts]

VARIABLES call,     \* what each caller calls
          bal,      \* the ledger
          pc, read, \* the account read at last, and what was read
          res,
          ghost,    \* the balances by one-step calls, made when the writes take effect
          saw       \* what a reader of both accounts may have seen, one after the other in one step
vars == <<call, bal, pc, read, res, ghost, saw>>

\* a call in one step: [r, f]
Once(c, f) ==
    CASE c.k = "add" -> IF f[c.a] + c.x > Top THEN [r |-> "err", f |-> f] ELSE [r |-> "ok", f |-> [f EXCEPT ![c.a] = @ + c.x]]
      [] c.k = "sub" -> IF f[c.a] < c.x THEN [r |-> "err", f |-> f] ELSE [r |-> "ok", f |-> [f EXCEPT ![c.a] = @ - c.x]]
      [] OTHER -> IF c.a = c.b THEN [r |-> "ok", f |-> f]
                  ELSE IF f[c.a] < c.x \/ f[c.b] + c.x > Top THEN [r |-> "err", f |-> f]
                  ELSE [r |-> "ok", f |-> [f EXCEPT ![c.a] = @ - c.x, ![c.b] = @ + c.x]]

Init == /\ call \in [Threads -> Calls] /\ bal = [a \in Accounts |-> Start] /\ ghost = bal /\ saw = {bal}
        /\ pc = [t \in Threads |-> "first"] /\ read = [t \in Threads |-> <<0, 0>>] /\ res = [t \in Threads |-> ""]

Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Named(c) == IF c.k = "send" THEN {c.a, c.b} ELSE {c.a}
\* the new balances of what was read, written in this order
New(t) ==
    LET c == call[t]
        r == read[t]
    IN  CASE c.k = "add" -> IF r[1] + c.x > Top THEN <<>> ELSE <<<<c.a, r[1] + c.x>>>>
          [] c.k = "sub" -> IF r[1] < c.x THEN <<>> ELSE <<<<c.a, r[1] - c.x>>>>
          [] OTHER -> IF r[1] < c.x \/ r[2] + c.x > Top THEN <<>> ELSE <<<<c.a, r[1] - c.x>>, <<c.b, r[2] + c.x>>>>
RECURSIVE Written(_, _)
Written(f, w) == IF w = <<>> THEN f ELSE Written([f EXCEPT ![w[1][1]] = w[1][2]], Tail(w))
Stale(t) == \/ bal[call[t].a] # read[t][1]
            \/ call[t].k = "send" /\ bal[call[t].b] # read[t][2]
Effect(t, r) == LET o == Once(call[t], ghost) IN
                /\ ghost' = o.f /\ res' = [res EXCEPT ![t] = r] /\ saw' = saw \union {o.f}
                /\ Assert(o.r \in {"ok", "err"}, "")
Step(t) ==
    LET c == call[t] IN
    \/ /\ pc[t] = "first"
       /\ IF Distinct /\ c.k = "send" /\ c.a = c.b
          THEN Go(t, "done") /\ Effect(t, "ok") /\ UNCHANGED <<bal, read>>
          ELSE /\ read' = [read EXCEPT ![t][1] = bal[c.a]] /\ Go(t, IF c.k = "send" THEN "second" ELSE "write")
               /\ UNCHANGED <<bal, res, ghost, saw>>
    \/ /\ pc[t] = "second" /\ read' = [read EXCEPT ![t][2] = bal[c.b]] /\ Go(t, "write") /\ UNCHANGED <<bal, res, ghost, saw>>
    \/ /\ pc[t] = "write"
       /\ IF Validate /\ Stale(t) THEN Go(t, "first") /\ UNCHANGED <<bal, read, res, ghost, saw>>
          ELSE IF New(t) = <<>> THEN Go(t, "done") /\ Effect(t, "err") /\ UNCHANGED <<bal, read>>
          ELSE IF Together \/ Len(New(t)) = 1 THEN bal' = Written(bal, New(t)) /\ Go(t, "done") /\ Effect(t, "ok") /\ UNCHANGED read
          ELSE bal' = Written(bal, <<New(t)[1]>>) /\ Go(t, "rest") /\ UNCHANGED <<read, res, ghost, saw>>
    \/ /\ pc[t] = "rest" /\ bal' = Written(bal, <<New(t)[2]>>) /\ Go(t, "done") /\ Effect(t, "ok") /\ UNCHANGED read
Next == (\E t \in Threads : Step(t)) /\ UNCHANGED call
Spec == Init /\ [][Next]_vars

\* the ledger is always one that one-step calls have made
Whole == bal \in saw
\* and the last of them, unless a transfer is under way
Exact == (\A t \in Threads : pc[t] # "rest") => bal = ghost
InRange == \A a \in Accounts : bal[a] \in 0..Top
\* results are those of the one-step calls: an accepted debit was covered when it took effect
Answers == [][\A t \in Threads : pc[t] # "done" /\ pc'[t] = "done" => res'[t] = Once(call[t], ghost).r]_vars
=============================================================================
