------------------------------- MODULE Rotate --------------------------------
(* How the previous epoch's databases are replaced by copies of this epoch's, at
   the grain of file operations, with a kill between any two: copy next to it, move
   the old one away, move the new one in, remove the old one; opening first puts
   back what was moved away and not replaced.  There are two databases.          *)
EXTENDS Integers, TLC

CONSTANTS Restore,      \* opening puts the old directory back
          Aside,        \* the old one is moved away, not removed
          Clean,        \* leftovers of an interrupted copy are removed first
          Rounds

DB == {1, 2}
Gone == [c |-> 0, full |-> FALSE]       \* a directory's content: epoch, and whether all of it
VARIABLES dst, new, prev, pc, i, epoch, up
vars == <<dst, new, prev, pc, i, epoch, up>>

Init == dst = [d \in DB |-> [c |-> 0, full |-> TRUE]] /\ new = [d \in DB |-> Gone] /\ prev = [d \in DB |-> Gone]
        /\ pc = "idle" /\ i = 1 /\ epoch = 1 /\ up = TRUE
Is(x) == x # Gone

Begin == pc = "idle" /\ up /\ epoch <= Rounds /\ pc' = "clean" /\ i' = 1 /\ UNCHANGED <<dst, new, prev, epoch, up>>
Tidy == pc = "clean" /\ pc' = "copy" /\ new' = [new EXCEPT ![i] = IF Clean THEN Gone ELSE @] /\ prev' = [prev EXCEPT ![i] = IF Clean THEN Gone ELSE @]
        /\ UNCHANGED <<dst, i, epoch, up>>
\* copying over a leftover mixes the two
Copy == pc = "copy" /\ pc' = "copied" /\ new' = [new EXCEPT ![i] = [c |-> IF Is(@) THEN 0 - 1 ELSE epoch, full |-> FALSE]] /\ UNCHANGED <<dst, prev, i, epoch, up>>
Copied == pc = "copied" /\ pc' = "away" /\ new' = [new EXCEPT ![i].full = TRUE] /\ UNCHANGED <<dst, prev, i, epoch, up>>
Away == pc = "away" /\ pc' = "in" /\ prev' = [prev EXCEPT ![i] = IF Aside THEN dst[i] ELSE Gone] /\ dst' = [dst EXCEPT ![i] = Gone] /\ UNCHANGED <<new, i, epoch, up>>
In == pc = "in" /\ pc' = "rm" /\ dst' = [dst EXCEPT ![i] = new[i]] /\ new' = [new EXCEPT ![i] = Gone] /\ UNCHANGED <<prev, i, epoch, up>>
Rm == pc = "rm" /\ prev' = [prev EXCEPT ![i] = Gone]
      /\ (IF i = 1 THEN pc' = "clean" /\ i' = 2 /\ epoch' = epoch ELSE pc' = "idle" /\ i' = 1 /\ epoch' = epoch + 1)
      /\ UNCHANGED <<dst, new, up>>
Kill == up' = FALSE /\ pc' = "idle" /\ i' = 1 /\ UNCHANGED <<dst, new, prev, epoch>>
Open == /\ ~up /\ up' = TRUE
        /\ dst' = [d \in DB |-> IF ~Is(dst[d]) /\ Restore /\ Is(prev[d]) THEN prev[d]
                                ELSE IF ~Is(dst[d]) THEN [c |-> 0 - 2, full |-> TRUE] ELSE dst[d]]
        /\ prev' = [d \in DB |-> IF ~Is(dst[d]) /\ Restore THEN Gone ELSE prev[d]]
        /\ UNCHANGED <<new, pc, i, epoch>>
Next == Begin \/ Tidy \/ Copy \/ Copied \/ Away \/ In \/ Rm \/ Kill \/ Open
Spec == Init /\ [][Next]_vars

\* what is open is the last epoch's or the one before, complete
Whole == up /\ pc = "idle" => \A d \in DB : dst[d].full /\ dst[d].c \in {epoch - 1, epoch} \ {0 - 1}
=============================================================================
