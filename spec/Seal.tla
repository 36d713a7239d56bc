-------------------------------- MODULE Seal ---------------------------------
(* The end of an epoch at the grain of the code's steps: the miner reads the tip,
   sums up the ledgers, copies them to be the previous epoch's, makes the root's
   allotment and appends the block; chain handles append meanwhile; a kill may
   come between any two steps.  What the code does is Late: the block is appended
   last.  A kill then costs at most the block, never an epoch's end, which is made
   again (Again); but a block that another handle appends in between has the epoch
   end without its block (Backed): finding C10/raced.  Early, the other way round,
   has it the other way round.  With Claim (a height at which an epoch ends
   is the miner's) Late has both.                                                                      *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Late, Claim, Per, MaxHeight
VARIABLES h,        \* the chain's height; a flush of it is part of the copying
          disk,     \* the height on disk
          ends,     \* heights of the summary blocks in the chain
          sealed,   \* for which heights the ledgers have been sealed, how often
          pc, at    \* the miner
vars == <<h, disk, ends, sealed, pc, at>>

Init == h = 1 /\ disk = 1 /\ ends = {} /\ sealed = [k \in 0..MaxHeight |-> 0] /\ pc = "idle" /\ at = 0
Due(k) == k % Per = 0
\* a handle appends a block that is no summary
Handle == /\ h < MaxHeight /\ (Claim => ~Due(h)) /\ h' = h + 1 /\ UNCHANGED <<disk, ends, sealed, pc, at>>
Flush == disk' = h /\ UNCHANGED <<h, ends, sealed, pc, at>>
Begin == /\ pc = "idle" /\ h < MaxHeight /\ Due(h) /\ at' = h /\ pc' = (IF Late THEN "seal" ELSE "append")
         /\ UNCHANGED <<h, disk, ends, sealed>>
Seal == /\ pc = "seal" /\ sealed' = [sealed EXCEPT ![at] = 1] /\ disk' = h
        /\ pc' = (IF Late THEN "append" ELSE "idle") /\ UNCHANGED <<h, ends, at>>
Add == /\ pc = "append"
       /\ IF h = at THEN h' = h + 1 /\ ends' = ends \union {at} /\ pc' = (IF Late THEN "idle" ELSE "seal")
          ELSE pc' = "idle" /\ UNCHANGED <<h, ends>>
       /\ UNCHANGED <<disk, sealed, at>>
\* after a kill: the chain that is on disk, ledgers as they are
Kill == h' = disk /\ ends' = {k \in ends : k < disk} /\ pc' = "idle" /\ UNCHANGED <<disk, sealed, at>>
Next == Handle \/ Flush \/ Begin \/ Seal \/ Add \/ Kill
Spec == Init /\ [][Next]_vars

\* no summary block without its epoch's end
Again == pc = "idle" => \A k \in ends : sealed[k] = 1
\* no epoch's end without its block, other than while the block can still be mined
Backed == pc = "idle" => \A k \in DOMAIN sealed : sealed[k] = 1 => k \in ends \/ k >= disk
=============================================================================
