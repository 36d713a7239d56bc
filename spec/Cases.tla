------------------------------- MODULE Cases --------------------------------
(* Specifications of functions rather than of a system with a state: the
   specification writes down cases (CasesSpec, run with -simulate), the real
   code answers each of them, and every answer is compared with what the
   specification says about its case (Spec).                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS
    CaseList(_),    \* the cases, as a sequence, for a size
    Size,           \* how many random ones
    Diff(_)         \* what is wrong with an answered case: a set of
                    \* <<what, expected, seen>>

Answered == IF "TRACE" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
NA == Len(Answered)
Chunk == 100
Chunks == (NA + Chunk - 1) \div Chunk

VARIABLE line

(* writing the cases *)
CasesInit == line = 0 /\ ndJsonSerialize(IOEnv.OUT, CaseList(Size))
CasesSpec == CasesInit /\ [][UNCHANGED line]_line

(* checking the answers: a state for each case *)
Init == line \in {0 - b : b \in 1..Chunks}
Next == /\ line < 0
        /\ line' \in ((0 - line - 1) * Chunk + 1)..(IF (0 - line) * Chunk > NA THEN NA ELSE (0 - line) * Chunk)
Spec == Init /\ [][Next]_line

Conforms == \/ line <= 0
            \/ LET d == Diff(Answered[line])
               IN  d = {} \/ (ndJsonSerialize(IOEnv.TRACE \o ".bad." \o ToString(line), <<d>>) /\ PrintT(<<"BAD", line>>) /\ FALSE)

-----------------------------------------------------------------------------
(* for writing cases *)
One(what, cond, exp, seen) == IF cond THEN {} ELSE {<<what, exp, seen>>}
\* a random element of a sequence
OneOf(s) == s[RandomElement(1..Len(s))]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
=============================================================================
