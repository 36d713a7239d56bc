-------------------------------- MODULE U256 --------------------------------
(* Unsigned 256-bit integers as little-endian sequences of 16-bit limbs with no
   zero limb at the end (zero is <<>>).  TLC's own integers have 32 bits.      *)
EXTENDS Integers, Sequences

LOCAL B == 65536

LOCAL Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE UTrim(_)
UTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN UTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE UAddFrom(_, _, _, _)
UAddFrom(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b)
    THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET s == Limb(a, i) + Limb(b, i) + c
         IN  <<s % B>> \o UAddFrom(a, b, i + 1, s \div B)

UPlus(a, b) == UAddFrom(a, b, 1, 0)

RECURSIVE USubFrom(_, _, _, _)
USubFrom(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == a[i] - Limb(b, i) - c
         IN  <<(IF s < 0 THEN s + B ELSE s)>>
               \o USubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)

(* a - b, for b <= a *)
UMinus(a, b) == IF b = <<>> THEN a ELSE UTrim(USubFrom(a, b, 1, 0))

RECURSIVE ULeqFrom(_, _, _)
ULeqFrom(a, b, i) ==
    IF i = 0 THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE ULeqFrom(a, b, i - 1)

ULeq(a, b) ==
    IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE ULeqFrom(a, b, Len(a))

RECURSIVE UMulFrom(_, _, _, _)
UMulFrom(a, n, i, c) ==
    IF i > Len(a)
    THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET s == a[i] * n + c
         IN  <<s % B>> \o UMulFrom(a, n, i + 1, s \div B)

(* a * n for an ordinary integer n *)
RECURSIVE UTimes(_, _)
UTimes(a, n) ==
    IF n = 0 THEN <<>>
    ELSE IF n < 32767 THEN UMulFrom(a, n, 1, 0)
    ELSE UPlus(UTimes(a, n % 16384), UTimes(UMulFrom(a, 16384, 1, 0), n \div 16384))

RECURSIVE UFromInt(_)
UFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o UFromInt(n \div B)

UZero == <<>>
UMax == [i \in 1..16 |-> 65535]
=============================================================================
