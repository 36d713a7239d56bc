-------------------------------- MODULE Sig ---------------------------------
(* C16: a transaction verifies exactly if it carries its sender's signature
   over its content.  Signatures are ideal here: the specification knows who
   signed, and whether anything differs from what was signed.               *)
EXTENDS Cases, SequencesExt

Tos     == {"", "self", "key"}
Tss     == {"", "zero", "max"}
Amounts == {"", "zero", "max", "byte"}
Datas   == {"", "none", "empty", "long"}
\* none is the sender's; the upper ones are keys all the same
Keys == {"other", "negated", "next", "double", "reversed"}
Signers == Keys \union {"zero", "order", "ones"}
BitAlters == {"sender bit", "receiver bit", "time bit", "amount bit", "data bit", "sig bit"}
Bits(a) == CASE a \in {"sender bit", "receiver bit"} -> 264 [] a = "time bit" -> 64 [] a = "amount bit" -> 256
             [] a = "sig bit" -> 512 [] OTHER -> 320
Alters == {"sender other", "sender negated", "sender prefix", "sender zero", "sender ones", "swap", "receiver other",
           "time next", "amount next", "amount byte", "amount to data", "data longer", "data end", "data shorter", "data dropped",
           "sig zero", "sig ones", "sig r zero", "sig s zero", "sig r order", "sig s order", "sig swapped", "sig high",
           "sig random", "sig old", "sig other"}

Fair == [k |-> "sig", to |-> "", ts |-> "", amount |-> "", data |-> "", signer |-> "", alter |-> "", n |-> 0, coded |-> "no"]

SigCases(n) ==
    SetToSeq(
        {[Fair EXCEPT !.to = a, !.ts = b, !.amount = c, !.data = d, !.coded = e] :
            a \in Tos, b \in Tss, c \in Amounts, d \in Datas, e \in {"yes", "no"}}
        \union {[Fair EXCEPT !.signer = s, !.to = a, !.coded = e, !.alter = b] : s \in Signers, a \in Tos, e \in {"yes", "no"}, b \in {"", "sender negated", "sig high"}}
        \union {[Fair EXCEPT !.alter = a, !.n = j, !.data = d, !.amount = c, !.to = t] :
            a \in Alters, j \in 0..6, d \in Datas, c \in Amounts, t \in Tos}
        \union {[Fair EXCEPT !.data = "huge", !.alter = a, !.n = j, !.coded = e] :
            a \in {"", "data bit", "data end", "data longer", "data shorter", "data dropped", "amount to data", "sig bit"}, j \in 0..1, e \in {"yes", "no"}}
        \union UNION {{[Fair EXCEPT !.alter = a, !.n = j, !.coded = e] : j \in 0..(Bits(a) - 1), e \in {"yes", "no"}} : a \in BitAlters})
    \o [j \in 1..n |->
          [k |-> "sig", to |-> RandomElement(Tos), ts |-> RandomElement(Tss), amount |-> RandomElement(Amounts), data |-> RandomElement(Datas),
           signer |-> RandomElement(IF j % 6 = 0 THEN Signers ELSE {""}), alter |-> RandomElement(Alters \union BitAlters \union {""}),
           n |-> RandomElement(0..511), coded |-> RandomElement({"yes", "no"})]]

SigDiff(e) ==
    LET r == e.r
        key == e.signer \in Keys \union {""}     \* a possible private key
        genuine == e.signer = "" /\ r.same
        Right(really) == IF really THEN {"true"} ELSE {"false", "err"}
    IN  IF ~key THEN One("malformed key", r.made = "err", "err", r.made)
        ELSE IF r.made # "ok" THEN {<<"signing", "ok", r.made>>}
        ELSE One("both ways of signing agree", r.agree, TRUE, r.agree)
             \union One("unaltered is the same", e.alter = "" => r.same, TRUE, r.same)
             \union One("verifies", r.verify \in Right(genuine), IF genuine THEN "true" ELSE "false or an error", r)
             \union One("as it was made, before", r.before \in {""} \union Right(e.signer = ""), Right(e.signer = ""), r)
             \union One("as it was made, after", r.after \in Right(e.signer = ""), Right(e.signer = ""), r)
             \union One("verifies again", r.again = r.verify, r.verify, r)
=============================================================================
