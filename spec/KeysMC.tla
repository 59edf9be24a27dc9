------------------------------- MODULE KeysMC -------------------------------
(* Over small digits: the stored bytes determine the key, and the order of    *)
(* the digits is the order of the numbers, floats and strings.                *)
EXTENDS Keys, FiniteSets, TLC
CONSTANTS W, Chars, StrLen
VARIABLES kind, a, b
RECURSIVE Val(_)
Val(d) == IF d = <<>> THEN 0 ELSE Base * Val(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]
Pow(n) == Base ^ n
(* integers of W digits, signed and unsigned, as digits with one more in front *)
Range(signed) == IF signed THEN (-(Pow(W) \div 2))..(Pow(W) \div 2 - 1) ELSE 0..(Pow(W) - 1)
Digits(x) == LET y == x + Pow(W) IN [i \in 1..(W + 1) |-> (y \div Pow(W + 1 - i)) % Base]
DecInt(bytes, signed) == LET u == Val(Rev(bytes)) IN IF signed /\ u >= Pow(W) \div 2 THEN u - Pow(W) ELSE u
(* tiny floats: a sign, W digits of exponent and mantissa together: the larger *)
(* the digits, the larger the magnitude (IEEE 754)                             *)
FloatVal(f) == IF f[1] >= Half THEN -Val([f EXCEPT ![1] = @ - Half]) ELSE Val(f)
Floats == [1..W -> 0..(Base - 1)]
Strings == UNION {[1..n -> Chars] : n \in 0..StrLen}
Init == \/ kind = "int" /\ a \in Range(TRUE) /\ b \in Range(TRUE)
        \/ kind = "uint" /\ a \in Range(FALSE) /\ b \in Range(FALSE)
        \/ kind = "float" /\ a \in Floats /\ b \in Floats
        \/ kind = "str" /\ a \in Strings /\ b \in Strings
Next == FALSE /\ UNCHANGED <<kind, a, b>>
Spec == Init /\ [][Next]_<<kind, a, b>>
SignOf(x, y) == IF x = y THEN 0 ELSE IF x < y THEN -1 ELSE 1
LexSign(x, y) == IF x = y THEN 0 ELSE IF LexLt(x, y) THEN -1 ELSE 1
IntOk == kind \in {"int", "uint"} =>
  /\ LexSign(Digits(a), Digits(b)) = SignOf(a, b)
  /\ DecInt(EncDigits(Digits(a), W), kind = "int") = a
  /\ Len(EncDigits(Digits(a), W)) = W
FloatOk == kind = "float" =>
  /\ LexSign(FloatOrd(a), FloatOrd(b)) = SignOf(FloatVal(a), FloatVal(b))
  /\ Rev(EncDigits(a, W)) = a
(* keys of strings that fit are equal for equal strings only, in their order *)
StrOk == kind = "str" =>
  LET p == Pad(a, StrLen) q == Pad(b, StrLen) IN
  /\ LexSign(p, q) = LexSign(a, b)
  /\ Len(p) = StrLen
  (* strings cut to fit keep their order, weakly *)
  /\ LexLt(a, b) => LexLe(Pad(a, StrLen - 1), Pad(b, StrLen - 1))
=============================================================================
