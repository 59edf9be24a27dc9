-------------------------------- MODULE Keys --------------------------------
(* Index keys: how a key of each type is stored, and the order of keys.       *)
(* A key is a sequence of digits in base Base: an integer, 2^N added, most    *)
(* significant digit first (so that the first is 0 for negative numbers); the *)
(* bits of a float likewise; a string is the sequence of its bytes; a date-   *)
(* time is <<seconds, nanoseconds>>.                                          *)
EXTENDS Lex, Integers
CONSTANTS Base, Digit           \* a digit is Digit bytes: Base = 256 ^ Digit

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Low(x, n) == [i \in 1..n |-> x[Len(x) - n + i]]
(* bytes of a digit, least significant first *)
Byte == IF Digit = 1 THEN Base ELSE 256
Bytes(d) == IF Digit = 1 THEN <<d>> ELSE <<d % 256, d \div 256>>
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Bytes(Head(s)) \o Flatten(Tail(s))
(* n digits, little-endian *)
EncDigits(x, n) == Flatten(Rev(Low(x, n)))

(* floats: sign bit, exponent, mantissa; order of the numbers they stand for *)
Half == Base \div 2
Zero(b) == \A i \in 1..Len(b) : b[i] = IF i = 1 THEN (IF b[1] >= Half THEN Half ELSE 0) ELSE 0
FloatOrd(b) ==
  IF Zero(b) THEN [i \in 1..Len(b) |-> IF i = 1 THEN Half ELSE 0]
  ELSE IF b[1] >= Half THEN [i \in 1..Len(b) |-> Base - 1 - b[i]]
  ELSE [b EXCEPT ![1] = @ + Half]

Pad(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]

(* how many digits (strings: bytes) a key type has *)
Ints == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}
Size(t) == CASE t \in {"i8", "u8", "bool"} -> 1 [] t \in {"i16", "u16"} -> 2 [] t \in {"i32", "u32", "f32"} -> 4
             [] t \in {"i64", "u64", "f64"} -> 8 [] t = "dt" -> 12 [] t = "s20" -> 20 [] t = "s50" -> 50 [] t = "s100" -> 100
Take(s, n) == SubSeq(s, 1, n)
(* an integer of two digits, the representation of all integers having more *)
Enc(t, v) ==
  CASE t \in {"i8", "u8"} -> <<v[Len(v)] % 256>>
    [] t = "bool" -> v
    [] t \in Ints \cup {"f32", "f64"} -> EncDigits(v, Size(t) \div Digit)
    [] t = "dt" -> EncDigits(v[1], 8 \div Digit) \o EncDigits(v[2], 4 \div Digit)
    [] t \in {"s20", "s50", "s100"} -> Pad(v, Size(t))
Ord(t, v) ==
  CASE t \in {"f32", "f64"} -> FloatOrd(v)
    [] t = "dt" -> v[1] \o v[2]
    [] t \in {"s20", "s50", "s100"} -> Pad(v, Size(t))
    [] OTHER -> v
Sign(t, a, b) == IF Ord(t, a) = Ord(t, b) THEN 0 ELSE IF LexLt(Ord(t, a), Ord(t, b)) THEN -1 ELSE 1
=============================================================================
