------------------------------- MODULE Attrs -------------------------------
(* Attributes: the schema derived from the values met, and the bytes in which *)
(* an object's attributes are stored.                                         *)
EXTENDS Integers, Sequences, FiniteSets

(* kinds of JSON values *)
Kinds == {"bool", "nat", "neg", "frac", "text", "date", "struct"}
Guess(k) == CASE k = "bool" -> "Bool" [] k = "nat" -> "ULong" [] k = "neg" -> "Long" [] k = "frac" -> "Double"
              [] k = "text" -> "String" [] k = "date" -> "DateTime" [] k = "struct" -> "Json"
Guessed == {Guess(k) : k \in Kinds}
(* the type that holds the values of both *)
Join(a, b) ==
  IF a = b THEN a
  ELSE IF {a, b} = {"Long", "ULong"} THEN "Long"
  ELSE IF "Double" \in {a, b} /\ {a, b} \subseteq {"Double", "Long", "ULong"} THEN "Double"
  ELSE IF {a, b} = {"String", "DateTime"} THEN "String"
  ELSE "Json"
(* a column of type t holds a value of kind k without loss (integers beyond   *)
(* 2^63 beside negative ones, and beyond 2^53 beside fractions, are excluded) *)
Holds(t, k) ==
  CASE t = "Json" -> TRUE
    [] t = "ULong" -> k = "nat"
    [] t = "Long" -> k \in {"nat", "neg"}
    [] t = "Double" -> k \in {"nat", "neg", "frac"}
    [] t = "String" -> k \in {"text", "date"}
    [] t = "DateTime" -> k = "date"
    [] t = "Bool" -> k = "bool"
RECURSIVE JoinAll(_)
JoinAll(ks) == IF Len(ks) = 1 THEN Guess(ks[1]) ELSE Join(JoinAll(SubSeq(ks, 1, Len(ks) - 1)), Guess(ks[Len(ks)]))

(* the schema: name |-> [ix, type]; observing a value (nulls are no values) *)
Observe(s, n, k) ==
  IF n \in DOMAIN s THEN [s EXCEPT ![n].type = Join(@, Guess(k))]
  ELSE [m \in DOMAIN s \cup {n} |-> IF m = n THEN [ix |-> Cardinality(DOMAIN s), type |-> Guess(k)] ELSE s[m]]

(* ------------------------------------------------------------------------- *)
(* Bytes of a record: for each attribute that is there, in the order of the   *)
(* columns, the column number (2 bytes) and the value: fixed width, or a      *)
(* 4-byte length and that many bytes.                                         *)
Width(t) == CASE t \in {"Byte", "UByte", "Bool"} -> 1 [] t \in {"Short", "UShort"} -> 2
              [] t \in {"Int", "UInt", "Float"} -> 4 [] t \in {"Long", "ULong", "Double"} -> 8
              [] t \in {"String", "DateTime", "Json", "Binary"} -> 0
Le(x, n) == [i \in 1..n |-> (x \div (256 ^ (i - 1))) % 256]
EncValue(t, p) == IF Width(t) > 0 THEN p ELSE Le(Len(p), 4) \o p
RECURSIVE Enc(_, _)
Enc(r, type) ==                               \* r: <<column, payload>> pairs
  IF r = <<>> THEN <<>>
  ELSE Le(Head(r)[1], 2) \o EncValue(type[Head(r)[1]], Head(r)[2]) \o Enc(Tail(r), type)

(* the decoder: position and values so far *)
DecStart == [at |-> 1, r |-> <<>>]
U(b, at, n) == IF n = 2 THEN b[at] + 256 * b[at + 1]
               ELSE b[at] + 256 * b[at + 1] + 65536 * b[at + 2] + 16777216 * (b[at + 3] % 128)
DecDone(b, s) == s.at = Len(b) + 1
CanDec(b, s, type) ==
  /\ s.at + 1 <= Len(b)
  /\ LET c == U(b, s.at, 2) IN
     /\ c \in DOMAIN type
     /\ IF Width(type[c]) > 0 THEN s.at + 1 + Width(type[c]) <= Len(b)
        ELSE s.at + 5 <= Len(b) /\ s.at + 5 + U(b, s.at + 2, 4) <= Len(b)
Dec(b, s, type) ==
  LET c == U(b, s.at, 2)
      w == Width(type[c])
      from == IF w > 0 THEN s.at + 2 ELSE s.at + 6
      n == IF w > 0 THEN w ELSE U(b, s.at + 2, 4)
  IN [at |-> from + n, r |-> Append(s.r, <<c, SubSeq(b, from, from + n - 1)>>)]
=============================================================================
