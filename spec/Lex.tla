-------------------------------- MODULE Lex --------------------------------
(* Keys (64-bit integers, floats, strings, dates) are sequences of naturals; *)
(* their natural order is the lexicographic one, a proper prefix first.      *)
EXTENDS Naturals, Sequences

LexLt(a, b) ==
  LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..m : a[i] # b[i]}
  IN IF D = {} THEN Len(a) < Len(b)
     ELSE LET i == CHOOSE x \in D : \A y \in D : x <= y IN a[i] < b[i]
LexLe(a, b) == a = b \/ LexLt(a, b)

(* the comparison operators of an attribute condition: value OP constant *)
Cmp(v, op, c) ==
  CASE op = "eq" -> v = c
    [] op = "ne" -> v # c
    [] op = "lt" -> LexLt(v, c)
    [] op = "le" -> LexLe(v, c)
    [] op = "gt" -> LexLt(c, v)
    [] op = "ge" -> LexLe(c, v)
=============================================================================
