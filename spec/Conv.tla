-------------------------------- MODULE Conv --------------------------------
(* The conversion commands: a JSON document comes out as CBOR (RFC 8949) or   *)
(* as BSON, or the run fails.  The bytes are read item by item against the    *)
(* document; the order of the members of an object is free.                   *)
(*                                                                            *)
(* A document is a table of nodes, the first being the root:                  *)
(*   t: "num", "text", "true", "false", "null", "arr" or "map";               *)
(*   n: its number, exactly; s: its text in UTF-8;                            *)
(*   kids: the nodes of its elements or members; keys: the names of those     *)
(* Numbers are neg, e, m for (-1)^neg * 0.m * 2^e, m being bits that begin    *)
(* and end with a one.  1 and 1.0 are the same number.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Doc(_), Out(_)    \* documents and outputs
VARIABLES f, p, stack   \* what is read: [doc, out, fmt]; the position in the bytes; the open arrays and objects
cvars == <<f, p, stack>>

----------------------------------------------------------------------------
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Zero == [neg |-> FALSE, e |-> 0, m |-> <<>>]
Norm(neg, b, e) ==
  LET I == {i \in 1..Len(b) : b[i] = 1} IN
  IF I = {} THEN Zero ELSE [neg |-> neg, e |-> e - Min(I) + 1, m |-> SubSeq(b, Min(I), Max(I))]
Pow == <<128, 64, 32, 16, 8, 4, 2, 1>>
Bits(s) == [i \in 1..(8 * Len(s)) |-> (s[(i - 1) \div 8 + 1] \div Pow[((i - 1) % 8) + 1]) % 2]
Unsigned(s) == Norm(FALSE, Bits(s), 8 * Len(s))
PlusOne(b) ==
  LET c == <<0>> \o b z == Max({i \in 1..Len(c) : c[i] = 0})
  IN [i \in 1..Len(c) |-> IF i < z THEN c[i] ELSE IF i = z THEN 1 ELSE 0]
Below(s) == LET b == PlusOne(Bits(s)) IN Norm(TRUE, b, Len(b))          \* -1 - s
Signed(s) == LET b == Bits(s) IN
             IF b[1] = 0 THEN Unsigned(s)
             ELSE LET c == PlusOne([i \in 1..Len(b) |-> 1 - b[i]]) IN Norm(TRUE, c, Len(c))
RECURSIVE Nat_(_)
Nat_(b) == IF b = <<>> THEN 0 ELSE 2 * Nat_(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
NoNumber == [neg |-> FALSE, e |-> 0, m |-> <<2>>]
Float(s, eb) ==
  LET b == Bits(s)
      bias == Nat_([i \in 1..(eb - 1) |-> 1])
      x == Nat_(SubSeq(b, 2, eb + 1))
      m == SubSeq(b, eb + 2, Len(b))
      r == IF x = 0 THEN Norm(b[1] = 1, m, 1 - bias) ELSE Norm(b[1] = 1, <<1>> \o m, x - bias + 1)
  IN IF x = 2 * bias + 1 THEN NoNumber ELSE r
Four(k) == <<k \div 16777216, (k \div 65536) % 256, (k \div 256) % 256, k % 256>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

----------------------------------------------------------------------------
Nodes == Doc(f.doc)
B == Out(f.out)
Has(a, n) == a >= 1 /\ a + n - 1 <= Len(B)
Part(a, n) == SubSeq(B, a, a + n - 1)
Is(a, s) == Has(a, Len(s)) /\ Part(a, Len(s)) = s
Box(x) == Nodes[x].t \in {"arr", "map"}

(* where the item of node x that begins at a goes on; 0 if it is another one. *)
(* Of an array or object that is where its contents begin.                    *)
ArgLen(i) == CASE i < 24 -> 0 [] i = 24 -> 1 [] i = 25 -> 2 [] i = 26 -> 4 [] i = 27 -> 8 [] OTHER -> 99
Arg(a) == LET i == B[a] % 32 IN IF i < 24 THEN <<i>> ELSE Part(a + 1, ArgLen(i))
CborText(a, s) ==
  IF Has(a, 1) /\ B[a] \div 32 = 3 /\ Has(a + 1, ArgLen(B[a] % 32))
     /\ Unsigned(Arg(a)) = Unsigned(Four(Len(s))) /\ Is(a + 1 + ArgLen(B[a] % 32), s)
  THEN a + 1 + ArgLen(B[a] % 32) + Len(s) ELSE 0
CborItem(x, a) ==
  IF ~Has(a, 1) \/ ~Has(a + 1, ArgLen(B[a] % 32)) THEN 0
  ELSE LET n == Nodes[x] i == B[a] % 32 g == Arg(a) after == a + 1 + ArgLen(i)
           fits == CASE B[a] \div 32 = 0 -> n.t = "num" /\ n.n = Unsigned(g)
                     [] B[a] \div 32 = 1 -> n.t = "num" /\ n.n = Below(g)
                     [] B[a] \div 32 = 4 -> n.t = "arr" /\ Unsigned(g) = Unsigned(Four(Len(n.kids)))
                     [] B[a] \div 32 = 5 -> n.t = "map" /\ Unsigned(g) = Unsigned(Four(Len(n.kids)))
                     [] B[a] \div 32 = 7 ->
                          (CASE i = 20 -> n.t = "false" [] i = 21 -> n.t = "true" [] i = 22 -> n.t = "null"
                             [] i = 25 -> n.t = "num" /\ n.n = Float(g, 5)
                             [] i = 26 -> n.t = "num" /\ n.n = Float(g, 8)
                             [] i = 27 -> n.t = "num" /\ n.n = Float(g, 11)
                             [] OTHER -> FALSE)
                     [] OTHER -> FALSE
       IN IF B[a] \div 32 = 3 THEN (IF n.t = "text" THEN CborText(a, n.s) ELSE 0) ELSE IF fits THEN after ELSE 0

Little(a) == IF Has(a, 4) /\ B[a + 3] = 0 THEN B[a] + 256 * B[a + 1] + 65536 * B[a + 2] ELSE -1
BsonItem(x, t, a) ==
  LET n == Nodes[x] IN
  CASE t = 1  -> IF Has(a, 8) /\ n.t = "num" /\ n.n = Float(Rev(Part(a, 8)), 11) THEN a + 8 ELSE 0
    [] t = 2  -> IF n.t = "text" /\ Little(a) = Len(n.s) + 1 /\ Is(a + 4, Append(n.s, 0)) THEN a + 5 + Len(n.s) ELSE 0
    [] t = 3  -> IF n.t = "map" /\ Little(a) > 0 THEN a + 4 ELSE 0
    [] t = 4  -> IF n.t = "arr" /\ Little(a) > 0 THEN a + 4 ELSE 0
    [] t = 8  -> IF Has(a, 1) /\ n.t = (IF B[a] = 1 THEN "true" ELSE IF B[a] = 0 THEN "false" ELSE "?") THEN a + 1 ELSE 0
    [] t = 10 -> IF n.t = "null" THEN a ELSE 0
    [] t = 16 -> IF Has(a, 4) /\ n.t = "num" /\ n.n = Signed(Rev(Part(a, 4))) THEN a + 4 ELSE 0
    [] t = 18 -> IF Has(a, 8) /\ n.t = "num" /\ n.n = Signed(Rev(Part(a, 8))) THEN a + 8 ELSE 0
    [] OTHER  -> 0

RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN <<48 + k>> ELSE Append(Digits(k \div 10), 48 + (k % 10))

----------------------------------------------------------------------------
Begin(g) == f' = g /\ p' = 1 /\ stack' = <<>>
Top == stack[Len(stack)]
(* node x was found at a, and goes on at b; kid k of the innermost container *)
Seen(k) == IF stack = <<>> THEN <<>> ELSE [stack EXCEPT ![Len(stack)].seen = @ \cup {k}]
Took(x, k, a, b) ==
  /\ b > 0 /\ p' = b /\ UNCHANGED f
  /\ stack' = IF Box(x) THEN Append(Seen(k), [x |-> x, seen |-> {}, end |-> IF f.fmt = "bson" THEN a + Little(a) ELSE 0])
              ELSE Seen(k)
Kids == Nodes[Top.x].kids
Open_ == IF Nodes[Top.x].t = "arr" THEN {Cardinality(Top.seen) + 1} \cap (1..Len(Kids)) ELSE (1..Len(Kids)) \ Top.seen
ItemC ==
  IF stack = <<>> THEN p = 1 /\ \E b \in {CborItem(1, 1)} : Took(1, 0, 1, b)
  ELSE \E k \in Open_ :
         \E a \in {IF Nodes[Top.x].t = "arr" THEN p ELSE CborText(p, Nodes[Top.x].keys[k])} :
           a > 0 /\ \E b \in {CborItem(Kids[k], a)} : Took(Kids[k], k, a, b)
ItemB ==
  IF stack = <<>> THEN p = 1 /\ \E b \in {BsonItem(1, 3, 1)} : Took(1, 0, 1, b)
  ELSE \E k \in Open_ :
         \E key \in {IF Nodes[Top.x].t = "arr" THEN Digits(k - 1) ELSE Nodes[Top.x].keys[k]} :
           /\ Has(p, 1) /\ B[p] > 0 /\ Is(p + 1, Append(key, 0))
           /\ \E b \in {BsonItem(Kids[k], B[p], p + 2 + Len(key))} : Took(Kids[k], k, p + 2 + Len(key), b)
(* the innermost array or object is complete *)
Close ==
  /\ stack # <<>> /\ Cardinality(Top.seen) = Len(Kids)
  /\ IF f.fmt = "bson" THEN Is(p, <<0>>) /\ Top.end = p + 1 /\ p' = p + 1 ELSE UNCHANGED p
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED f
Item == Close \/ (f.fmt = "cbor" /\ ItemC) \/ (f.fmt = "bson" /\ ItemB)
Complete == stack = <<>> /\ p > 1 /\ p = Len(B) + 1

(* a run: what it was given, whether there was room for its output, how it ended.  BSON has no names with a zero byte *)
(* and no integers of 64 unsigned bits; it is made of CityJSON only.                                                  *)
MaySucceed(r) == r.in \in (IF r.fmt = "bson" THEN {"city"} ELSE {"city", "json"}) /\ r.room
MayFail(r) == ~MaySucceed(r) \/ (r.fmt = "bson" /\ ~r.plain)
=============================================================================
