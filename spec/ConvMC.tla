------------------------------- MODULE ConvMC -------------------------------
(* All small documents, written in the several ways the formats allow, are    *)
(* read as themselves and as no other document.                               *)
EXTENDS Conv, TLC, SequencesExt
CONSTANT Deep
(* numbers with their CBOR and BSON forms *)
N(neg, e, m) == [neg |-> neg, e |-> e, m |-> m]
Nums == <<
  [n |-> Zero, c |-> <<0>>, b |-> <<16, 0, 0, 0, 0>>],
  [n |-> Zero, c |-> <<249, 128, 0>>, b |-> <<1, 0, 0, 0, 0, 0, 0, 0, 128>>],
  [n |-> N(FALSE, 1, <<1>>), c |-> <<1>>, b |-> <<16, 1, 0, 0, 0>>],
  [n |-> N(FALSE, 1, <<1>>), c |-> <<249, 60, 0>>, b |-> <<1, 0, 0, 0, 0, 0, 0, 240, 63>>],
  [n |-> N(TRUE, 1, <<1>>), c |-> <<32>>, b |-> <<18, 255, 255, 255, 255, 255, 255, 255, 255>>],
  [n |-> N(TRUE, 2, <<1, 1>>), c |-> <<250, 192, 64, 0, 0>>, b |-> <<1, 0, 0, 0, 0, 0, 0, 8, 192>>],
  [n |-> N(FALSE, 5, <<1, 1>>), c |-> <<24, 24>>, b |-> <<18, 24, 0, 0, 0, 0, 0, 0, 0>>],
  [n |-> N(TRUE, 9, <<1>>), c |-> <<56, 255>>, b |-> <<16, 0, 255, 255, 255>>],
  [n |-> N(FALSE, -23, <<1>>), c |-> <<249, 0, 1>>, b |-> <<1, 0, 0, 0, 0, 0, 0, 112, 62>>],
  [n |-> N(FALSE, 32, <<1>>), c |-> <<26, 128, 0, 0, 0>>, b |-> <<18, 0, 0, 0, 128, 0, 0, 0, 0>>] >>
Plain(t, c, b) == [t |-> t, n |-> Zero, s |-> <<>>, c |-> c, b |-> b]
Text(s) == [t |-> "text", n |-> Zero, s |-> s, c |-> <<96 + Len(s)>> \o s, b |-> <<2, Len(s) + 1, 0, 0, 0>> \o Append(s, 0)]
Scalars == [i \in 1..Len(Nums) |-> [t |-> "num", n |-> Nums[i].n, s |-> <<>>, c |-> Nums[i].c, b |-> Nums[i].b]]
  \o << Plain("true", <<245>>, <<8, 1>>), Plain("false", <<244>>, <<8, 0>>), Plain("null", <<246>>, <<10>>),
        Text(<<>>), Text(<<97>>), Text(<<49>>) >>
(* a tree: a table of nodes with the bytes it is written as *)
Leaf(x) == [nodes |-> <<[t |-> x.t, n |-> x.n, s |-> x.s, kids |-> <<>>, keys |-> <<>>]>>, c |-> x.c, b |-> x.b]
Leaves == [i \in 1..Len(Scalars) |-> Leaf(Scalars[i])]
Moved(ns, by) == [i \in 1..Len(ns) |-> [ns[i] EXCEPT !.kids = [k \in 1..Len(ns[i].kids) |-> ns[i].kids[k] + by]]]
Sum(ts, k) == IF k = 0 THEN 0 ELSE Len(ts[1].nodes)     \* no more than two
Cat(ss) == CASE Len(ss) = 0 -> <<>> [] Len(ss) = 1 -> ss[1] [] Len(ss) = 2 -> ss[1] \o ss[2]
Table(t, ts, keys) ==
  <<[t |-> t, n |-> Zero, s |-> <<>>, kids |-> [k \in 1..Len(ts) |-> 2 + Sum(ts, k - 1)], keys |-> keys]>>
  \o Cat([k \in 1..Len(ts) |-> Moved(ts[k].nodes, 1 + Sum(ts, k - 1))])
Name(b, key) == <<b[1]>> \o Append(key, 0) \o SubSeq(b, 2, Len(b))
BsonDoc(body) == <<5 + Len(body), 0, 0, 0>> \o Append(body, 0)
Arr(ts) == [nodes |-> Table("arr", ts, [k \in 1..Len(ts) |-> <<>>]),
            c |-> <<128 + Len(ts)>> \o Cat([k \in 1..Len(ts) |-> ts[k].c]),
            b |-> <<4>> \o BsonDoc(Cat([k \in 1..Len(ts) |-> Name(ts[k].b, <<47 + k>>)]))]
(* the members are written in either order *)
Map(ts, keys, back) ==
  LET at(k) == IF back THEN Len(ts) + 1 - k ELSE k IN
  [nodes |-> Table("map", ts, keys),
   c |-> <<160 + Len(ts)>> \o Cat([k \in 1..Len(ts) |-> <<96 + Len(keys[at(k)])>> \o keys[at(k)] \o ts[at(k)].c]),
   b |-> <<3>> \o BsonDoc(Cat([k \in 1..Len(ts) |-> Name(ts[at(k)].b, keys[at(k)])]))]
L == {Leaves[i] : i \in 1..Len(Leaves)}
L2 == {Leaves[i] : i \in IF Deep THEN {1, 3, 4, 13, 15} ELSE {3, 15}}
A == <<97>>
Keys2 == {<<A, <<>>>>, <<<<48>>, <<49>>>>}
Flat == {Arr(<<>>), Map(<<>>, <<>>, FALSE)}
     \cup {Arr(<<x>>) : x \in L} \cup {Map(<<x>>, <<A>>, FALSE) : x \in L}
     \cup {Arr(<<x, y>>) : x \in L2, y \in L2}
     \cup {Map(<<x, y>>, ks, back) : x \in L2, y \in L2, ks \in Keys2, back \in BOOLEAN}
Some == {Arr(<<>>), Map(<<>>, <<>>, FALSE), Arr(<<Leaves[3]>>), Map(<<Leaves[4]>>, <<A>>, FALSE), Map(<<Leaves[3], Leaves[15]>>, <<A, <<>>>>, TRUE)}
Nested == {Arr(<<x, y>>) : x \in Some, y \in L2} \cup {Map(<<y, x>>, <<A, <<48>>>>, back) : x \in Some, y \in L2, back \in BOOLEAN}
     \cup {Arr(<<Arr(<<x>>)>>) : x \in Some} \cup {Map(<<Arr(<<x, x>>)>>, <<A>>, FALSE) : x \in Some}
Trees == SetToSeq(Flat \cup Nested \cup L)
NT == Len(Trees)
Rooted(i) == Trees[i].nodes[1].t = "map"
(* the bytes of every document, then the same in BSON *)
MCDoc(d) == Trees[d].nodes
MCOut(g) == IF g <= NT THEN Trees[g].c ELSE Tail(Trees[g - NT].b)
MCInit == \E i, j \in 1..NT, fmt \in {"cbor", "bson"} :
  /\ fmt = "bson" => Rooted(i) /\ Rooted(j)
  /\ f = [doc |-> i, out |-> IF fmt = "cbor" THEN j ELSE NT + j, fmt |-> fmt] /\ p = 1 /\ stack = <<>>
MCSpec == MCInit /\ [][Item]_cvars
----------------------------------------------------------------------------
Same == Trees[f.doc].nodes = Trees[IF f.fmt = "cbor" THEN f.out ELSE f.out - NT].nodes
Faithful == Complete => Same
Readable == (Same /\ ~ENABLED Item) => Complete
=============================================================================
