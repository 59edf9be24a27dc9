------------------------------- MODULE STree -------------------------------
(* The static B+-tree of an attribute index.                                 *)
(*                                                                           *)
(* Entries are pairs <<key, offset>>.  The tree has one leaf item per key,   *)
(* sorted; the levels above hold items [k, p]: p is the storage position     *)
(* where a node of the level below begins, k separates what is below p from  *)
(* what is to the right of it.  With branching factor B a node has up to B-1 *)
(* consecutive items; the child right of a node's last item begins B-1       *)
(* positions after the child of that item.  Storage: top level first, leaves *)
(* last.  Positions count from 0; levels from the leaves (0) upwards.        *)
EXTENDS Integers, Sequences, FiniteSets

CeilDiv(a, b) == (a + b - 1) \div b
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* sizes of the levels, leaves first; there is always at least one inner level *)
RECURSIVE LevelsAbove(_, _)
LevelsAbove(n, B) ==
  LET m == CeilDiv(n, B) IN IF m < B THEN <<m>> ELSE <<m>> \o LevelsAbove(m, B)
Levels(n, B) == <<n>> \o LevelsAbove(n, B)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
NodeCount(n, B) == Sum(Levels(n, B))
(* Bounds(n,B)[lev+1] = <<start, end>> (end exclusive) of level lev in storage *)
Bounds(n, B) ==
  LET L == Levels(n, B)
      start(lev) == Sum(SubSeq(L, lev + 2, Len(L)))
  IN [i \in 1..Len(L) |-> <<start(i - 1), start(i - 1) + L[i]>>]

----------------------------------------------------------------------------
(* What a search means: the offsets of the entries whose key qualifies. *)
(* Bound: a one-element sequence, or <<>> for "open". *)
InRange(k, lo, hi) == (lo = <<>> \/ lo[1] <= k) /\ (hi = <<>> \/ k <= hi[1])
RangeOffs(E, lo, hi) == {E[i][2] : i \in {j \in 1..Len(E) : InRange(E[j][1], lo, hi)}}
ExactOffs(E, k) == RangeOffs(E, <<k>>, <<k>>)
OpHolds(k, op, v) ==
  CASE op = "eq" -> k = v [] op = "ne" -> k # v [] op = "lt" -> k < v
    [] op = "le" -> k <= v [] op = "gt" -> k > v [] op = "ge" -> k >= v
CondOffs(E, op, v) == {E[i][2] : i \in {j \in 1..Len(E) : OpHolds(E[j][1], op, v)}}

----------------------------------------------------------------------------
(* The tree.  T: inner items, T[i+1] = [k, p]; the leaf keys follow as LK.   *)
(* A tree is a record [n, B, inner, leaf]: inner = sequence of <<k, p>> in   *)
(* storage order, leaf = sequence of keys.                                   *)
Item(t, pos) == t.inner[pos + 1]
LeafKey(t, bnd, pos) == t.leaf[pos - bnd[1][1] + 1]

(* the children of the node at level lev (>= 1) that begins at pos: starts of nodes of level lev-1 *)
NodeEnd(t, bnd, lev, pos) == Min2(pos + t.B - 1, bnd[lev + 1][2])
Children(t, bnd, lev, pos) ==
  LET e == NodeEnd(t, bnd, lev, pos)
      own == [i \in 1..(e - pos) |-> Item(t, pos + i - 1)[2]]
      last == own[Len(own)] + t.B - 1
  IN IF last < bnd[lev][2] THEN Append(own, last) ELSE own

RECURSIVE Leftmost(_, _, _, _)
Leftmost(t, bnd, lev, pos) ==
  IF lev = 0 THEN LeafKey(t, bnd, pos)
  ELSE Leftmost(t, bnd, lev - 1, Item(t, pos)[2])
RECURSIVE Rightmost(_, _, _, _)
Rightmost(t, bnd, lev, pos) ==
  IF lev = 0 THEN LeafKey(t, bnd, NodeEnd(t, bnd, 0, pos) - 1)
  ELSE LET c == Children(t, bnd, lev, pos) IN Rightmost(t, bnd, lev - 1, c[Len(c)])

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
(* the node starts of a level, in the order in which they are reached from the root *)
RECURSIVE Reached(_, _, _)
Reached(t, bnd, lev) ==
  IF lev = Len(bnd) - 1 THEN <<bnd[lev + 1][1]>>
  ELSE LET up == Reached(t, bnd, lev + 1)
       IN Concat([i \in 1..Len(up) |-> Children(t, bnd, lev + 1, up[i])])

PointersOk(t, bnd) ==
  \A lev \in 1..(Len(bnd) - 1) : \A pos \in bnd[lev + 1][1]..(bnd[lev + 1][2] - 1) :
     LET p == Item(t, pos)[2] IN p >= bnd[lev][1] /\ p < bnd[lev][2] /\ (p - bnd[lev][1]) % (t.B - 1) = 0
(* every node of every level is reached exactly once, from left to right *)
AllReached(t, bnd) ==
  \A lev \in 0..(Len(bnd) - 1) :
     LET r == Reached(t, bnd, lev)
         m == CeilDiv(bnd[lev + 1][2] - bnd[lev + 1][1], t.B - 1)
     IN r = [i \in 1..m |-> bnd[lev + 1][1] + (i - 1) * (t.B - 1)]
(* an item's key: greater than everything below it, and not greater than anything to its right *)
Separates(t, bnd) ==
  \A lev \in 1..(Len(bnd) - 1) :
     LET R == Reached(t, bnd, lev) IN
     \A r \in 1..Len(R) :
       LET pos == R[r]
           c == Children(t, bnd, lev, pos)
           e == NodeEnd(t, bnd, lev, pos)
       IN \A i \in 1..(e - pos) :
            LET k == Item(t, pos + i - 1)[1] IN
            IF i < Len(c)
            THEN Rightmost(t, bnd, lev - 1, c[i]) < k /\ k <= Leftmost(t, bnd, lev - 1, c[i + 1])
            ELSE Rightmost(t, bnd, lev - 1, c[i]) <= k
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

ShapeOk(t) ==
  /\ Len(t.leaf) = t.n /\ t.n >= 1
  /\ Len(t.inner) + t.n = NodeCount(t.n, t.B)
WellFormed(t) ==
  /\ ShapeOk(t)
  /\ LET bnd == Bounds(t.n, t.B) IN
     /\ Sorted(t.leaf) /\ PointersOk(t, bnd) /\ AllReached(t, bnd) /\ Separates(t, bnd)

----------------------------------------------------------------------------
(* The search: at each node to the first item with a greater key, or right of the last *)
RECURSIVE DescendFrom(_, _, _, _, _)
DescendFrom(t, bnd, lev, pos, key) ==
  IF lev = 0 THEN pos
  ELSE LET e == NodeEnd(t, bnd, lev, pos)
           G == {i \in pos..(e - 1) : Item(t, i)[1] > key}
           lastp == Item(t, e - 1)[2]
           c == IF G # {} THEN Item(t, CHOOSE i \in G : \A j \in G : i <= j)[2]
                ELSE IF lastp + t.B - 1 < bnd[lev][2] THEN lastp + t.B - 1 ELSE lastp
       IN DescendFrom(t, bnd, lev - 1, c, key)
(* storage position of the leaf node in which the key has its place *)
Descend(t, bnd, key) == DescendFrom(t, bnd, Len(bnd) - 1, 0, key)
NodeKeys(t, bnd, pos) == {LeafKey(t, bnd, i) : i \in pos..(NodeEnd(t, bnd, 0, pos) - 1)}
Found(t, bnd, key) == key \in NodeKeys(t, bnd, Descend(t, bnd, key))

(* the partition point: as Descend, but keys equal to a separator go to its left *)
RECURSIVE PartitionFrom(_, _, _, _, _)
PartitionFrom(t, bnd, lev, pos, key) ==
  IF lev = 0 THEN pos
  ELSE LET e == NodeEnd(t, bnd, lev, pos)
           G == {i \in pos..(e - 1) : Item(t, i)[1] >= key}
           lastp == Item(t, e - 1)[2]
           c == IF G # {} THEN Item(t, CHOOSE i \in G : \A j \in G : i <= j)[2]
                ELSE IF lastp + t.B - 1 < bnd[lev][2] THEN lastp + t.B - 1 ELSE lastp
       IN PartitionFrom(t, bnd, lev - 1, c, key)
Partition(t, bnd, key) == PartitionFrom(t, bnd, Len(bnd) - 1, 0, key)
(* a range search scans from the partition point of lo through `extra` nodes from that of hi *)
ScanRange(t, bnd, lo, hi, extra) ==
  IF lo > hi THEN {}
  ELSE LET a == Partition(t, bnd, lo)
           b == Min2(Partition(t, bnd, hi) + extra * (t.B - 1), bnd[1][2])
       IN {k \in {LeafKey(t, bnd, i) : i \in a..(b - 1)} : lo <= k /\ k <= hi}

(* hi is the first key of a leaf node other than the first: the known deviation of the low-level
   range search (it scans one node instead of two) *)
AtNodeStart(t, hi) == \E i \in 1..t.n : t.leaf[i] = hi /\ i > 1 /\ (i - 1) % (t.B - 1) = 0

----------------------------------------------------------------------------
(* A tree as the writer builds it *)
Build(keys, B, maxkey) ==
  LET n == Len(keys)
      bnd == Bounds(n, B)
      (* leaf index of the smallest key below the node number c of level lev *)
      RECURSIVE First(_, _)
      First(lev, c) == IF lev = 0 THEN c * (B - 1) + 1
                       ELSE LET j == c * (B - 1) IN First(lev - 1, (j \div (B - 1)) * B + (j % (B - 1)))
      nodes(lev) == CeilDiv(bnd[lev + 1][2] - bnd[lev + 1][1], B - 1)
      item(lev, j) ==   \* the j-th item (from 0) of level lev
        LET c == (j \div (B - 1)) * B + (j % (B - 1)) IN
        <<IF c + 1 < nodes(lev - 1) THEN keys[First(lev - 1, c + 1)] ELSE maxkey,
          bnd[lev][1] + c * (B - 1)>>
      RECURSIVE All(_)
      All(lev) == IF lev = 0 THEN <<>>
                  ELSE [j \in 1..(bnd[lev + 1][2] - bnd[lev + 1][1]) |-> item(lev, j - 1)] \o All(lev - 1)
  IN [n |-> n, B |-> B, inner |-> All(Len(bnd) - 1), leaf |-> keys]
=============================================================================
