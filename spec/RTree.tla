------------------------------- MODULE RTree -------------------------------
(* The packed R-tree.  Items are boxes <<minx,miny,maxx,maxy>> with an        *)
(* offset, in a fixed order.  Every level is stored as one run of nodes; a    *)
(* node of a level covers up to B consecutive nodes of the level below: its   *)
(* box is their union, its pointer the storage position of the first.         *)
(* Storage: root first, items (level 0) last; positions from 0.               *)
EXTENDS Integers, Sequences, FiniteSets

CeilDiv(a, b) == (a + b - 1) \div b
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE LevelsAbove(_, _)
LevelsAbove(n, B) == LET m == CeilDiv(n, B) IN IF m = 1 THEN <<1>> ELSE <<m>> \o LevelsAbove(m, B)
(* level sizes, items first; there is always a root above the items *)
Levels(n, B) == <<n>> \o LevelsAbove(n, B)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
NodeCount(n, B) == Sum(Levels(n, B))
NodeBytes == 40
Bounds(n, B) ==
  LET L == Levels(n, B)
      start(lev) == Sum(SubSeq(L, lev + 2, Len(L)))
  IN [i \in 1..Len(L) |-> <<start(i - 1), start(i - 1) + L[i]>>]

Union2(a, b) == <<Min2(a[1], b[1]), Min2(a[2], b[2]), Max2(a[3], b[3]), Max2(a[4], b[4])>>
RECURSIVE UnionOf(_, _, _)
(* of the nodes at storage positions i..j *)
UnionOf(T, i, j) == IF i = j THEN T[i + 1].b ELSE Union2(T[i + 1].b, UnionOf(T, i + 1, j))

Hits(a, q) == a[1] <= q[3] /\ q[1] <= a[3] /\ a[2] <= q[4] /\ q[2] <= a[4]

----------------------------------------------------------------------------
(* T: nodes [b, p] in storage order; items: their boxes and offsets in order *)
WellFormed(T, n, B, boxes, offs) ==
  LET bnd == Bounds(n, B) IN
  /\ Len(T) = NodeCount(n, B)
  /\ \A i \in 1..n : T[bnd[1][1] + i].b = boxes[i] /\ T[bnd[1][1] + i].p = offs[i]
  /\ \A lev \in 1..(Len(bnd) - 1) : \A j \in 0..(bnd[lev + 1][2] - bnd[lev + 1][1] - 1) :
       LET nd == T[bnd[lev + 1][1] + j + 1]
           c == bnd[lev][1] + j * B
           e == Min2(c + B, bnd[lev][2])
       IN nd.p = c /\ nd.b = UnionOf(T, c, e - 1)

(* what the writer builds *)
Build(boxes, offs, B) ==
  LET n == Len(boxes)
      bnd == Bounds(n, B)
      RECURSIVE Lev(_)
      Lev(lev) ==
        IF lev = 0 THEN [i \in 1..n |-> [b |-> boxes[i], p |-> offs[i]]]
        ELSE LET below == Lev(lev - 1)
                 u(c, e) == UnionOf(below, c, e)
             IN [j \in 1..(bnd[lev + 1][2] - bnd[lev + 1][1]) |->
                   [b |-> u((j - 1) * B, Min2(j * B, Len(below)) - 1), p |-> bnd[lev][1] + (j - 1) * B]]
      RECURSIVE All(_)
      All(lev) == IF lev < 0 THEN <<>> ELSE Lev(lev) \o All(lev - 1)
  IN All(Len(bnd) - 1)

----------------------------------------------------------------------------
(* The search through memory or a reader: node by node, breadth first *)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(T, B, bnd, q, queue, acc) ==
  IF queue = <<>> THEN acc
  ELSE LET pos == Head(queue)[1]
           lev == Head(queue)[2]
           e == Min2(pos + B, bnd[lev + 1][2])
           h == SelectSeq([i \in 1..(e - pos) |-> pos + i - 1], LAMBDA i : Hits(T[i + 1].b, q))
       IN IF lev = 0 THEN Walk(T, B, bnd, q, Tail(queue), acc \o h)
          ELSE Walk(T, B, bnd, q, Tail(queue) \o [i \in 1..Len(h) |-> <<T[h[i] + 1].p, lev - 1>>], acc)
Search(T, n, B, q) == LET bnd == Bounds(n, B) IN Walk(T, B, bnd, q, <<<<0, Len(bnd) - 1>>>>, <<>>)

(* The search over HTTP: ranges of nodes per request; neighbouring ranges are merged when at   *)
(* most thr nodes lie between them; at the item level one more node is fetched, because an     *)
(* item ends where the next one begins.  Result: <<position, position of the next or 0>>.      *)
RECURSIVE Merge(_, _, _, _, _, _, _)
Merge(T, B, bnd, thr, lev, hits, queue) ==
  IF hits = <<>> THEN queue
  ELSE LET c == T[Head(hits) + 1].p
           e == Min2(c + B + (IF lev = 0 THEN 1 ELSE 0), bnd[lev + 1][2])
           k == Len(queue)
           join == /\ queue # <<>> /\ queue[k][3] = lev
                   /\ (c < queue[k][2] \/ c - queue[k][2] <= thr)
       IN Merge(T, B, bnd, thr, lev, Tail(hits),
                IF join THEN [queue EXCEPT ![k] = <<@[1], e, lev>>] ELSE Append(queue, <<c, e, lev>>))
RECURSIVE HttpWalk(_, _, _, _, _, _, _)
HttpWalk(T, B, bnd, q, thr, queue, acc) ==
  IF queue = <<>> THEN acc
  ELSE LET r == Head(queue)
           h == SelectSeq([i \in 1..(r[2] - r[1]) |-> r[1] + i - 1], LAMBDA i : Hits(T[i + 1].b, q))
       IN IF r[3] = 0
          THEN HttpWalk(T, B, bnd, q, thr, Tail(queue),
                        acc \o [i \in 1..Len(h) |-> <<h[i], IF h[i] + 1 < r[2] THEN h[i] + 1 ELSE 0>>])
          ELSE HttpWalk(T, B, bnd, q, thr, Merge(T, B, bnd, thr, r[3] - 1, h, Tail(queue)), acc)
HttpSearch(T, n, B, q, thr) ==
  LET bnd == Bounds(n, B) IN HttpWalk(T, B, bnd, q, thr, <<<<0, 1, Len(bnd) - 1>>>>, <<>>)

----------------------------------------------------------------------------
(* Nearest: best first.  Distances are squared and times four. *)
Sq(x) == x * x
Far(b, p) == Sq(b[1] + b[3] - 2 * p[1]) + Sq(b[2] + b[4] - 2 * p[2])
Gap(lo, hi, x) == IF x < lo THEN lo - x ELSE IF x > hi THEN x - hi ELSE 0
Near(b, p) == 4 * (Sq(Gap(b[1], b[3], p[1])) + Sq(Gap(b[2], b[4], p[2])))
(* queue: set of <<distance, position, level>>; best: <<>> or <<distance, position>> *)
RECURSIVE Consider(_, _, _, _, _, _)
Consider(T, p, lev, positions, best, queue) ==
  IF positions = <<>> THEN <<best, queue>>
  ELSE LET i == Head(positions)
           d == Near(T[i + 1].b, p)
           f == Far(T[i + 1].b, p)
           rest == Tail(positions)
       IN IF best # <<>> /\ d >= best[1] THEN Consider(T, p, lev, rest, best, queue)
          ELSE IF lev = 0
               THEN Consider(T, p, lev, rest, IF best = <<>> \/ f < best[1] THEN <<f, i>> ELSE best, queue)
               ELSE Consider(T, p, lev, rest, best, queue \cup {<<d, T[i + 1].p, lev - 1>>})
RECURSIVE Best(_, _, _, _, _, _)
Best(T, B, bnd, p, queue, best) ==
  IF queue = {} THEN best
  ELSE LET x == CHOOSE y \in queue : \A z \in queue : y[1] <= z[1] IN
       IF best # <<>> /\ x[1] > best[1] THEN best
       ELSE LET e == Min2(x[2] + B, bnd[x[3] + 1][2])
                r == Consider(T, p, x[3], [i \in 1..(e - x[2]) |-> x[2] + i - 1], best, queue \ {x})
            IN Best(T, B, bnd, p, r[2], r[1])
Nearest(T, n, B, p) ==
  LET bnd == Bounds(n, B) IN Best(T, B, bnd, p, {<<0, 0, Len(bnd) - 1>>}, <<>>)
=============================================================================
