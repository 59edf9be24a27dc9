------------------------------ MODULE RTreeMC ------------------------------
(* Design check of RTree: items in a row, each below (-1), on (0) or above (1) *)
(* the query line, so that every pattern of hits and of inner nodes that are   *)
(* hit without any item below being hit occurs.                                *)
EXTENDS RTree, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxN, MaxB, Thrs
VARIABLES lanes, B, thr, asked
vars == <<lanes, B, thr, asked>>
Boxes(ls) == [i \in 1..Len(ls) |-> <<10 * i, ls[i], 10 * i + 4, ls[i]>>]
Offs(ls) == [i \in 1..Len(ls) |-> 100 * i]
Universe == UNION {[1..n -> {-1, 0, 1}] : n \in 1..MaxN}
ASSUME IF "OUT" \in DOMAIN IOEnv
       THEN ndJsonSerialize(IOEnv.OUT, SetToSeq({[lanes |-> ls] : ls \in Universe}))
       ELSE TRUE
Init == lanes \in Universe /\ B = 2 /\ thr = 0 /\ asked = FALSE
Next == ~asked /\ asked' = TRUE /\ B' \in 2..MaxB /\ thr' \in Thrs /\ UNCHANGED lanes
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][FALSE]_vars
T == Build(Boxes(lanes), Offs(lanes), B)
n == Len(lanes)
Base == Bounds(n, B)[1][1]
Line == <<0, 0, 10 * n + 9, 0>>
Want == SelectSeq([i \in 1..n |-> i], LAMBDA i : lanes[i] = 0)
Good == asked => WellFormed(T, n, B, Boxes(lanes), Offs(lanes))
FindsExactly == asked => Search(T, n, B, Line) = [i \in 1..Len(Want) |-> Base + Want[i] - 1]
(* every item once, with the beginning of the next item if there is one, whatever is merged *)
HttpExact ==
  asked => HttpSearch(T, n, B, Line, thr)
           = [i \in 1..Len(Want) |-> <<Base + Want[i] - 1, IF Want[i] < n THEN Base + Want[i] ELSE 0>>]
NearestExact ==
  asked /\ thr = 0 =>
    \A x \in {0, 12, 17, 5 * n, 10 * n + 7}, y \in {-1, 0, 3} :
      LET best == Nearest(T, n, B, <<x, y>>) IN
      /\ best # <<>>
      /\ best[1] = Far(T[best[2] + 1].b, <<x, y>>)
      /\ \A i \in 1..n : best[1] <= Far(Boxes(lanes)[i], <<x, y>>)
=============================================================================
