------------------------------ MODULE STreeMC ------------------------------
(* Design check of STree: for every number of keys and branching factor up to *)
(* the bounds, what the writer builds is well formed, the search finds        *)
(* exactly the keys that are there, a range scan of two nodes is exact, and a *)
(* scan of one node is exact except for upper bounds at a node start.         *)
EXTENDS STree, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxN, MaxB
VARIABLES t, top, q
vars == <<t, top, q>>
Keys(n) == [i \in 1..n |-> 2 * i]
Init == \E n \in 1..MaxN, B \in 2..MaxB, m \in {0, 1} :
          /\ top = 2 * n + m                    \* the greatest key of the type, present or not
          /\ t = Build(Keys(n), B, 2 * n + m)
          /\ q = <<>>
Next == q = <<>> /\ q' \in (1..top) \X (1..top) /\ UNCHANGED <<t, top>>
Spec == Init /\ [][Next]_vars
(* the universe, to be replayed on the real code with every exact and range query over 0..top+1 *)
ASSUME IF "OUT" \in DOMAIN IOEnv
       THEN ndJsonSerialize(IOEnv.OUT, SetToSeq({[n |-> n, B |-> B, top |-> 2 * n + m, keys |-> Keys(n)] :
                                                 n \in 1..MaxN, B \in 2..MaxB, m \in {0, 1}}))
       ELSE TRUE
GenSpec == Init /\ [][FALSE]_vars
KeySet == {t.leaf[i] : i \in 1..t.n}
Good == q = <<>> => WellFormed(t)
FindsExactly == q = <<>> => LET bnd == Bounds(t.n, t.B) IN \A k \in 1..top : Found(t, bnd, k) <=> k \in KeySet
RangeExact ==
  q # <<>> =>
    LET bnd == Bounds(t.n, t.B)
        want == {k \in KeySet : q[1] <= k /\ k <= q[2]}
    IN /\ ScanRange(t, bnd, q[1], q[2], 2) = want
       /\ LET one == ScanRange(t, bnd, q[1], q[2], 1)
          IN q[1] >= q[2] \/ (one # want <=> (AtNodeStart(t, q[2]) /\ one = want \ {q[2]}))
=============================================================================
