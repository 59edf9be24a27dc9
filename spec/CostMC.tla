------------------------------- MODULE CostMC -------------------------------
(* Design check of Cost: all small trees with every pattern of hits, and all  *)
(* small files with every selection of features.                              *)
EXTENDS Cost, TLC
CONSTANTS MaxN, MaxB, Thrs, MaxF, Sizes, Gaps, Chunks
VARIABLES kind, lanes, B, thr, sizes, sel, chunk, buf, asked
vars == <<kind, lanes, B, thr, sizes, sel, chunk, buf, asked>>
Boxes(ls) == [i \in 1..Len(ls) |-> <<10 * i, ls[i], 10 * i + 4, ls[i]>>]
Init ==
  /\ asked = FALSE
  /\ \/ /\ kind = "tree" /\ lanes \in UNION {[1..n -> {-1, 0, 1}] : n \in 1..MaxN}
        /\ sizes = <<>> /\ sel = <<>>
     \/ /\ kind = "file" /\ lanes = <<>>
        /\ sizes \in UNION {[1..n -> Sizes] : n \in 1..MaxF}
        /\ \E S \in SUBSET (1..Len(sizes)) : sel = SetToSortSeq(S, <)
  /\ B = 2 /\ thr = 0 /\ chunk = 1 /\ buf = [h |-> 0, t |-> 0]
Next ==
  /\ ~asked /\ asked' = TRUE /\ UNCHANGED <<kind, lanes, sizes, sel>>
  /\ IF kind = "tree" THEN B' \in 2..MaxB /\ thr' \in {NodeBytes * t : t \in Thrs} /\ UNCHANGED <<chunk, buf>>
     ELSE B' = B /\ thr' \in Gaps /\ chunk' \in Chunks /\ buf' \in {[h |-> 0, t |-> t] : t \in {5, 7, 11}}
Spec == Init /\ [][Next]_vars

n == Len(lanes)
Line == <<0, 0, 10 * n + 9, 0>>
TreeFrugal ==
  asked /\ kind = "tree" =>
    \A T \in {Build(Boxes(lanes), [i \in 1..n |-> i], B)} :
      LET reqs == SearchReqs(T, n, B, Line, thr \div NodeBytes)
          q == [k |-> "bbox", b |-> Line]
          runs == Called(T, n, B, q)
          got == UNION {reqs[i][1]..reqs[i][2] : i \in 1..Len(reqs)}
      IN /\ SearchFrugal(runs, NodeCount(n, B), thr, q, reqs)
         (* what is called for has been fetched, and nothing twice *)
         /\ \A k \in 1..Len(runs) : (runs[k][1] * NodeBytes)..(runs[k][2] * NodeBytes - 1) \subseteq got
         /\ Cardinality(got) = Bytes(reqs)
NearFrugal ==
  asked /\ kind = "tree" /\ thr = 0 =>
    \A T \in {Build(Boxes(lanes), [i \in 1..n |-> i], B)} : \A x \in {0, 12, 17, 5 * n, 10 * n + 7}, y \in {-1, 0, 3} :
      LET p == <<x, y>>
          q == [k |-> "near", b |-> p, m |-> Nearest(T, n, B, p)[1]]
      IN SearchFrugal(Called(T, n, B, q), NodeCount(n, B), 0, q, NearestReqs(T, n, B, p))

(* the features begin at byte 7 *)
Feats == LET at(i) == 7 + FoldSeq(+, 0, SubSeq(sizes, 1, i - 1)) IN [i \in 1..Len(sizes) |-> <<at(i), at(i) + sizes[i]>>]
Parts(m) == [i \in 1..Len(sel) |-> <<Feats[sel[i]][1], Feats[sel[i]][2] - 1, m>>]
End == 7 + FoldSeq(+, 0, sizes)
Begun == [i \in 1..1 |-> <<0, 6, 0>>]
FileFrugal ==
  asked /\ kind = "file" =>
    LET reqs == FeatureReqs(Feats, sel, thr, 1, chunk, buf)
        one == Singly(Feats, sel, 1, chunk, buf, <<>>)
        in(f, rs) == \A x \in Feats[f][1]..(Feats[f][2] - 1) : x < buf.t \/ \E i \in 1..Len(rs) : rs[i][1] <= x /\ x <= rs[i][2]
    IN /\ \A i \in 1..Len(sel) : in(sel[i], reqs) /\ in(sel[i], one)
       /\ OnlyCalledFor(Begun \o Parts(chunk), End, reqs) /\ OnlyCalledFor(Begun \o Parts(chunk), End, one)
       /\ FewBatched(Feats, sel, thr, chunk, reqs) /\ FewSingly(sel, one)
       /\ \A i \in 1..Len(reqs) : reqs[i][1] < End
(* at every moment, whatever has been delivered so far *)
Lazy ==
  asked /\ kind = "file" =>
    \A k \in 0..Len(sel) :
      LET got == SubSeq(sel, 1, k)
          jumping == Passing(Feats, got, TRUE, 7, <<>>)
          passing == Passing(Feats, got, FALSE, 7, <<>>)
          bytes(rs) == UNION {rs[i][1]..rs[i][2] : i \in 1..Len(rs)}
      IN /\ OnlyCalledFor(Begun \o SubSeq(Parts(0), 1, k), End, jumping)
         /\ OnlyCalledFor(Passed(Feats, got, 0), End, passing)
         /\ \A i \in 1..k : Feats[sel[i]][1]..(Feats[sel[i]][2] - 1) \subseteq bytes(jumping) \cap bytes(passing)
         /\ Cardinality(bytes(passing)) = Bytes(passing) /\ Cardinality(bytes(jumping)) = Bytes(jumping)
=============================================================================
