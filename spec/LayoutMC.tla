------------------------------ MODULE LayoutMC ------------------------------
(* The writer: features go to a temporary file in the order they are added;   *)
(* when the file is written they are put into the order of the index, offsets *)
(* are assigned anew, and the sections follow one another.  What it writes is *)
(* parsed back by position only and must be Consistent.                       *)
EXTENDS Layout, TLC, SequencesExt
CONSTANTS MaxN
VARIABLES phase, feats, index, order, out, sect
vars == <<phase, feats, index, order, out, sect>>
(* a feature: size 5 or 7, place on a line, value of the attribute (0: none) *)
Sizes == {5, 7}
Places == {0, 3}
Vals == {0, 1, 2}
HSize == 3
Init == phase = "add" /\ feats = <<>> /\ index \in BOOLEAN /\ order = <<>> /\ out = <<>> /\ sect = <<>>
Add ==
  /\ phase = "add" /\ Len(feats) < MaxN
  /\ \E s \in Sizes, p \in Places, v \in Vals :
       feats' = Append(feats, [size |-> s, b |-> <<p, 0, p + 1, 2>>, v |-> v])
  /\ UNCHANGED <<phase, index, order, out, sect>>
N == Len(feats)
IsPerm(o) == {o[i] : i \in 1..N} = 1..N
Sort ==
  /\ phase = "add" /\ phase' = "sorted"
  /\ order' \in (IF index THEN {o \in [1..N -> 1..N] : IsPerm(o)} ELSE {[i \in 1..N |-> i]})
  /\ UNCHANGED <<feats, index, out, sect>>
(* bytes are tagged with what they belong to, so that reading at a wrong position is noticed *)
Bytes(tag, k) == [i \in 1..k |-> <<tag, i>>]
At(k) == SumF([j \in 1..(k - 1) |-> feats[order[j]].size])   \* start of the k-th feature in the file
Pos(no) == At(CHOOSE k \in 1..N : order[k] = no)
Tree == IF index /\ N > 0 THEN R!Build([k \in 1..N |-> feats[order[k]].b], [k \in 1..N |-> At(k)], 2) ELSE <<>>
Have == {no \in 1..N : feats[no].v > 0}
KeySeq == LET V == {feats[no].v : no \in Have} IN IF V = {1, 2} THEN <<1, 2>> ELSE IF V = {} THEN <<>> ELSE <<CHOOSE v \in V : TRUE>>
Attr ==
  IF KeySeq = <<>> THEN <<>>
  ELSE LET b == S!Build(KeySeq, 2, 9)
           RECURSIVE Seq1(_)
           Seq1(Q) == IF Q = {} THEN <<>> ELSE LET x == CHOOSE y \in Q : \A z \in Q : y <= z IN <<Pos(x)>> \o Seq1(Q \ {x})
           offs == [i \in 1..Len(KeySeq) |-> Seq1({no \in Have : feats[no].v = KeySeq[i]})]
           pay == SumF([i \in 1..Len(offs) |-> IF Len(offs[i]) > 1 THEN 4 + 8 * Len(offs[i]) ELSE 0])
       IN <<[col |-> 0, n |-> Len(KeySeq), bf |-> 2, w |-> 12, inner |-> b.inner, leaf |-> b.leaf, offs |-> offs, payused |-> pay,
             len |-> 12 * S!NodeCount(Len(KeySeq), 2) + pay, entries |-> SetToSeq({<<feats[no].v, no>> : no \in Have})]>>
Write ==
  /\ phase = "sorted" /\ phase' = "done"
  /\ LET fb == [k \in 1..N |-> Bytes(<<"f", order[k]>>, feats[order[k]].size)]
         body == S!Concat(fb)
         tb == Bytes("r", TreeBytes(IF index THEN 2 ELSE 0, N))
         ab == IF Attr = <<>> THEN <<>> ELSE Bytes("a", Attr[1].len)
     IN out' = Bytes("m", MagicBytes) \o Bytes("h", 4 + HSize) \o tb \o ab \o body
  /\ sect' = [rnodes |-> [i \in 1..Len(Tree) |-> Tree[i].b \o <<Tree[i].p>>], attrs |-> Attr]
  /\ UNCHANGED <<feats, index, order>>
Next == Add \/ Sort \/ Write
Spec == Init /\ [][Next]_vars

(* parsing by position *)
File ==
  LET f0 == [len |-> Len(out), magic |-> TRUE, hsize |-> HSize, node |-> IF index THEN 2 ELSE 0, count |-> N, n |-> N,
             index |-> index, attrs |-> sect.attrs, rnodes |-> sect.rnodes, boxes |-> [i \in 1..N |-> feats[i].b],
             wanted |-> IF Have = {} THEN <<>> ELSE <<0>>]
      fs == FeaturesStart(f0)
      RECURSIVE Walk(_, _)
      Walk(pos, acc) ==
        IF pos >= Len(out) THEN acc
        ELSE LET t == out[pos + 1] IN
             IF t[1][1] # "f" \/ t[2] # 1 THEN Append(acc, [at |-> pos - fs, size |-> -1, no |-> 0])
             ELSE Walk(pos + feats[t[1][2]].size, Append(acc, [at |-> pos - fs, size |-> feats[t[1][2]].size, no |-> t[1][2]]))
  IN f0 @@ [fs |-> fs, feats |-> Walk(fs, <<>>)]
Written == phase = "done" => Consistent(File)
=============================================================================
