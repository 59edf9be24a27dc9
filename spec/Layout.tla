------------------------------- MODULE Layout -------------------------------
(* The bytes of a file: magic (8), header (4-byte size and that many bytes),  *)
(* spatial index (40 bytes per node, if there is one), attribute indexes one  *)
(* after another, features one after another (each a 4-byte size and that     *)
(* many bytes).  Offsets in the indexes count from the first feature.         *)
EXTENDS Integers, Sequences, FiniteSets
R == INSTANCE RTree
S == INSTANCE STree

MagicBytes == 8
RECURSIVE SumF(_)
SumF(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumF(Tail(s))
SetOf(s) == {s[i] : i \in 1..Len(s)}

(* a file f: [len, magic, hsize, node (size of index nodes, 0: no index), count, attrs, feats, ...] *)
TreeBytes(node, n) == IF node > 0 /\ n > 0 THEN R!NodeBytes * R!NodeCount(n, node) ELSE 0
AttrBytes(f) == SumF([i \in 1..Len(f.attrs) |-> f.attrs[i].len])
FeaturesStart(f) == MagicBytes + 4 + f.hsize + TreeBytes(f.node, f.count) + AttrBytes(f)

(* no gap, no overlap, nothing after the last feature *)
Contiguous(f) ==
  /\ f.magic /\ f.fs = FeaturesStart(f)
  /\ \A i \in 1..Len(f.feats) : f.feats[i].at = SumF([j \in 1..(i - 1) |-> f.feats[j].size])
  /\ f.fs + SumF([j \in 1..Len(f.feats) |-> f.feats[j].size]) = f.len
(* the features are the ones added, each once; without an index in the order of their adding *)
Contents(f) ==
  /\ f.count = f.n /\ Len(f.feats) = f.n
  /\ SetOf([i \in 1..Len(f.feats) |-> f.feats[i].no]) = 1..f.n
  /\ f.index \/ \A i \in 1..f.n : f.feats[i].no = i
  /\ (f.node > 0) = f.index
FeatAt(f, off) == {f.feats[i].no : i \in {j \in 1..Len(f.feats) : f.feats[j].at = off}}

(* the spatial index: one leaf per feature, at its start, with its box *)
Spatial(f) ==
  IF f.node = 0 \/ f.n = 0 THEN f.rnodes = <<>>
  ELSE LET T == [i \in 1..Len(f.rnodes) |->
                   [b |-> <<f.rnodes[i][1], f.rnodes[i][2], f.rnodes[i][3], f.rnodes[i][4]>>, p |-> f.rnodes[i][5]]]
           lo == Len(T) - f.n
           leaf == [i \in 1..f.n |-> T[lo + i]]
       IN /\ Len(T) = R!NodeCount(f.n, f.node)
          /\ R!WellFormed(T, f.n, f.node, [i \in 1..f.n |-> leaf[i].b], [i \in 1..f.n |-> leaf[i].p])
          /\ \A i \in 1..f.n : leaf[i].b \in {f.boxes[k] : k \in FeatAt(f, leaf[i].p)}
          /\ Cardinality(SetOf([i \in 1..f.n |-> leaf[i].p])) = f.n

(* an attribute index: a well-formed tree over the values, every value with the features carrying it *)
AttrOk(f, a) ==
  /\ S!WellFormed([n |-> a.n, B |-> a.bf, inner |-> a.inner, leaf |-> a.leaf])
  /\ a.len = a.w * S!NodeCount(a.n, a.bf) + a.payused
  /\ \A i \in 1..Len(a.offs) : \A j \in 1..Len(a.offs[i]) : FeatAt(f, a.offs[i][j]) # {}
  /\ UNION {{<<a.leaf[i], no>> : no \in UNION {FeatAt(f, a.offs[i][j]) : j \in 1..Len(a.offs[i])}} : i \in 1..Len(a.leaf)}
     = SetOf(a.entries)
Attributes(f) ==
  /\ SetOf([i \in 1..Len(f.attrs) |-> f.attrs[i].col]) = SetOf(f.wanted)
  /\ Len(f.attrs) = Len(f.wanted)
  /\ \A i \in 1..Len(f.attrs) : AttrOk(f, f.attrs[i])

Consistent(f) == Contents(f) /\ Contiguous(f) /\ Spatial(f) /\ Attributes(f)
=============================================================================
