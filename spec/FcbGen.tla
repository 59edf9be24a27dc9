------------------------------- MODULE FcbGen -------------------------------
(* All sessions over a small universe of data sets: the invariants of Fcb are *)
(* checked on all of them, and the data sets and queries are written out to   *)
(* be replayed on the real code.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Kind,   \* "space" or "attr"
          MaxN,   \* features per data set
          Side    \* grid points per axis / attribute values

VARIABLES ds, opt, file, phase, mode, env, exp, pos
F == INSTANCE Fcb

P == 0..Side-1
Boxes == {<<x, y, X, Y>> : x \in P, y \in P, X \in P, Y \in P}
GoodBoxes == {b \in Boxes : b[1] <= b[3] /\ b[2] <= b[4]}
(* the values of attribute "a" on the objects of a feature *)
Bags == {<<>>} \cup {<<v>> : v \in P} \cup {<<v, w>> : v \in P, w \in P}
Units == IF Kind = "space" THEN GoodBoxes ELSE {b \in Bags : Len(b) < 2 \/ b[1] <= b[2]}

Feat(u, i) ==
  IF Kind = "space" THEN [id |-> i, h |-> i, b |-> u, a |-> <<>>]
  ELSE [id |-> i, h |-> i, b |-> <<i, i, i, i>>,
        a |-> IF u = <<>> THEN <<>> ELSE [a |-> [k \in 1..Len(u) |-> <<u[k]>>]]]
Universe == UNION {[1..n -> Units] : n \in 0..MaxN}
Build(us) == [i \in 1..Len(us) |-> Feat(us[i], i)]

Ops == {"eq", "ne", "lt", "le", "gt", "ge"}
Conds == {[n |-> "a", op |-> o, t |-> "i32", v |-> <<v>>] : o \in Ops, v \in 0..Side}
Queries ==
  {[k |-> "all"]} \cup
  (IF Kind = "space"
   THEN {[k |-> "bbox", b |-> b] : b \in GoodBoxes} \cup {[k |-> "point", p |-> <<x, y>>] : x \in P, y \in P}
        \cup {[k |-> "near", p |-> <<x, y>>] : x \in P, y \in P}
   ELSE {[k |-> "attr", c |-> <<c>>] : c \in Conds} \cup {[k |-> "attr", c |-> <<c, d>>] : c \in Conds, d \in Conds})

ASSUME IF "OUT" \in DOMAIN IOEnv
       THEN /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({[u |-> us] : us \in Universe}))
            /\ ndJsonSerialize(IOEnv.OUTQ, SetToSeq(Queries))
       ELSE TRUE

NoEnv == [canfail |-> FALSE, dead |-> FALSE]
Next ==
  \/ /\ phase = "none"
     /\ \E us \in Universe, idx \in BOOLEAN :
        \E ord \in (IF idx THEN [1..Len(us) -> 1..Len(us)] ELSE {[i \in 1..Len(us) |-> i]}) :
        F!Write(Build(us), [index |-> idx, cols |-> [a |-> "i32"], said |-> Len(us)], ord)
  \/ phase = "file" /\ F!Open("seek", NoEnv)
  \/ phase = "open" /\ \E q \in Queries : \E n \in -1..Len(ds) : F!Select(q, n)
  \/ phase = "open" /\ \E q \in Queries : F!Refuse(q)
  \/ \E i \in 1..Len(ds) : F!Next1(i, i)
  \/ F!End
Spec == F!Init /\ [][Next]_<<ds, opt, file, phase, mode, env, exp, pos>>

(* only writes the universe out *)
GenSpec == F!Init /\ [][FALSE]_<<ds, opt, file, phase, mode, env, exp, pos>>

(* what a query delivers is what matches, each once, in file order *)
Sound == phase \in {"iter", "done"} => F!NoRepeat /\ F!FileOrder
Complete == F!NoSilentLoss
Failures == F!OnlyRealFailures
TypeOK == pos \in 0..Len(exp) /\ Len(file) = Len(ds)
=============================================================================
