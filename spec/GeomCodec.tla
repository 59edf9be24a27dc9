----------------------------- MODULE GeomCodec -----------------------------
(* How nested arrays are stored.  A geometry's boundaries are nested arrays   *)
(* whose depth its type determines; they are stored as the vertex indices in  *)
(* one flat list and, per level, the lengths of the arrays of that level:     *)
(* strings (rings), surfaces, shells, solids.  Assignments of semantics,      *)
(* materials and textures are nested arrays over the same structure.          *)
EXTENDS Integers, Sequences, FiniteSets
Null == -1                                   \* "no value" among stored indices (2^32-1)
Open == -2                                   \* brackets of a nested array written as a list of tokens
Close == -3

Depth(t) == CASE t = "MultiPoint" -> 1
              [] t = "MultiLineString" -> 2
              [] t \in {"MultiSurface", "CompositeSurface"} -> 3
              [] t = "Solid" -> 4
              [] t \in {"MultiSolid", "CompositeSolid"} -> 5
IsMulti(t) == Depth(t) = 5
(* depth of the arrays assigning semantics or materials to points, lines, surfaces *)
ValDepth(t) == IF Depth(t) <= 3 THEN 1 ELSE Depth(t) - 2

RECURSIVE CatOf(_, _, _)
CatOf(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
                   ELSE LET m == (i + j) \div 2 IN CatOf(ss, i, m) \o CatOf(ss, m + 1, j)
Cat(ss) == CatOf(ss, 1, Len(ss))
RECURSIVE Lens(_, _, _)
Lens(b, d, k) ==                             \* lengths of the arrays of level k, in order
  IF d < k THEN <<>> ELSE IF d = k THEN <<Len(b)>> ELSE Cat([i \in 1..Len(b) |-> Lens(b[i], d - 1, k)])
RECURSIVE Leaves(_, _)
Leaves(b, d) == IF d = 1 THEN b ELSE Cat([i \in 1..Len(b) |-> Leaves(b[i], d - 1)])
RECURSIVE Tok(_, _)
Tok(b, d) == <<Open>> \o (IF d = 1 THEN b ELSE Cat([i \in 1..Len(b) |-> Tok(b[i], d - 1)])) \o <<Close>>

(* number of array levels that are there (an empty array ends its branch) *)
RECURSIVE DepthOf(_, _)
DepthOf(b, d) ==
  IF d = 1 \/ b = <<>> THEN 1
  ELSE 1 + LET D == {DepthOf(b[i], d - 1) : i \in 1..Len(b)} IN CHOOSE x \in D : \A y \in D : y <= x
(* a geometry is empty or reaches its full depth somewhere *)
Proper(t, b) == b = <<>> \/ DepthOf(b, Depth(t)) = Depth(t)

FlatD(b, d) == [L |-> <<Lens(b, d, 1), Lens(b, d, 2), Lens(b, d, 3), Lens(b, d, 4)>>, leaves |-> Leaves(b, d)]
Flat(t, b) == FlatD(b, IF b = <<>> THEN 1 ELSE Depth(t))

(* ------------------------------------------------------------------------- *)
(* The decoder: a stack of open arrays [lv, n still to read], a cursor per    *)
(* list (5: the flat list), and the tokens written so far.                    *)
TopLevel(f) == LET S == {0} \cup {k \in 1..4 : f.L[k] # <<>>} IN CHOOSE x \in S : \A y \in S : y <= x
Start(f, multi) ==
  LET top == TopLevel(f) IN
  IF top = 4 /\ multi
  THEN [stack |-> <<[lv |-> 5, n |-> Len(f.L[4])]>>, cur |-> <<1, 1, 1, 1, 1>>, toks |-> <<Open>>]
  ELSE [stack |-> <<[lv |-> top, n |-> f.L[top][1]]>>,
        cur |-> [k \in 1..5 |-> IF k = top THEN 2 ELSE 1], toks |-> <<Open>>]
Done(s) == s.stack = <<>>
TopOf(s) == s.stack[Len(s.stack)]
CanStep(f, s) ==                              \* what the step reads is there
  ~Done(s) /\ (TopOf(s).n = 0 \/ LET lv == TopOf(s).lv IN
    IF lv = 1 THEN s.cur[5] <= Len(f.leaves) ELSE s.cur[lv - 1] <= Len(f.L[lv - 1]))
Step(f, s) ==
  LET k == Len(s.stack) t == s.stack[k]
      less == [s.stack EXCEPT ![k].n = @ - 1] IN
  IF t.n = 0 THEN [s EXCEPT !.stack = SubSeq(s.stack, 1, k - 1), !.toks = Append(@, Close)]
  ELSE IF t.lv = 1
  THEN [s EXCEPT !.stack = less, !.cur[5] = @ + 1, !.toks = Append(@, f.leaves[s.cur[5]])]
  ELSE [s EXCEPT !.stack = Append(less, [lv |-> t.lv - 1, n |-> f.L[t.lv - 1][s.cur[t.lv - 1]]]),
                 !.cur[t.lv - 1] = @ + 1, !.toks = Append(@, Open)]
AllRead(f, s) == s.cur[5] = Len(f.leaves) + 1 /\ \A k \in 1..4 : s.cur[k] = Len(f.L[k]) + 1

(* ------------------------------------------------------------------------- *)
(* Assignments.  An empty array stands for a null: nothing is assigned to any *)
(* surface below it; it is read back as one null per surface.                 *)
RECURSIVE Expand(_, _, _)
Expand(v, b, d) ==
  IF d = 1 THEN (IF v = <<>> THEN [i \in 1..Len(b) |-> Null] ELSE v)
  ELSE [i \in 1..Len(b) |-> Expand(IF v = <<>> THEN <<>> ELSE v[i], b[i], d - 1)]
SemFlat(t, v) == Leaves(v, ValDepth(t))
MatFlat(t, v) ==
  LET d == ValDepth(t) IN
  [solids |-> Lens(v, d, 2), shells |-> IF d = 1 THEN <<>> ELSE Lens(v, d, 1), vertices |-> Leaves(v, d)]
TexFlat(t, v) == FlatD(v, Depth(t))
=============================================================================
