------------------------------- MODULE GeomMC -------------------------------
(* For every shape up to the bounds: the decoder never reads outside a list,  *)
(* ends, has read everything, and has written the arrays that were stored.    *)
EXTENDS GeomCodec, TLC, Json, IOUtils, SequencesExt
CONSTANTS Deep
VARIABLES t, b, f, s
vars == <<t, b, f, s>>
(* sizes allowed per level, for boundaries of depth d *)
Sizes(d) == CASE d = 1 -> <<0..3>>
              [] d = 2 -> <<0..3, 0..3>>
              [] d = 3 -> IF Deep THEN <<1..3, 0..2, 0..2>> ELSE <<0..2, 0..2, 0..2>>
              [] d = 4 -> <<1..2, 0..2, 0..2, 0..2>>
              [] d = 5 -> IF Deep THEN <<{1}, 0..2, 1..2, 0..2, 0..2>> ELSE <<{2}, 1..2, 0..2, 1..2, 0..2>>
RECURSIVE Shapes(_, _)
Shapes(S, k) == IF k = 1 THEN {[i \in 1..n |-> 0] : n \in S[1]}
                ELSE LET sub == Shapes(S, k - 1) IN UNION {[1..n -> sub] : n \in S[k]}
RECURSIVE Ren(_, _, _), RenSeq(_, _, _)
Ren(x, d, k) == IF d = 1 THEN [i \in 1..Len(x) |-> k + i] ELSE RenSeq(x, d, k)
RenSeq(x, d, k) == IF x = <<>> THEN <<>>
                   ELSE <<Ren(Head(x), d - 1, k)>> \o RenSeq(Tail(x), d, k + Len(Leaves(Head(x), d - 1)))
TypeOf(d) == <<"MultiPoint", "MultiLineString", "MultiSurface", "Solid", "MultiSolid">>[d]
All(d) == {x \in {Ren(y, d, 0) : y \in Shapes(Sizes(d), d)} : Proper(TypeOf(d), x)}
ASSUME IF "OUT" \in DOMAIN IOEnv
       THEN ndJsonSerialize(IOEnv.OUT, Cat([d \in 1..5 |-> SetToSeq({[t |-> TypeOf(d), b |-> x] : x \in All(d)})]))
       ELSE TRUE
Init == \E d \in 1..5 : /\ t = TypeOf(d) /\ b \in All(d)
                        /\ f = Flat(t, b) /\ s = Start(f, IsMulti(t))
Next == ~Done(s) /\ CanStep(f, s) /\ s' = Step(f, s) /\ UNCHANGED <<t, b, f>>
Spec == Init /\ [][Next]_vars
GenSpec == t = "" /\ b = <<>> /\ f = <<>> /\ s = <<>> /\ [][FALSE]_vars
NeverStuck == Done(s) \/ CanStep(f, s)
RoundTrip == Done(s) => s.toks = Tok(b, Depth(t)) /\ AllRead(f, s)
(* assignments have one entry per surface (point, line), whatever nulls abbreviate *)
NullsExpand ==
  s.toks = <<Open>> =>
    LET e == Expand(<<>>, b, ValDepth(t)) IN
    /\ Len(SemFlat(t, e)) = (IF Depth(t) <= 3 THEN Len(b) ELSE Len(Lens(b, Depth(t), 2)))
    /\ \A i \in 1..Len(SemFlat(t, e)) : SemFlat(t, e)[i] = Null
=============================================================================
