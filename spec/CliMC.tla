------------------------------- MODULE CliMC --------------------------------
(* All short sequences of runs on a small world, with what the data are meant *)
(* to be kept apart: src, and the boxes that were applied on the way.         *)
EXTENDS Cli, TLC
CONSTANT MaxRuns
VARIABLES runs, past      \* past: path |-> the source and the boxes its contents went through
W == [f \in {"p", "q", "r"} |->
       CASE f = "p" -> [v |-> <<<<0, 0, 0>>>>, a |-> [n |-> <<<<"num", "1">>>>], b |-> <<0, 0, 0, 0>>]
         [] f = "q" -> [v |-> <<<<0, 1, 2>>, <<2, 1, 0>>>>, a |-> [n |-> <<<<"num", "1">>, <<"text", "x">>>>, m |-> <<<<"date", "d">>>>], b |-> <<0, 1, 2, 1>>]
         [] f = "r" -> [v |-> <<>>, a |-> [m |-> <<<<"text", "y">>>>], b |-> <<0, 0, 0, 0>>]]
Src == {<<>>, <<"p">>, <<"p", "q">>, <<"q", "p", "q", "r">>}
Paths == {"a", "b"}
Boxes == {<<>>, <<0, 0, 0, 1>>, <<2, 0, 3, 3>>, <<9, 9, 9, 9>>, <<1, 0, 0, 0>>}
Opts == [box : Boxes, attrs : {{}, {"n", "x"}}, all : BOOLEAN, spatial : BOOLEAN, ge : BOOLEAN]
Text(s) == [k |-> "text", h |-> "H", ext |-> <<"e">>, fs |-> s]
MCInit == \E s \in Src :
  /\ world = W /\ fs = [p \in {"a"} |-> Text(s)] /\ runs = 0
  /\ past = [p \in {"a"} |-> [s |-> s, bx |-> {}]]
Hist(p) == IF p \in DOMAIN past THEN past[p] ELSE [s |-> <<>>, bx |-> {}]
Note(p, x) == past' = [q \in DOMAIN past \cup {p} |-> IF q = p THEN x ELSE past[q]]
(* the orders a reader may find the features in *)
Orders(f) == IF f.ordered THEN {f.fs} ELSE {f.fs, [i \in 1..Len(f.fs) |-> f.fs[Len(f.fs) + 1 - i]]}
Run ==
  \E i \in Paths \cup {"missing"}, o \in Paths \cup {"full"} : i # o /\
    \/ \E x \in Opts : Ser(i, o, x) /\ Note(o, [s |-> Hist(i).s, bx |-> Hist(i).bx \cup {x.box}])
    \/ \E x \in Opts : SerFails(i, o, x) /\ UNCHANGED past
    \/ At(i).k = "fcb" /\ \E s \in Orders(At(i)) :
         Deser(i, o, [k |-> "text", h |-> At(i).h, ext |-> At(i).ext, fs |-> s]) /\ Note(o, Hist(i))
    \/ DeserFails(i, o) /\ UNCHANGED past
MCNext == runs < MaxRuns /\ runs' = runs + 1 /\ Run
MCSpec == MCInit /\ [][MCNext]_<<world, fs, runs, past>>
----------------------------------------------------------------------------
(* whatever was run, every dataset is the source, filtered by all the boxes *)
Preserved ==
  \A p \in DOMAIN fs : fs[p].k \in {"text", "fcb"} =>
    /\ fs[p].h = "H"
    /\ SameBag(fs[p].fs, SelectSeq(past[p].s, LAMBDA f : \A b \in past[p].bx : Kept(f, b)))
(* an extent is the source's, or covers every vertex of what is there *)
Covers ==
  \A p \in DOMAIN fs : fs[p].k \in {"text", "fcb"} /\ Len(fs[p].ext) = 6 =>
    \A f \in Elems(fs[p].fs) : \A v \in Elems(world[f].v) : \A d \in 1..3 : fs[p].ext[d] <= v[d] /\ v[d] <= fs[p].ext[d + 3]
=============================================================================
