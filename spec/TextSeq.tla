------------------------------ MODULE TextSeq -------------------------------
(* CityJSON text sequences: a header line, then a feature per line.  A text   *)
(* is a sequence of symbols: line feeds, carriage returns, blanks, documents  *)
(* (headers and features, by number), and contents that are no document.      *)
EXTENDS Integers, Sequences
LF == 0
CR == 1
Blank == 2
Junk == 3
IsHead(x) == x \in 10..99
IsFeat(x) == x >= 100
White(x) == x \in {CR, Blank}

(* lines of a text: what stands between line feeds; no line after the last    *)
RECURSIVE Split(_, _)
Split(t, cur) ==
  IF t = <<>> THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
  ELSE IF Head(t) = LF THEN <<cur>> \o Split(Tail(t), <<>>) ELSE Split(Tail(t), Append(cur, Head(t)))
Lines(t) == Split(t, <<>>)
(* the document of a line, 0 if there is none, or not just one *)
Doc(line) == LET d == SelectSeq(line, LAMBDA x : ~White(x)) IN IF Len(d) = 1 THEN d[1] ELSE 0

Failed == [ok |-> FALSE, docs |-> <<>>]
(* reading a sequence: all of it, or an error *)
Sequence(t) ==
  LET L == Lines(t) D == [i \in 1..Len(L) |-> Doc(L[i])] IN
  IF Len(L) > 0 /\ IsHead(D[1]) /\ \A i \in 2..Len(L) : IsFeat(D[i]) THEN [ok |-> TRUE, docs |-> D] ELSE Failed
(* reading a single document, over any number of lines *)
Single(t) ==
  LET d == SelectSeq(t, LAMBDA x : ~White(x) /\ x # LF) IN
  IF Len(d) = 1 /\ IsHead(d[1]) THEN [ok |-> TRUE, docs |-> d] ELSE Failed
Result(t, kind, fault) == IF fault THEN Failed ELSE IF kind = "seq" THEN Sequence(t) ELSE Single(t)

(* the reader: takes the text in pieces, ends a line at each line feed *)
Start == [at |-> 1, cur |-> <<>>, docs |-> <<>>, st |-> "run"]
EndLine(s) ==
  LET d == Doc(s.cur) IN
  IF (s.docs = <<>> /\ IsHead(d)) \/ (s.docs # <<>> /\ IsFeat(d))
  THEN [s EXCEPT !.docs = Append(@, d), !.cur = <<>>] ELSE [s EXCEPT !.st = "err"]
RECURSIVE Take(_, _)
Take(s, piece) ==
  IF piece = <<>> \/ s.st # "run" THEN s
  ELSE Take(IF Head(piece) = LF THEN EndLine(s) ELSE [s EXCEPT !.cur = Append(@, Head(piece))], Tail(piece))
Finish(s) ==
  LET e == IF s.cur = <<>> THEN s ELSE EndLine(s) IN
  IF e.st = "run" /\ e.docs # <<>> THEN [e EXCEPT !.st = "ok"] ELSE [e EXCEPT !.st = "err"]
=============================================================================
