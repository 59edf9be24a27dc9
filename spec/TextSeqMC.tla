----------------------------- MODULE TextSeqMC ------------------------------
(* Every text up to a length, cut into pieces in every way, with a failure at *)
(* any place or none.                                                         *)
EXTENDS TextSeq, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS MaxText, OutText
VARIABLES text, fail, s
vars == <<text, fail, s>>
Symbols == {LF, CR, Junk, 10, 100, 101}
Texts(n) == UNION {[1..k -> Symbols] : k \in 0..n}
ASSUME IF "OUT" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.OUT, SetToSeq({[t |-> x] : x \in Texts(OutText)})) ELSE TRUE
Init == text \in Texts(MaxText) /\ fail \in 0..(Len(text) + 1) /\ s = Start
(* the input fails at symbol `fail`; 0 means never *)
Piece == /\ s.st = "run" /\ s.at <= Len(text)
         /\ \E n \in 1..(Len(text) + 1 - s.at) :
              /\ fail = 0 \/ s.at + n <= fail
              /\ s' = [Take(s, SubSeq(text, s.at, s.at + n - 1)) EXCEPT !.at = s.at + n]
         /\ UNCHANGED <<text, fail>>
Fail == s.st = "run" /\ s.at = fail /\ s' = [s EXCEPT !.st = "err"] /\ UNCHANGED <<text, fail>>
End == s.st = "run" /\ s.at = Len(text) + 1 /\ fail # s.at /\ s' = Finish(s) /\ UNCHANGED <<text, fail>>
Next == Piece \/ Fail \/ End
Spec == Init /\ [][Next]_vars
GenSpec == text = <<>> /\ fail = 0 /\ s = Start /\ [][FALSE]_vars
(* whatever the pieces: all lines in order, or an error *)
AsSaid == s.st # "run" =>
            LET r == Result(text, "seq", fail # 0) IN (s.st = "ok") = r.ok /\ (r.ok => s.docs = r.docs)
Ends == s.st = "run" => ENABLED Next
=============================================================================
