----------------------------- MODULE AttrsTrace -----------------------------
(* Attributes written by the real writer: the columns in the header, the      *)
(* bytes of each object, and what the real reader makes of them.              *)
EXTENDS Attrs, Json, TLC, IOUtils, SequencesExt, Functions
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Kinds_(n) == LET F[i \in 0..Len(Ev.seen)] == IF i = 0 THEN <<>>
                   ELSE F[i - 1] \o (IF Ev.seen[i][1] = n THEN <<Ev.seen[i][2]>> ELSE <<>>)
             IN F[Len(Ev.seen)]
Met == {Ev.seen[i][1] : i \in 1..Len(Ev.seen)}
(* columns derived from the values seen: one per name, each with its own number *)
Derived ==
  /\ {c.name : c \in Range(Ev.cols)} = Met /\ Len(Ev.cols) = Cardinality(Met)
  /\ Cardinality({c.ix : c \in Range(Ev.cols)}) = Len(Ev.cols)
  /\ \A c \in Range(Ev.cols) : c.type = JoinAll(Kinds_(c.name))
(* columns prescribed by the caller *)
Prescribed == Range(Ev.cols) = Range(Ev.want) /\ Len(Ev.cols) = Len(Ev.want)
Schema == Ev.ev = "schema" /\ (IF Ev.auto THEN Derived ELSE Prescribed)
(* an object's bytes: the values it has, each once, under the columns' numbers; *)
(* the text of a Json value (-1) is judged by what the reader returns            *)
AnyText == <<-1>>
Type(cols) == [c \in {cols[i][1] : i \in 1..Len(cols)} |-> cols[CHOOSE i \in 1..Len(cols) : cols[i][1] = c][2]]
Go(b, type, s) == IF CanDec(b, s, type) THEN Dec(b, s, type) ELSE [s EXCEPT !.at = Len(b) + 2]
Object ==
  /\ Ev.ev = "obj"
  /\ \E type \in {Type(Ev.cols)}, b \in {Ev.bytes}, want \in {Ev.want} :
     \E d \in {FoldLeft(LAMBDA s, w : Go(b, type, s), DecStart, want)} :
       /\ DecDone(b, d)
       /\ \A i \in 1..Len(want) : \E j \in 1..Len(want) :
            d.r[j][1] = want[i][1] /\ (want[i][2] = AnyText \/ d.r[j][2] = want[i][2])
(* documents as read back, against the documents given *)
Rest == Ev.ev = "rest" /\ Ev.in = Ev.out
Init == l = 1
Next == l <= Len(Trace) /\ (Schema \/ Object \/ Rest) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"consumed", d>>) /\ d = Len(Trace)
=============================================================================
