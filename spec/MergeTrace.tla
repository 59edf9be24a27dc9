----------------------------- MODULE MergeTrace -----------------------------
(* Sequences given to the real code, and the documents it made of them.       *)
(* A line of an OBJ file is judged by the points it stands for.               *)
EXTENDS Merge, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Merged == /\ Ev.ev = "merge"
          /\ TRUE = (Ev.ok = Ev.valid)
          /\ TRUE = (Ev.ok => Mean(Ev.doc) = MeanAll(Ev.feats))
Bag(q) == [x \in {q[i] : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
FaceBag(fs) == \E F \in {FacesAll(fs)} : Bag(Ev.faces) = [x \in {f[4] : f \in F} |-> Cardinality({f \in F : f[4] = x})]
Obj == /\ Ev.ev = "obj"
       /\ TRUE = (Ev.ok = Ev.valid)
       /\ TRUE = (Ev.ok => FaceBag(Ev.feats))
Init == l = 1
Next == l <= Len(Trace) /\ (Merged \/ Obj) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"consumed", d>>) /\ d = Len(Trace)
=============================================================================
