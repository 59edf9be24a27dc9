---------------------------- MODULE TextSeqTrace ----------------------------
(* Texts given to the real reader, and what it made of them. *)
EXTENDS TextSeq, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Read == /\ Ev.ev = "read"
        /\ \E r \in {Result(Ev.text, Ev.kind, Ev.fault)} : Ev.ok = r.ok /\ (r.ok => Ev.docs = r.docs)
Init == l = 1
Next == l <= Len(Trace) /\ Read /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"consumed", d>>) /\ d = Len(Trace)
=============================================================================
