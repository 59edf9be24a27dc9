---------------------------- MODULE LayoutTrace ----------------------------
(* Dumps of files written by the real writer, parsed by position. *)
EXTENDS Layout, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Init == l = 1
Next == l <= Len(Trace) /\ Ev.ev = "file" /\ Consistent(Ev) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"consumed", d>>) /\ d = Len(Trace)
=============================================================================
