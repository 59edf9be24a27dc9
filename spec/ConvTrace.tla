----------------------------- MODULE ConvTrace ------------------------------
(* Runs of the real conversion commands, and the bytes that came out.         *)
EXTENDS Json, TLC, IOUtils, Conv
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceDoc(d) == Trace[d].nodes
TraceOut(o) == Trace[o].bytes
VARIABLE l
Ev == Trace[l]
Step ==
  \/ Ev.ev = "run" /\ ~Ev.ok /\ MayFail(Ev) /\ UNCHANGED cvars
  \/ Ev.ev = "run" /\ Ev.ok /\ MaySucceed(Ev) /\ Begin([doc |-> l, out |-> l, fmt |-> Ev.fmt])
  \/ Ev.ev = "item" /\ Item
  \/ Ev.ev = "end" /\ Complete /\ UNCHANGED cvars
TInit == f = [doc |-> 1, out |-> 1, fmt |-> "cbor"] /\ p = 0 /\ stack = <<>> /\ l = 1
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
Spec == TInit /\ [][TNext]_<<f, p, stack, l>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"consumed", d>>) /\ d = Len(Trace)
=============================================================================
