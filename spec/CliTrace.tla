------------------------------ MODULE CliTrace ------------------------------
(* Runs of the real tool: options, exit status, what came out.                *)
EXTENDS Cli, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
O == [box |-> Ev.box, attrs |-> Elems(Ev.attrs), all |-> Ev.all, spatial |-> Ev.spatial, ge |-> Ev.ge]
Step ==
  \/ Ev.ev = "setup" /\ Setup(Ev.world, Ev.paths)
  \/ Ev.ev = "ser" /\ Ev.ok /\ Ser(Ev.in, Ev.out, O)
  \/ Ev.ev = "ser" /\ ~Ev.ok /\ SerFails(Ev.in, Ev.out, O)
  \/ Ev.ev = "deser" /\ Ev.ok /\ Deser(Ev.in, Ev.out, Ev.text)
  \/ Ev.ev = "deser" /\ ~Ev.ok /\ DeserFails(Ev.in, Ev.out)
  \/ Ev.ev = "info" /\ Ev.ok /\ Info(Ev.in, Ev.count, Elems(Ev.ix))
  \/ Ev.ev = "info" /\ ~Ev.ok /\ InfoFails(Ev.in)
  \/ Ev.ev = "cut" /\ CutOff(Ev.in, Ev.out)
  \/ Ev.ev = "query" /\ Query(Ev.in, Ev.q, Ev.ok, Ev.res)
TInit == Init /\ l = 1
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
Spec == TInit /\ [][TNext]_<<world, fs, l>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"consumed", d>>) /\ d = Len(Trace)
=============================================================================
