------------------------------ MODULE FcbTrace ------------------------------
(* Is a recorded session a behaviour of Fcb?  One event per call of the real  *)
(* library: its arguments and what it returned.                               *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, fi, file, phase, mode, env, exp, pos
tvars == <<l, fi, file, phase, mode, env, exp, pos>>

DS  == IF fi = 0 THEN <<>> ELSE Trace[fi].feats
OPT == IF fi = 0 THEN [index |-> FALSE, cols |-> <<>>, said |-> 0]
       ELSE [index |-> Trace[fi].index, cols |-> Trace[fi].cols, said |-> Trace[fi].said]
F == INSTANCE Fcb WITH ds <- DS, opt <- OPT

TraceInit == /\ l = 1 /\ fi = 0 /\ file = <<>> /\ phase = "none" /\ mode = "seek"
             /\ env = [canfail |-> FALSE, dead |-> FALSE] /\ exp = <<>> /\ pos = 0
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1

TFile ==
  /\ IsEvent("file") /\ fi' = l
  /\ file' = Ev.order
  /\ F!Write(Ev.feats, [index |-> Ev.index, cols |-> Ev.cols, said |-> Ev.said], Ev.order)
(* the output failed (fault) or refused to take everything: an error must be reported *)
TWriteFails == IsEvent("writefails") /\ Ev.fault /\ Ev.reported /\ fi' = fi /\ F!WriteFails
TOpen ==
  /\ IsEvent("open") /\ fi' = fi
  /\ IF Ev.ok THEN F!Open(Ev.mode, [canfail |-> Ev.canfail, dead |-> Ev.dead])
              ELSE F!OpenFails(Ev.mode, [canfail |-> Ev.canfail, dead |-> Ev.dead])
TSelect ==
  /\ IsEvent("select") /\ fi' = fi
  /\ IF Ev.ok THEN F!Select(Ev.q, Ev.n) ELSE F!Refuse(Ev.q)
TNext  == IsEvent("f") /\ fi' = fi /\ F!Next1(Ev.id, Ev.h)
TMany  == IsEvent("many") /\ fi' = fi /\ F!NextMany(Ev.ids, Ev.hs)
THint  == IsEvent("hint") /\ fi' = fi /\ F!Hint(Ev.lo, Ev.hi)
TEnd   == IsEvent("end") /\ fi' = fi /\ F!End
TFault == IsEvent("fault") /\ fi' = fi /\ F!EnvFault
(* stepping past the end touches the source no more *)
TIdle  == IsEvent("idle") /\ phase = "done" /\ Ev.reads = 0 /\ UNCHANGED <<fi, file, phase, mode, env, exp, pos>>
TErr   == IsEvent("err") /\ fi' = fi /\ F!Fail
(* the range requests of an HTTP reader, recorded when it was dropped: all    *)
(* start inside the file                                                      *)
TReqs ==
  /\ IsEvent("reqs") /\ TRUE = (\A i \in 1..Len(Ev.r) : Ev.r[i][1] < Ev.len /\ Ev.r[i][1] <= Ev.r[i][2])
  /\ UNCHANGED <<fi, file, phase, mode, env, exp, pos>>
(* the consumer drops the iterator, or the session is over *)
TStop ==
  /\ IsEvent("stop") /\ (Ev.early \/ phase \in {"done", "failed"})
  /\ UNCHANGED <<fi, file, phase, mode, env, exp, pos>>

TraceNext == TFile \/ TWriteFails \/ TOpen \/ TSelect \/ TNext \/ TMany \/ THint \/ TEnd \/ TFault \/ TIdle \/ TErr \/ TReqs \/ TStop
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"consumed", d>>) /\ d = Len(Trace)
=============================================================================
