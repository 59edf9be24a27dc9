------------------------------ MODULE DocTrace ------------------------------
(* Headers written by the real writer: the slots found in the file (by an     *)
(* independent parser) and what the real reader makes of them.                *)
EXTENDS Doc, Json, TLC, IOUtils, Functions
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
(* <<name, value>> pairs as a function *)
Fun(s) == [p \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = p][2]]
Header ==
  /\ Ev.ev = "doc"
  /\ \E doc \in {Fun(Ev.src)}, slots \in {Fun(Ev.slots)}, out \in {Fun(Ev.out)} :
     /\ WellFormed(DOMAIN doc)
     /\ slots = Slots(doc, Ev.extent)
     /\ out = Says(slots) /\ out = Seen(doc, Ev.extent)
     /\ Len(Ev.out) = Cardinality(DOMAIN out)
(* columns: as prescribed, in the table and in the description; indexed or not *)
Columns ==
  /\ Ev.ev = "cols"
  /\ Range(Ev.cols) = Range(Ev.want) /\ Len(Ev.cols) = Len(Ev.want)
  /\ Range(Ev.sem) = Range(Ev.wantsem) /\ Len(Ev.sem) = Len(Ev.wantsem)
  /\ Len(Ev.meta) = Len(Ev.want)
  /\ \A c \in Range(Ev.meta) : <<c[1], c[2], c[3]>> \in Range(Ev.want) /\ (c[4] <=> c[2] \in Range(Ev.indexed))
  /\ Ev.count = Ev.n /\ Ev.metacount = Ev.n
(* extensions: names, addresses and versions as given; contents as served     *)
Extensions ==
  /\ Ev.ev = "ext"
  /\ Ev.ok = Writable(Range(Ev.exts))
  /\ Ev.ok => /\ {<<e.name, e.url, e.version>> : e \in Range(Ev.exts)} = Range(Ev.out) /\ Len(Ev.out) = Len(Ev.exts)
              /\ {<<e.name, e.url, e.version, e.content>> : e \in Range(Ev.exts)} = Range(Ev.stored)
              /\ Len(Ev.stored) = Len(Ev.exts)
(* the rest of the header: equal documents *)
Rest == Ev.ev = "rest" /\ Ev.in = Ev.out
Init == l = 1
Next == l <= Len(Trace) /\ (Header \/ Columns \/ Extensions \/ Rest) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"consumed", d>>) /\ d = Len(Trace)
=============================================================================
