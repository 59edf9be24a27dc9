----------------------------- MODULE KeysTrace ------------------------------
(* Keys as the real code stores, reads back and compares them. *)
EXTENDS Keys, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
(* a batch of keys of one type, with the order of every pair *)
Stored(t, r) ==
  /\ r.size = Size(t) /\ r.n = Size(t)
  /\ r.bytes = Enc(t, r.v)
  /\ r.same                      \* both ways of reading give an equal key, and leave nothing unread
  /\ r.bounded                   \* by the least and the greatest key of the type
  /\ r.short                     \* too little room, or too few bytes, is an error
Batch ==
  /\ Ev.ev = "keys"
  /\ \E t \in {Ev.t}, rows \in {Ev.rows}, cmp \in {Ev.cmp} :
     /\ TRUE = (\A i \in 1..Len(rows) : Stored(t, rows[i]))   \* one value, not a conjunct for each key
     /\ \E o \in {[i \in 1..Len(rows) |-> Ord(t, rows[i].v)]} :
        TRUE = (\A i, j \in 1..Len(cmp) : cmp[i][j] = IF o[i] = o[j] THEN 0 ELSE IF LexLt(o[i], o[j]) THEN -1 ELSE 1)
Init == l = 1
Next == l <= Len(Trace) /\ Batch /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"consumed", d>>) /\ d = Len(Trace)
=============================================================================
