----------------------------- MODULE RTreeTrace -----------------------------
(* Trees, searches and orderings of the real code against RTree. *)
EXTENDS RTree, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ti
vars == <<l, ti>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Init == l = 1 /\ ti = 0
SetOf(s) == {s[i] : i \in 1..Len(s)}

TTree ==
  /\ Is("tree") /\ ti' = l
  /\ LET N == Ev.nodes
         T == [i \in 1..Len(N) |-> [b |-> <<N[i][1], N[i][2], N[i][3], N[i][4]>>, p |-> N[i][5]]]
     IN WellFormed(T, Ev.n, Ev.B, Ev.boxes, Ev.offs)
  /\ Ev.size = NodeBytes * NodeCount(Ev.n, Ev.B) /\ Ev.len = Ev.size /\ Ev.isize = Ev.size
K == Trace[ti]
Sel(q) ==
  LET S == {i \in 1..K.n :
              CASE q.k = "bbox" -> Hits(K.boxes[i], q.b)
                [] q.k = "point" -> Hits(K.boxes[i], <<q.b[1], q.b[2], q.b[1], q.b[2]>>)}
  IN {S}
NearSel(q) ==
  LET D == [i \in 1..K.n |-> Far(K.boxes[i], q.b)]
      V == SetOf(D)
      m == CHOOSE v \in V : \A w \in V : v <= w
  IN {{i} : i \in {j \in 1..K.n : D[j] = m}}
(* an item ends where the next one begins; the last one is open *)
EndOf(i) == IF i = K.n THEN 0 ELSE K.offs[i + 1]
AnsOk(a, S) ==
  /\ a.ok /\ Len(a.r) = Cardinality(S) /\ SetOf(a.r) = {K.offs[i] : i \in S}
  /\ a.via = "http" => {<<a.r[j], a.e[j]>> : j \in 1..Len(a.r)} = {<<K.offs[i], EndOf(i)>> : i \in S}
TQuery ==
  /\ Is("q") /\ UNCHANGED ti
  /\ TRUE = (\A i \in 1..Len(Ev.reqs) : Ev.reqs[i] < Ev.len)
  /\ LET C == IF Ev.q.k = "near" THEN NearSel(Ev.q) ELSE Sel(Ev.q)
     IN \A j \in 1..Len(Ev.ans) : \E S \in C : AnsOk(Ev.ans[j], S)
(* sorting along the Hilbert curve permutes the items *)
TSort == /\ Is("sort") /\ UNCHANGED ti
         /\ Len(Ev.perm) = Ev.n /\ SetOf(Ev.perm) = 1..Ev.n
TSize == /\ Is("isize") /\ UNCHANGED ti /\ Ev.size = NodeBytes * NodeCount(Ev.n, Ev.B)
Next == TTree \/ TQuery \/ TSort \/ TSize
Spec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"consumed", d>>) /\ d = Len(Trace)
=============================================================================
