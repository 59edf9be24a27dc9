------------------------------ MODULE CostTrace ------------------------------
(* Requests recorded from the real code against Cost.                         *)
EXTENDS Cost, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ti
vars == <<l, ti>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Init == l = 1 /\ ti = 0
K == Trace[ti]
TreeOf(N) == [i \in 1..Len(N) |-> [b |-> <<N[i][1], N[i][2], N[i][3], N[i][4]>>]]

(* 1. searches of an index alone; K.nodes: the nodes of the index as stored *)
TTree == Is("tree") /\ ti' = l
TSearch ==
  /\ Is("s") /\ UNCHANGED ti
  /\ \E T \in {TreeOf(K.nodes)} :
     \E m \in (IF Ev.q.k = "near" THEN {Far(K.boxes[i], Ev.q.b) : i \in 1..K.n} ELSE {0}) :
       /\ Ev.q.k = "near" => TRUE = (\A i \in 1..K.n : m <= Far(K.boxes[i], Ev.q.b))
       /\ \E q \in {[k |-> Ev.q.k, m |-> m, b |-> IF Ev.q.k = "point" THEN <<Ev.q.b[1], Ev.q.b[2], Ev.q.b[1], Ev.q.b[2]>> ELSE Ev.q.b]} :
          \E runs \in {Called(T, K.n, K.B, q)} :
            SearchFrugal(runs, Len(T), Ev.thr, q, Ev.reqs)

(* 2. readers of a file: K.head bytes of header, the index from K.rt[1], the   *)
(* attribute indexes K.attrs = <<column, first, behind the last>>, the features *)
Ahead == 65536           \* what may be read ahead when a file is opened
More == 1048576          \* what may follow the wanted bytes
Join == 262144           \* gaps that are not worth a request
TFile == Is("file") /\ ti' = l
SpatialReqs == SelectSeq(Ev.reqs, LAMBDA r : r[1] >= K.head + Ahead /\ r[1] < K.rt[2])
Relative(rs) == [i \in 1..Len(rs) |-> <<rs[i][1] - K.rt[1], rs[i][2] - K.rt[1]>>]
Head0 == <<<<0, K.head - 1, Ahead>>>>
Root == IF Ev.q.k \in {"bbox", "point", "near"} THEN <<<<K.rt[1], K.rt[2] - 1, 0>>>> ELSE <<>>
Cols == IF Ev.q.k = "attr"
        THEN LET mine == SelectSeq(K.attrs, LAMBDA a : \E i \in 1..Len(Ev.q.c) : Ev.q.c[i].n = a[1])
             IN [i \in 1..Len(mine) |-> <<mine[i][2], mine[i][3] - 1, More>>]
        ELSE <<>>
Feat == [i \in 1..Len(Ev.got) |-> <<K.feats[Ev.got[i]][1], K.feats[Ev.got[i]][2] - 1, More>>]
(* the head may be read ahead over everything that begins in there *)
Joined(p) == LET a == Head0[1][2] + Ahead
             IN [i \in 1..Len(p) |-> <<p[i][1], p[i][2], Max2(p[i][3], a - p[i][2])>>]
Parts == Joined(Head0 \o Root \o Cols \o Feat)
FeatReqs == SelectSeq(Ev.reqs, LAMBDA r : r[1] >= K.fs)
Few == CASE Ev.q.k = "attr" -> Len(FeatReqs) <= 2 * Len(Ev.got) + 2
         [] OTHER -> Len(FeatReqs) <= 2 * Groups(K.feats, Ev.got, Join) + 4 + Bytes(FeatReqs) \div Join
Looked ==
  \/ K.nodes = <<>> \/ Ev.q.k \notin {"bbox", "point"}
  \/ \E T \in {TreeOf(K.nodes)} :
     \E q \in {[k |-> "bbox", b |-> IF Ev.q.k = "point" THEN <<Ev.q.p[1], Ev.q.p[2], Ev.q.p[1], Ev.q.p[2]>> ELSE Ev.q.b]} :
     \E runs \in {Called(T, K.n, K.B, q)} :
       SearchFrugal(runs, Len(T), Join, q, Relative(SpatialReqs))
TRead ==
  /\ Is("read") /\ UNCHANGED ti
  /\ TRUE = OnlyCalledFor(Parts, K.end, Ev.reqs)
  /\ TRUE = Few
  /\ TRUE = Looked
(* 3. readers of a source that is no server: Ev.reqs are the runs of bytes read *)
Less(p) == [i \in 1..Len(p) |-> <<p[i][1], p[i][2], Min2(p[i][3], Ahead)>>]
InIndex == LET part(r) == <<Max2(r[1], K.head + Ahead), Min2(r[2], K.rt[2] - 1)>>
           IN SelectSeq([i \in 1..Len(Ev.reqs) |-> part(Ev.reqs[i])], LAMBDA r : r[1] <= r[2])
TTouch ==
  /\ Is("touch") /\ UNCHANGED ti
  /\ TRUE = OnlyCalledFor(
       IF Ev.seek THEN Joined(Head0 \o Less(Root \o Cols \o <<<<K.fs, K.fs - 1, Ahead>>>> \o Feat))
       ELSE IF Ev.got = <<>> THEN <<<<0, K.fs - 1, Ahead>>>> ELSE Passed(K.feats, Ev.got, Ahead),
       K.end, Ev.reqs)
  (* of an index that is searched, what is called for: runs further apart than can be read ahead *)
  /\ TRUE = \/ ~Ev.seek \/ K.nodes = <<>> \/ Ev.q.k \notin {"bbox", "point"}
            \/ \E T \in {TreeOf(K.nodes)} :
               \E q \in {[k |-> "bbox", b |-> IF Ev.q.k = "point" THEN <<Ev.q.p[1], Ev.q.p[2], Ev.q.p[1], Ev.q.p[2]>> ELSE Ev.q.b]} :
               \E runs \in {Called(T, K.n, K.B, q)} :
                 \E gaps \in {Between(runs, Len(T), Ahead)} : \E reqs \in {Relative(InIndex)} :
                   \A i \in 1..Len(reqs) : \A j \in 1..Len(gaps) : ~Touches(reqs[i], gaps[j][1] + Ahead, gaps[j][2])
Next == TTouch \/ TTree \/ TSearch \/ TFile \/ TRead
Spec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"consumed", d>>) /\ d = Len(Trace)
=============================================================================
