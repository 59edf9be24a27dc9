----------------------------- MODULE STreeTrace -----------------------------
(* Are the trees the real code builds well formed, and its answers those of   *)
(* STree?  Event "tree": an index as dumped from its bytes, and the entries   *)
(* it was built from; "q": a search and the answer of every representation.   *)
EXTENDS STree, Json, TLC, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, trees     \* trees: name -> number of the event that introduced it
vars == <<l, trees>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Init == l = 1 /\ trees = <<>>

SetOf(s) == {s[i] : i \in 1..Len(s)}
(* every leaf refers to exactly the offsets stored under its key, each once *)
LeavesOk(e) ==
  /\ SetOf(e.leaf) = {e.entries[i][1] : i \in 1..Len(e.entries)}
  /\ Len(e.offs) = Len(e.leaf)
  /\ Sum([i \in 1..Len(e.offs) |-> Len(e.offs[i])]) = Len(e.entries)
  /\ UNION {{<<e.leaf[i], e.offs[i][j]>> : j \in 1..Len(e.offs[i])} : i \in 1..Len(e.leaf)} = SetOf(e.entries)
TTree ==
  /\ Is("tree")
  /\ WellFormed([n |-> Ev.n, B |-> Ev.B, inner |-> Ev.inner, leaf |-> Ev.leaf])
  /\ LeavesOk(Ev)
  /\ trees' = [x \in (IF Ev.first THEN {} ELSE DOMAIN trees) \cup {Ev.name} |-> IF x = Ev.name THEN l ELSE trees[x]]

(* an index too large to be unfolded here: judged by its answers only *)
THuge ==
  /\ Is("huge")
  /\ trees' = [x \in (IF Ev.first THEN {} ELSE DOMAIN trees) \cup {Ev.name} |-> IF x = Ev.name THEN l ELSE trees[x]]

Tr(n) == Trace[trees[n]]
E(n) == Tr(n).entries
(* the entries (positions) that satisfy a condition *)
Sel(c) == {j \in 1..Len(E(c.n)) : OpHolds(E(c.n)[j][1], c.op, c.v)}
Offs(n, S) == {E(n)[j][2] : j \in S}
RECURSIVE Inter(_, _, _)
Inter(W, cs, i) == IF i > Len(cs) THEN W ELSE Inter(W \cap Offs(cs[i].n, Sel(cs[i])), cs, i + 1)
Exactly(r, W, m) == SetOf(r) = W /\ Len(r) <= m /\ (Cardinality(W) = m => Len(r) = m)

LeafOf(n) == IF Tr(n).ev = "huge" THEN SetToSortSeq({E(n)[j][1] : j \in 1..Len(E(n))}, <) ELSE Tr(n).leaf
AsTree(n) == [n |-> Tr(n).n, B |-> Tr(n).B, leaf |-> LeafOf(n)]
Deviates(a) ==
  /\ a.via \in {"mem", "buf", "rawhttp"} /\ Ev.kind = "range"
  /\ LET h == IF Ev.hi = <<>> THEN Tr("a").top ELSE Ev.hi[1]
         S == {j \in 1..Len(E("a")) : InRange(E("a")[j][1], Ev.lo, Ev.hi) /\ E("a")[j][1] # h}
     IN /\ AtNodeStart(AsTree("a"), h)
        /\ Exactly(a.r, Offs("a", S), Cardinality(S))
        /\ PrintT(<<"note", "upper-bound-lost">>)
TQuery ==
  /\ Is("q") /\ UNCHANGED trees
  /\ TRUE = (\A i \in 1..Len(Ev.reqs) : Ev.reqs[i] < Ev.len)
  /\ LET bad == \/ Ev.kind = "range" /\ Ev.lo = <<>> /\ Ev.hi = <<>>
                \/ Ev.kind = "conds" /\ \E i \in 1..Len(Ev.conds) : Ev.conds[i].n \notin DOMAIN trees
     IN IF bad THEN \A i \in 1..Len(Ev.ans) : ~Ev.ans[i].ok
        ELSE LET S == CASE Ev.kind = "exact" -> {j \in 1..Len(E("a")) : E("a")[j][1] = Ev.lo[1]}
                        [] Ev.kind = "range" -> {j \in 1..Len(E("a")) : InRange(E("a")[j][1], Ev.lo, Ev.hi)}
                        [] Ev.kind = "conds" -> Sel(Ev.conds[1])
                 n1 == IF Ev.kind = "conds" THEN Ev.conds[1].n ELSE "a"
                 W1 == Offs(n1, S)
                 W == IF Ev.kind = "conds" THEN Inter(W1, Ev.conds, 2) ELSE W1
                 m == Cardinality({j \in S : E(n1)[j][2] \in W})
             IN \A i \in 1..Len(Ev.ans) :
                  LET a == Ev.ans[i] IN a.ok /\ (Exactly(a.r, W, m) \/ Deviates(a))
Next == TTree \/ THuge \/ TQuery
Spec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"consumed", d>>) /\ d = Len(Trace)
=============================================================================
