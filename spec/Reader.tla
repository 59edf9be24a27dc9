------------------------------- MODULE Reader -------------------------------
(* How the readers walk through a file, at the grain of I/O operations, in a   *)
(* file that may have been cut anywhere: refinement of the sessions of Fcb.    *)
(*                                                                             *)
(* Units stand for bytes: HDR units of magic bytes and header, then the index  *)
(* section (one unit per feature), then each feature as one unit of size       *)
(* prefix and Body[i] units of contents.                                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxBody, HDR

VARIABLES
  body,    \* contents sizes of the features
  cut,     \* number of units that exist
  phase, mode, sel, \* sel: the selected features (as positions), "whole" reads everything
  whole,
  at,      \* stream position
  left,    \* what is still to be delivered: number (whole) or positions
  part,    \* 0: before a size prefix, 1: prefix was read
  pos
rvars == <<body, cut, phase, mode, sel, whole, at, left, part, pos>>

N == Len(body)
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE Sum(s, k - 1) + s[k]
FeatStart(i) == HDR + N + Sum(body, i - 1) + (i - 1)
Total == HDR + N + Sum(body, N) + N

(* the abstract session *)
Feat(i) == [id |-> i, h |-> i, b |-> <<0, 0, 0, 0>>, a |-> [x |-> <<<<i>>>>]]
absds == [i \in 1..N |-> Feat(i)]
absenv == [canfail |-> cut < Total, dead |-> FALSE]
absexp == IF phase \in {"iter", "done"} \/ (phase = "failed" /\ at > 0)
          THEN (IF whole THEN [i \in 1..N |-> i] ELSE sel) ELSE <<>>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SeqOf(S \ {m})

Init ==
  /\ \E n \in 0..MaxN : body \in [1..n -> 1..MaxBody]
  /\ cut \in 0..Total
  /\ phase = "file" /\ mode \in {"seek", "seq", "http"} /\ whole \in BOOLEAN
  /\ \E S \in SUBSET (1..N) : sel = SeqOf(S)
  /\ whole => sel = <<>>
  /\ at = 0 /\ left = <<>> /\ part = 0 /\ pos = 0

Open ==
  /\ phase = "file"
  /\ IF cut >= HDR THEN phase' = "open" /\ at' = HDR ELSE phase' = "failed" /\ at' = 0
  /\ UNCHANGED <<body, cut, mode, sel, whole, left, part, pos>>

(* The whole file: the index is skipped, without reading it when the source can seek.  A     *)
(* forward-only source that ends early is noticed at the first feature only.                 *)
SelectWhole ==
  /\ phase = "open" /\ whole
  /\ phase' = "iter" /\ left' = [i \in 1..N |-> i]
  /\ at' = IF mode = "seq" /\ cut < HDR + N THEN cut ELSE HDR + N
  /\ UNCHANGED <<body, cut, mode, sel, whole, part, pos>>
(* A query reads the index, or (seeking, HTTP) the part of it that it needs.                 *)
SelectQuery ==
  /\ phase = "open" /\ ~whole
  /\ \/ /\ (cut >= HDR + N \/ mode # "seq")
        /\ phase' = "iter" /\ left' = sel /\ at' = HDR + N
     \/ /\ cut < HDR + N
        /\ phase' = "failed" /\ at' = 0 /\ left' = <<>>
  /\ UNCHANGED <<body, cut, mode, sel, whole, part, pos>>

(* size prefix of the next feature; skipping to it is part of the step *)
ReadPrefix ==
  /\ phase = "iter" /\ left # <<>> /\ part = 0
  /\ LET target == IF whole /\ mode = "seq" THEN at ELSE FeatStart(left[1]) IN
     IF target + 1 <= cut
     THEN at' = target + 1 /\ part' = 1 /\ UNCHANGED phase
     ELSE phase' = "failed" /\ UNCHANGED <<at, part>>
  /\ UNCHANGED <<body, cut, mode, sel, whole, left, pos>>
ReadBody ==
  /\ phase = "iter" /\ part = 1
  /\ LET b == body[left[1]] IN
     IF at + b <= cut
     THEN /\ at' = at + b /\ part' = 0 /\ left' = Tail(left) /\ pos' = pos + 1 /\ UNCHANGED phase
     ELSE phase' = "failed" /\ UNCHANGED <<at, part, left, pos>>
  /\ UNCHANGED <<body, cut, mode, sel, whole>>
Finish ==
  /\ phase \in {"iter", "done"} /\ left = <<>> /\ part = 0
  /\ phase' = "done"
  /\ UNCHANGED <<body, cut, mode, sel, whole, at, left, part, pos>>

Next == Open \/ SelectWhole \/ SelectQuery \/ ReadPrefix \/ ReadBody \/ Finish
Spec == Init /\ [][Next]_rvars /\ WF_rvars(Next)

Q == IF whole THEN [k |-> "all"] ELSE [k |-> "mine"]
A == INSTANCE Fcb WITH ds <- absds,
       opt <- [index |-> TRUE, cols |-> [x |-> "u8"], said |-> N],
       file <- [i \in 1..N |-> i], env <- absenv, exp <- absexp

(* every step is a step of the abstract session, or none *)
AbsStep ==
  \/ A!Open(mode, absenv) \/ A!OpenFails(mode, absenv)
  \/ /\ phase = "open" /\ phase' = "iter" /\ absexp' = (IF whole THEN [i \in 1..N |-> i] ELSE sel)
  \/ A!Refuse([k |-> "all"])
  \/ (pos < N /\ \E i \in 1..N : A!Next1(i, i))
  \/ A!End \/ A!Fail
Refines == [][AbsStep \/ UNCHANGED <<phase, pos, absexp>>]_rvars

(* what it comes to *)
DeliveredInOrder == pos = Len(absexp) - Len(left) \/ phase \notin {"iter", "done"}
NoSilentLoss == phase = "done" => pos = Len(absexp)
NoFailureWithoutCause == phase = "failed" => cut < Total
Terminates == <>(phase \in {"done", "failed"})
=============================================================================
