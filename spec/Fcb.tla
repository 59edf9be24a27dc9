-------------------------------- MODULE Fcb --------------------------------
(* Sessions on a FlatCityBuf file: a data set is written with some options,  *)
(* then any number of readers open the file, select, and step through the    *)
(* result, in an environment that may cut the file or fail requests.         *)
(*                                                                           *)
(* A feature is a record [id, h, b, a]: identifier, digest of its contents,  *)
(* 2D bounding box <<minx,miny,maxx,maxy>>, and for each attribute the keys  *)
(* found on its objects.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, Lex

VARIABLES
  ds,     \* the features as added, in the order they were added
  opt,    \* [index: spatial index written, cols: indexed attribute -> key type, said: announced in header]
  file,   \* the order of the features in the file: file[p] is an index into ds
  phase,  \* "none" | "file" | "open" | "iter" | "done" | "failed"
  mode,   \* "seek" | "seq" | "http"
  env,    \* [canfail]: whether the environment of this reader may fail or has cut the file
  exp,    \* the result of the current selection, indexes into ds
  pos     \* how many of them were delivered
vars == <<ds, opt, file, phase, mode, env, exp, pos>>

----------------------------------------------------------------------------
(* What a query means *)
BoxHit(b, q) == b[1] <= q[3] /\ q[1] <= b[3] /\ b[2] <= q[4] /\ q[2] <= b[4]
Sq(x) == x * x
(* four times the squared distance between a point and the centre of a box *)
Far(b, p) == Sq(b[1] + b[3] - 2 * p[1]) + Sq(b[2] + b[4] - 2 * p[2])

CondHolds(f, c) == c.n \in DOMAIN f.a /\ \E j \in 1..Len(f.a[c.n]) : Cmp(f.a[c.n][j], c.op, c.v)
Matches(f, q) ==
  CASE q.k = "all"   -> TRUE
    [] q.k = "bbox"  -> BoxHit(f.b, q.b)
    [] q.k = "point" -> BoxHit(f.b, <<q.p[1], q.p[2], q.p[1], q.p[2]>>)
    [] q.k = "attr"  -> \A j \in 1..Len(q.c) : CondHolds(f, q.c[j])

Spatial(q) == q.k \in {"bbox", "point", "near"}
BadCond(c) == ~(c.n \in DOMAIN opt.cols /\ opt.cols[c.n] = c.t)
Refused(q) ==
  \/ Spatial(q) /\ (~opt.index \/ ds = <<>>)    \* a file without features carries no spatial index
  \/ q.k = "attr" /\ \E j \in 1..Len(q.c) : BadCond(q.c[j])
(* a query with an unanswerable condition may also be answered with nothing, if the other    *)
(* conditions leave nothing over: no meaning of that condition could change the result       *)
Moot(q) ==
  /\ q.k = "attr" /\ \E j \in 1..Len(q.c) : ~BadCond(q.c[j])
  /\ LET good == SelectSeq(q.c, LAMBDA c : ~BadCond(c)) IN
     \A i \in 1..Len(ds) : \E j \in 1..Len(good) : ~CondHolds(ds[i], good[j])

Nearest(q) ==
  LET D == {Far(ds[i].b, q.p) : i \in 1..Len(ds)}
      m == CHOOSE x \in D : \A y \in D : x <= y
  IN {i \in 1..Len(ds) : Far(ds[i].b, q.p) = m}
(* the possible results: unique except for ties of a nearest query *)
Results(q) ==
  IF q.k = "near"
  THEN IF ds = <<>> THEN {<<>>} ELSE {<<i>> : i \in Nearest(q)}
  ELSE {SelectSeq(file, LAMBDA i : Matches(ds[i], q))}

IsOrder(s, n, index) ==
  /\ Len(s) = n
  /\ {s[i] : i \in 1..Len(s)} = 1..n
  /\ index \/ TRUE = (\A i \in 1..n : s[i] = i)

----------------------------------------------------------------------------
Init == /\ ds = <<>> /\ opt = [index |-> FALSE, cols |-> <<>>, said |-> 0] /\ file = <<>>
        /\ phase = "none" /\ mode = "seek" /\ env = [canfail |-> FALSE, dead |-> FALSE] /\ exp = <<>> /\ pos = 0

(* the file is written: every feature once, in some fixed order *)
Write(d, o, ord) ==
  /\ ds' = d /\ opt' = o /\ file' = ord
  /\ IsOrder(ord, Len(d), o.index)
  /\ o.said = Len(d)
  /\ phase' = "file" /\ pos' = 0 /\ exp' = <<>>
  /\ UNCHANGED <<mode, env>>

(* env.dead: magic bytes, version or header are damaged, so that opening has to fail *)
(* the output fails: the writer says so, and there is no file *)
WriteFails == /\ phase' = "none" /\ UNCHANGED <<ds, opt, file, mode, env, exp, pos>>

Open(m, e) ==
  /\ phase # "none" /\ ~e.dead
  /\ phase' = "open" /\ mode' = m /\ env' = e /\ exp' = <<>> /\ pos' = 0
  /\ UNCHANGED <<ds, opt, file>>
OpenFails(m, e) ==
  /\ phase # "none" /\ (e.canfail \/ e.dead)
  /\ phase' = "failed" /\ mode' = m /\ env' = e /\ exp' = <<>> /\ pos' = 0
  /\ UNCHANGED <<ds, opt, file>>

(* n: the number of results announced (-1: not announced) *)
Select(q, n) ==
  /\ phase = "open"
  /\ Refused(q) => Moot(q)
  /\ \E r \in (IF Refused(q) THEN {<<>>} ELSE Results(q)) :
       /\ exp' = r
       /\ n = Len(r) \/ (n = -1 /\ r = <<>>)
  /\ phase' = "iter"
  /\ UNCHANGED <<ds, opt, file, mode, env, pos>>
Refuse(q) ==
  /\ phase = "open" /\ (Refused(q) \/ env.canfail)
  /\ phase' = "failed"
  /\ UNCHANGED <<ds, opt, file, mode, env, exp, pos>>

Next1(id, h) ==
  /\ phase = "iter" /\ pos < Len(exp)
  /\ ds[exp[pos + 1]].id = id /\ ds[exp[pos + 1]].h = h
  /\ pos' = pos + 1
  /\ UNCHANGED <<ds, opt, file, phase, mode, env, exp>>
(* several steps, one after the other *)
NextMany(ids, hs) ==
  /\ phase = "iter" /\ pos + Len(ids) <= Len(exp)
  /\ TRUE = (\A i \in 1..Len(ids) : ds[exp[pos + i]].id = ids[i] /\ ds[exp[pos + i]].h = hs[i])
  /\ pos' = pos + Len(ids)
  /\ UNCHANGED <<ds, opt, file, phase, mode, env, exp>>
(* lower and upper bound of what remains (-1: no upper bound) *)
Hint(lo, hi) ==
  /\ phase \in {"iter", "done"}
  /\ lo <= Len(exp) - pos /\ (hi = -1 \/ hi >= Len(exp) - pos)
  /\ UNCHANGED vars
End ==
  /\ phase \in {"iter", "done"} /\ pos = Len(exp)
  /\ phase' = "done"
  /\ UNCHANGED <<ds, opt, file, mode, env, exp, pos>>
(* the environment starts to fail: from here on, errors are legitimate *)
EnvFault ==
  /\ phase \in {"open", "iter"} /\ env' = [env EXCEPT !.canfail = TRUE]
  /\ UNCHANGED <<ds, opt, file, phase, mode, exp, pos>>
Fail ==
  /\ phase = "iter" /\ env.canfail
  /\ phase' = "failed"
  /\ UNCHANGED <<ds, opt, file, mode, env, exp, pos>>

----------------------------------------------------------------------------
(* Safety, stated on the results and not on the way they are computed *)
Delivered == [i \in 1..pos |-> exp[i]]
NoRepeat == \A i, j \in 1..Len(exp) : exp[i] = exp[j] => i = j
FileOrder ==
  \A i, j \in 1..Len(exp) : i < j =>
     \E x, y \in 1..Len(file) : file[x] = exp[i] /\ file[y] = exp[j] /\ x < y
NoSilentLoss == phase = "done" => pos = Len(exp)
OnlyRealFailures == phase = "failed" => (env.canfail \/ exp = <<>>)
=============================================================================
