-------------------------------- MODULE Cli ---------------------------------
(* The command line tool: runs of ser, deser and info on a set of paths.      *)
(*                                                                            *)
(* world: digest of a feature |-> [v: its vertices <<x, y, z>> on a grid,     *)
(*        a: attribute |-> the values on its objects, each <<kind, digest>>,  *)
(*        b: its 2D bounding box]                                             *)
(* A path holds one of                                                        *)
(*   [k |-> "none"]                      nothing                              *)
(*   [k |-> "junk"]                      what is no dataset                   *)
(*   [k |-> "any"]                       unknown: left by a failed run        *)
(*   [k |-> "cut"]                       a file with its end missing          *)
(*   [k |-> "text", h, ext, fs]          a text sequence: digest of the header*)
(*                                       without its extent, the extent       *)
(*                                       (<<>>: none; or a digest, or six     *)
(*                                       numbers), digests of the features    *)
(*   [k |-> "fcb", h, ext, fs, ordered, spatial, cols, ix]   a file           *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES world, fs
None == [k |-> "none"]
Junk == [k |-> "junk"]
Any_ == [k |-> "any"]

----------------------------------------------------------------------------
Elems(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Elems(s) : Count(s, x) = Count(t, x)

InBox(v, b) == b[1] <= v[1] /\ v[1] <= b[3] /\ b[2] <= v[2] /\ v[2] <= b[4]
(* a feature is kept if one of its vertices is in the box *)
Kept(f, box) == box = <<>> \/ \E i \in 1..Len(world[f].v) : InBox(world[f].v[i], box)
BoxOk(box) == box = <<>> \/ (Len(box) = 4 /\ box[1] <= box[3] /\ box[2] <= box[4])

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
ExtentOf(fs_) ==
  LET P == UNION {Elems(world[f].v) : f \in Elems(fs_)}
      C(i) == {p[i] : p \in P}
  IN IF P = {} THEN <<0, 0, 0, 0, 0, 0>>
     ELSE <<Min(C(1)), Min(C(2)), Min(C(3)), Max(C(1)), Max(C(2)), Max(C(3))>>

(* attributes of a list of features, and those an index can be made of *)
Values(fs_, n) == UNION {IF n \in DOMAIN world[f].a THEN Elems(world[f].a[n]) ELSE {} : f \in Elems(fs_)}
Columns(fs_) == UNION {{n \in DOMAIN world[f].a : Len(world[f].a[n]) > 0} : f \in Elems(fs_)}
Indexable(fs_, n) == \E k \in {"num", "text", "date", "bool"} : \A v \in Values(fs_, n) : v[1] \in ({k} \cup IF k = "text" THEN {"date"} ELSE {})

----------------------------------------------------------------------------
(* o: [box, attrs, all, spatial, ge] *)
SerOf(t, o) ==
  LET kept == SelectSeq(t.fs, LAMBDA f : Kept(f, o.box))
      cols == Columns(kept)
      asked == IF o.all THEN cols ELSE {n \in o.attrs : n \in cols}
  IN [k |-> "fcb", h |-> t.h, ext |-> IF o.ge THEN ExtentOf(kept) ELSE t.ext, fs |-> kept,
      ordered |-> ~o.spatial, spatial |-> o.spatial /\ kept # <<>>, cols |-> cols,
      ix |-> {n \in asked : Indexable(kept, n)}]

Init == world = <<>> /\ fs = <<>>
At(p) == IF p \in DOMAIN fs THEN fs[p] ELSE None
Put(p, x) == fs' = [q \in DOMAIN fs \cup {p} |-> IF q = p THEN x ELSE fs[q]]
Setup(w, f) == world' = w /\ fs' = f

(* out: a path that can be written to, or "full", or "nowhere" *)
Writable(out) == out \notin {"full", "nowhere"}
Spoiled(out) == IF Writable(out) THEN Put(out, Any_) ELSE UNCHANGED fs

Ser(in, out, o) ==
  /\ At(in).k = "text" /\ BoxOk(o.box) /\ Writable(out)
  /\ Put(out, SerOf(At(in), o)) /\ UNCHANGED world
SerFails(in, out, o) ==
  /\ At(in).k # "text" \/ ~BoxOk(o.box) \/ ~Writable(out)
  /\ Spoiled(out) /\ UNCHANGED world
(* the text that comes out: the header, and the features in the order of the file *)
Deser(in, out, text) ==
  /\ At(in).k = "fcb" /\ Writable(out)
  /\ text.h = At(in).h /\ text.ext = At(in).ext
  /\ IF At(in).ordered THEN text.fs = At(in).fs ELSE SameBag(text.fs, At(in).fs)
  /\ Put(out, text) /\ UNCHANGED world
DeserFails(in, out) ==
  /\ At(in).k # "fcb" \/ ~Writable(out)
  /\ Spoiled(out) /\ UNCHANGED world
Info(in, count, ix) ==
  /\ At(in).k # "cut" => At(in).k = "fcb" /\ count = Len(At(in).fs) /\ ix = At(in).ix
  /\ UNCHANGED <<world, fs>>
InfoFails(in) == At(in).k # "fcb" /\ UNCHANGED <<world, fs>>
(* the end of a file is lost (never noticed by info, which reads the header only) *)
CutOff(p, out) == At(p).k = "fcb" /\ Put(out, [k |-> "cut"]) /\ UNCHANGED world

(* readers of the files that ser makes *)
BoxHit(b, q) == b[1] <= q[3] /\ q[1] <= b[3] /\ b[2] <= q[4] /\ q[2] <= b[4]
Query(in, q, ok, res) ==
  /\ At(in).k = "fcb"
  /\ LET f == At(in) IN
     CASE q.k = "bbox" -> IF f.spatial THEN ok /\ SameBag(res, SelectSeq(f.fs, LAMBDA x : BoxHit(world[x].b, q.b))) ELSE ~ok
       [] q.k = "eq" -> IF q.n \in f.ix
                        THEN ok /\ SameBag(res, SelectSeq(f.fs, LAMBDA x : q.n \in DOMAIN world[x].a /\ q.v \in {y[2] : y \in Elems(world[x].a[q.n])}))
                        ELSE ~ok
  /\ UNCHANGED <<world, fs>>
=============================================================================
