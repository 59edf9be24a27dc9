------------------------------- MODULE Merge --------------------------------
(* Putting the features of a sequence together into one CityJSON document:    *)
(* objects refer to vertices by position, so that what a document means is    *)
(* its objects with the points their boundaries stand for.                    *)
EXTENDS Integers, Sequences, FiniteSets
(* an object: id, rest (everything but boundaries), refs: for each geometry    *)
(* its rings of positions, from 0 (the nesting is part of rest), and lod: the  *)
(* level of detail of each geometry, ranked, 0 for none                        *)
Points(verts, shift, refs) ==
  [g \in 1..Len(refs) |-> [r \in 1..Len(refs[g]) |-> [i \in 1..Len(refs[g][r]) |->
      [k \in 1..3 |-> verts[refs[g][r][i] + 1][k] + shift[k]]]]]
Mean(doc) == {<<o.id, o.rest, Points(doc.verts, doc.shift, o.refs)>> : o \in {doc.objs[i] : i \in 1..Len(doc.objs)}}
(* a document of several features, each with vertices of its own *)
MeanAll(fs) == UNION {Mean(fs[i]) : i \in 1..Len(fs)}

(* what a shape shows: the rings of the most detailed geometries *)
Shown(o) == LET m == {o.lod[i] : i \in 1..Len(o.lod)} IN {i \in 1..Len(o.lod) : \A x \in m : x <= o.lod[i]}
Faces(doc) == UNION {LET o == doc.objs[j] P == Points(doc.verts, doc.shift, o.refs)
                     IN UNION {{<<o.id, i, r, P[i][r]>> : r \in {x \in 1..Len(P[i]) : P[i][x] # <<>>}} : i \in Shown(o)}
                     : j \in 1..Len(doc.objs)}
FacesAll(fs) == UNION {Faces(fs[i]) : i \in 1..Len(fs)}
(* how it is done: append a feature's vertices, its objects point past those  *)
(* before; then points that occur twice are kept once, and the least          *)
(* coordinates become the translation                                         *)
Moved(refs, to(_)) == [g \in 1..Len(refs) |-> [r \in 1..Len(refs[g]) |-> [i \in 1..Len(refs[g][r]) |-> to(refs[g][r][i])]]]
Add(doc, f) ==
  [doc EXCEPT !.verts = @ \o f.verts,
              !.objs = @ \o [i \in 1..Len(f.objs) |->
                               [f.objs[i] EXCEPT !.refs = Moved(@, LAMBDA x : x + Len(doc.verts))]]]
First(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
RECURSIVE Once(_, _)
Once(s, out) == IF s = <<>> THEN out
                ELSE Once(Tail(s), IF \E i \in 1..Len(out) : out[i] = Head(s) THEN out ELSE Append(out, Head(s)))
Dedup(doc) ==
  LET v == Once(doc.verts, <<>>) IN
  [doc EXCEPT !.verts = v, !.objs = [i \in 1..Len(doc.objs) |->
     [doc.objs[i] EXCEPT !.refs = Moved(@, LAMBDA x : First(v, doc.verts[x + 1]) - 1)]]]
Least(doc, k) == CHOOSE m \in {doc.verts[i][k] : i \in 1..Len(doc.verts)} : \A i \in 1..Len(doc.verts) : m <= doc.verts[i][k]
Rebase(doc) ==
  IF doc.verts = <<>> THEN doc
  ELSE [doc EXCEPT !.verts = [i \in 1..Len(doc.verts) |-> [k \in 1..3 |-> doc.verts[i][k] - Least(doc, k)]],
                   !.shift = [k \in 1..3 |-> doc.shift[k] + Least(doc, k)]]
=============================================================================
