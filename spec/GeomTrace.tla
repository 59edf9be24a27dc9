----------------------------- MODULE GeomTrace -----------------------------
(* Geometries given to the real writer, what the file stores, what the real   *)
(* reader returns (nested arrays of the reader as tokens: they may be nested  *)
(* in any way).                                                               *)
EXTENDS GeomCodec, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
B == Ev.b
T == Ev.t
(* what the file stores may be unknown (templates live in the header) *)
Boundaries ==
  /\ Proper(T, B)
  /\ Ev.out = Tok(B, Depth(T))
  /\ Ev.stored => LET f == Flat(T, B) IN Ev.flat.L = f.L /\ Ev.flat.leaves = f.leaves
Semantics ==
  /\ Len(Ev.sem) = Len(Ev.osem)
  /\ Ev.sem # <<>> =>
       LET v == Expand(Ev.sem[1], B, ValDepth(T)) IN
       /\ Ev.osem[1] = Tok(v, ValDepth(T))
       /\ Ev.stored => Ev.flat.sem = SemFlat(T, v)
(* per theme, in the order of the themes' names *)
Materials ==
  /\ Len(Ev.mat) = Len(Ev.omat)
  /\ \A i \in 1..Len(Ev.mat) :
       LET m == Ev.mat[i] o == Ev.omat[i] IN
       /\ o.theme = m.theme /\ o.value = m.value
       /\ o.toks = IF m.value >= 0 THEN <<>> ELSE Tok(m.v, ValDepth(T))
  /\ Ev.stored =>
       /\ Len(Ev.flat.mat) = Len(Ev.mat)
       /\ \A i \in 1..Len(Ev.mat) :
            LET m == Ev.mat[i] f == Ev.flat.mat[i] IN
            /\ f.theme = m.theme /\ f.value = m.value
            /\ m.value < 0 => LET w == MatFlat(T, m.v)
                              IN f.solids = w.solids /\ f.shells = w.shells /\ f.vertices = w.vertices
Textures ==
  /\ Len(Ev.tex) = Len(Ev.otex)
  /\ \A i \in 1..Len(Ev.tex) : Ev.otex[i].theme = Ev.tex[i].theme /\ Ev.otex[i].toks = Tok(Ev.tex[i].v, Depth(T))
  /\ Ev.stored =>
       /\ Len(Ev.flat.tex) = Len(Ev.tex)
       /\ \A i \in 1..Len(Ev.tex) :
            LET w == TexFlat(T, Ev.tex[i].v) f == Ev.flat.tex[i]
            IN f.theme = Ev.tex[i].theme /\ f.L = w.L /\ f.leaves = w.leaves
(* everything else of a geometry, of an object, of a feature or of the header: equal documents *)
Geometry == Ev.ev = "g" /\ Boundaries /\ Semantics /\ Materials /\ Textures
Rest == Ev.ev = "rest" /\ Ev.in = Ev.out
Init == l = 1
Next == l <= Len(Trace) /\ (Geometry \/ Rest) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN PrintT(<<"consumed", d>>) /\ d = Len(Trace)
=============================================================================
