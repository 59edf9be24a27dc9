------------------------------ MODULE MergeMC -------------------------------
(* Every sequence of up to MaxFeats small features, merged step by step.      *)
EXTENDS Merge, TLC
CONSTANTS MaxFeats, Coords, MaxVerts
VARIABLES fs, doc, n, st
vars == <<fs, doc, n, st>>
Verts == UNION {[1..k -> {<<x, 0, y>> : x, y \in Coords}] : k \in 1..MaxVerts}
Feature(i, v, r) == [verts |-> v, shift |-> <<0, 0, 0>>, objs |-> <<[id |-> i, rest |-> "r", lod |-> <<1, 2>>, refs |-> <<<<r>>, <<r, <<>>>>>>]>>]
Feats(i) == {Feature(i, v, r) : v \in Verts, r \in {<<0>>, <<1, 0>>}}
Ok(f) == \A j \in 1..Len(f.objs[1].refs[1][1]) : f.objs[1].refs[1][1][j] < Len(f.verts)
Init == /\ fs = <<>> /\ n = 0 /\ st = "add"
        /\ doc = [verts |-> <<>>, shift |-> <<0, 0, 0>>, objs |-> <<>>]
Take == /\ st = "add" /\ Len(fs) < MaxFeats
        /\ \E f \in {x \in Feats(Len(fs)) : Ok(x)} : fs' = Append(fs, f) /\ doc' = Add(doc, f)
        /\ UNCHANGED <<n, st>>
Once1 == st = "add" /\ doc' = Dedup(doc) /\ st' = "dedup" /\ UNCHANGED <<fs, n>>
Base == st = "dedup" /\ doc' = Rebase(doc) /\ st' = "done" /\ UNCHANGED <<fs, n>>
Next == Take \/ Once1 \/ Base
Spec == Init /\ [][Next]_vars
(* at every step the document means what the features taken so far mean *)
Same == Mean(doc) = MeanAll(fs) /\ Faces(doc) = FacesAll(fs)
Apart == st # "add" => \A i, j \in 1..Len(doc.verts) : doc.verts[i] = doc.verts[j] => i = j
=============================================================================
