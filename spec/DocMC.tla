------------------------------- MODULE DocMC --------------------------------
(* Every combination of present and absent properties; reference systems with *)
(* zeros; an extent given to the writer, by the source, by both or by none.   *)
(* The writer sets one slot at a time, in any order of the groups.            *)
EXTENDS Doc, TLC
VARIABLES doc, ext, out, todo
vars == <<doc, ext, out, todo>>
Domains == {D \in {Always \cup A \cup B \cup C \cup E \cup F : A \in SUBSET (Simple \cup {"extent"}), B \in {{}, Crs},
                   C \in {{}, ContactMust}, E \in SUBSET ContactMay, F \in {{}, Address}} : WellFormed(D)}
Docs(D) == IF Crs \subseteq D THEN {[p \in D |-> IF p = "crs.version" THEN v ELSE IF p = "crs.code" THEN c ELSE p]
                                    : v \in {"0", "1"}, c \in {"0", "7415"}}
           ELSE {[p \in D |-> p]}
Init == /\ \E D \in Domains : doc \in Docs(D)
        /\ ext \in {"", "given"}
        /\ out = [p \in {} |-> ""] /\ todo = DOMAIN Slots(doc, ext)
(* slots are set group by group *)
Group(p) == CASE p \in Crs \cup {"crs"} -> 1 [] p \in ContactMust -> 2 [] p \in ContactMay -> 3 [] p \in Address -> 4 [] OTHER -> 5
Set == /\ todo # {}
       /\ \E g \in {Group(p) : p \in todo} :
            LET G == {p \in todo : Group(p) = g} IN
            /\ todo' = todo \ G
            /\ out' = [p \in DOMAIN out \cup G |-> IF p \in G THEN Slots(doc, ext)[p] ELSE out[p]]
       /\ UNCHANGED <<doc, ext>>
Next == Set
Spec == Init /\ [][Next]_vars
(* nothing is read that was not written; in the end all of it is *)
Partial == \A p \in DOMAIN Says(out) : p \in DOMAIN Seen(doc, ext) /\ (p \in Crs \/ Says(out)[p] = Seen(doc, ext)[p])
Same == todo = {} => Says(out) = Seen(doc, ext)
=============================================================================
