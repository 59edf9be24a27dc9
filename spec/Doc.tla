-------------------------------- MODULE Doc ---------------------------------
(* The header: which slots of the file's header table hold which properties   *)
(* of the source, and which properties the slots are read back as.            *)
(* A source is a function from property names to values; absent properties    *)
(* are not in its domain.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

Always == {"version", "scale", "translate"}
Simple == {"identifier", "referenceDate", "title"}
Crs == {"crs.authority", "crs.version", "crs.code"}
ContactMust == {"poc.contactName", "poc.emailAddress"}
ContactMay == {"poc.contactType", "poc.role", "poc.phone", "poc.website"}
Address == {"adr.thoroughfareNumber", "adr.thoroughfareName", "adr.locality", "adr.postalCode", "adr.country"}
Properties == Always \cup Simple \cup Crs \cup ContactMust \cup ContactMay \cup Address \cup {"extent"}

(* all of a group or nothing of it; an address belongs to a contact *)
WellFormed(D) ==
  /\ Always \subseteq D /\ D \subseteq Properties
  /\ \A G \in {Crs, ContactMust, Address} : G \subseteq D \/ G \cap D = {}
  /\ (ContactMay \cup Address) \cap D # {} => ContactMust \subseteq D

(* scalar slots that hold their default are left out of the table *)
Default(p) == CASE p = "crs.version" -> "0" [] p = "crs.code" -> "0" [] OTHER -> "no default"
(* slots: the extent given to the writer ("" if none) takes precedence *)
Value(doc, extent, p) == IF p = "extent" /\ extent # "" THEN extent ELSE doc[p]
Slots(doc, extent) ==
  LET D == DOMAIN doc \cup (IF extent # "" THEN {"extent"} ELSE {})
      kept == {p \in D : Value(doc, extent, p) # Default(p)}
  IN [p \in kept \cup (IF Crs \subseteq D THEN {"crs"} ELSE {}) |-> IF p = "crs" THEN "table" ELSE Value(doc, extent, p)]
(* what the slots say *)
Says(s) ==
  LET contact == "poc.contactName" \in DOMAIN s
      adr == Address \subseteq DOMAIN s
      D == (DOMAIN s \ ({"crs"} \cup ContactMust \cup ContactMay \cup Address))
           \cup (IF contact THEN DOMAIN s \cap (ContactMust \cup ContactMay) ELSE {})
           \cup (IF contact /\ adr THEN Address ELSE {})
           \cup (IF "crs" \in DOMAIN s THEN Crs ELSE {})
  IN [p \in D |-> IF p \in DOMAIN s THEN s[p] ELSE Default(p)]
(* what a reader is to see *)
Seen(doc, extent) ==
  [p \in DOMAIN doc \cup (IF extent # "" THEN {"extent"} ELSE {}) |-> Value(doc, extent, p)]

(* extensions: looked up when the file is written; one that cannot be had     *)
(* fails the writer                                                           *)
Writable(exts) == \A e \in exts : e.served
=============================================================================
