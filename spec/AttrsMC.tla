------------------------------ MODULE AttrsMC ------------------------------
(* Schema derivation from every sequence of values up to a length, and the    *)
(* record codec over every record of a few columns.                           *)
EXTENDS Attrs, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxSeen, MaxLen
VARIABLES seen, schema, rec, dec
vars == <<seen, schema, rec, dec>>
Names == {"a", "b"}
Type == (0 :> "UByte") @@ (1 :> "String") @@ (2 :> "Short") @@ (300 :> "Json")
Cols == <<0, 1, 2, 300>>
RECURSIVE Pick(_, _)
Pick(S, i) == IF i > Len(Cols) THEN <<>>
              ELSE (IF Cols[i] \in DOMAIN S THEN <<<<Cols[i], S[Cols[i]]>>>> ELSE <<>>) \o Pick(S, i + 1)
Bytes == {0, 1, 255}
Payloads(c) == IF Width(Type[c]) > 0 THEN [1..Width(Type[c]) -> Bytes] ELSE UNION {[1..n -> {0, 44}] : n \in 0..MaxLen}
Records == UNION {{Pick(S, 1) : S \in {f \in [D -> UNION {Payloads(c) : c \in D}] : \A c \in D : f[c] \in Payloads(c)}}
                  : D \in SUBSET {0, 1, 2, 300}}
(* every history of observations up to a length, for replay into the real code *)
Histories == UNION {[1..n -> Names \X Kinds] : n \in 1..3}
ASSUME IF "OUT" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.OUT, SetToSeq(Histories)) ELSE TRUE
GenSpec == seen = <<>> /\ schema = <<>> /\ rec = <<>> /\ dec = <<>> /\ [][FALSE]_vars
Init == seen = <<>> /\ schema = [n \in {} |-> 0] /\ ((rec = <<>> /\ dec = <<>>) \/ (rec \in Records /\ dec = DecStart))
Meet == /\ dec = <<>> /\ Len(seen) < MaxSeen
        /\ \E n \in Names, k \in Kinds : seen' = Append(seen, <<n, k>>) /\ schema' = Observe(schema, n, k)
        /\ UNCHANGED <<rec, dec>>
B == Enc(rec, Type)
Read == /\ dec # <<>> /\ ~DecDone(B, dec) /\ CanDec(B, dec, Type)
        /\ dec' = Dec(B, dec, Type) /\ UNCHANGED <<seen, schema, rec>>
Next == Meet \/ Read
Spec == Init /\ [][Next]_vars
KindsOf(n) == {seen[i][2] : i \in {j \in 1..Len(seen) : seen[j][1] = n}}
(* every value met fits its column, for good *)
AllHeld == \A n \in DOMAIN schema : \A k \in KindsOf(n) : Holds(schema[n].type, k)
(* the type depends on the set of values only, not on their order *)
RECURSIVE JoinSet(_)
JoinSet(K) == LET k == CHOOSE x \in K : TRUE IN IF K = {k} THEN Guess(k) ELSE Join(JoinSet(K \ {k}), Guess(k))
OrderFree == \A n \in DOMAIN schema : schema[n].type = JoinSet(KindsOf(n))
Columns == /\ DOMAIN schema = {seen[i][1] : i \in 1..Len(seen)}
           /\ \A m, n \in DOMAIN schema : schema[m].ix = schema[n].ix => m = n
           /\ \A n \in DOMAIN schema : schema[n].ix < Cardinality(DOMAIN schema)
Parses == dec # <<>> => DecDone(B, dec) \/ CanDec(B, dec, Type)
Same == dec # <<>> /\ DecDone(B, dec) => dec.r = rec
ASSUME \A a, b \in Guessed : Join(a, b) = Join(b, a) /\ \A c \in Guessed : Join(a, Join(b, c)) = Join(Join(a, b), c)
ASSUME \A a, b \in Guessed, k \in Kinds : Holds(a, k) => Holds(Join(a, b), k)
=============================================================================
