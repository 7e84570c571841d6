---------------------------- MODULE KeyOwnersMC ----------------------------
EXTENDS Storage, TLC, Json
CONSTANT Ids
VARIABLES x, done
\* a context is set up, perhaps after an earlier one that had the same storage
Kinds == {"memory", "own", "label", "default"}
Init == /\ done = FALSE
        /\ x \in [kind : Kinds, given : {<<>>, <<{"", "other"}>>, <<{"other"}>>}, source : BOOLEAN, entity : Ids \cup {""}, first : BOOLEAN, firstentity : Ids \cup {""}]
Before == IF x.first /\ x.kind # "memory" THEN Owners([given |-> <<>>, source |-> TRUE, entity |-> x.firstentity, stored |-> {}]) ELSE {}
Case == [given |-> x.given, source |-> x.source, entity |-> x.entity, stored |-> Before]
Next == ~done /\ done' = TRUE /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, done>>
\* who has keys of its own and knows its name finds them under that name
Named == x.given = <<>> /\ "" \in Owners(Case) /\ x.entity # "" => x.entity \in Owners(Case)
Emit == done => PrintT("@@" \o ToJson([x |-> x, owners |-> Owners(Case)]))
=============================================================================
