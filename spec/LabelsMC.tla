------------------------------ MODULE LabelsMC ------------------------------
(* The naming of labelled entries: what one label stores is listed with its own keys, and by no other label *)
EXTENDS Storage
CONSTANT LabelTexts
VARIABLES names, wrote
vars == <<names, wrote>>
Texts(n) == UNION {[1..i -> {"_", "a", "b"}] : i \in 0..n}
LabelsApart == {<<"a">>, <<"b">>, <<"a", "b">>, <<"a", "_", "b">>}
Init == names = {} /\ wrote = {}
Next == /\ Cardinality(wrote) < 2
            /\ \E l \in LabelTexts : \E k \in Texts(4) : names' = names \cup {Stored(l, k)} /\ wrote' = wrote \cup {<<l, k>>}
Spec == Init /\ [][Next]_vars
OwnKeys == \A l \in LabelTexts : Listed(names, l) = {w[2] : w \in {x \in wrote : x[1] = l}}
NoClash == Cardinality(names) = Cardinality(wrote)
=============================================================================
