------------------------------ MODULE MergeMC ------------------------------
(* The merge operation by itself: every placement of five parameters, every mode, every list. *)
EXTENDS Request, Json
VARIABLES outer, obj, mode, list
vars == <<outer, obj, mode, list>>
Ps == {"client_id", "scope", "state", "xtra"}
Where == {"neither", "outer", "object", "same", "differ"}
V(p, i) == IF p = "scope" THEN <<"s", ToString(i)>> ELSE <<p \o ToString(i)>>
Init == \E w \in [Ps -> Where] :
  /\ outer = [p \in {q \in Ps : w[q] \in {"outer", "same", "differ"}} |-> V(p, 1)]
  /\ obj = [p \in {q \in Ps : w[q] \in {"object", "same", "differ"}} |-> V(p, IF w[p] = "differ" THEN 2 ELSE 1)]
  /\ mode \in {"strict", "lax", "whitelist"}
  /\ list \in IF mode = "whitelist" THEN SUBSET Ps ELSE {{}}
Spec == Init /\ [][FALSE]_vars
Res == Merged(mode, outer, obj, list)
ObjectWins == \A k \in Dom(obj) : Res[k] = obj[k]
NothingElse == Dom(Res) \subseteq Dom(obj) \cup Dom(outer)
Dropped == \A k \in Dom(outer) \ Dom(obj) : (k \in Dom(Res)) <=> (mode = "lax" \/ (mode = "whitelist" /\ k \in list))
Emit == PrintT("@@" \o ToJson([outer |-> outer, obj |-> obj, mode |-> mode, list |-> list, res |-> Res]))
=============================================================================
