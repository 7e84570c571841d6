-------------------------------- MODULE SqlMC --------------------------------
EXTENDS Sql, TLC, Json
CONSTANTS Depth, Insts, Keys, Values
VARIABLES rows, lock, hist
vars == <<rows, lock, hist>>
Op(op, i, k, v) == [op |-> op, i |-> i, k |-> k, v |-> v]
Ops == {Op(op, i, k, v) : op \in {"set", "update"}, i \in Insts, k \in Keys, v \in Values}
       \cup {Op(op, i, k, 0) : op \in {"get", "delete", "has", "setbad", "updatebad"}, i \in Insts, k \in Keys}
       \cup {Op(op, i, 0, 0) : op \in {"iter", "reopen"}, i \in Insts}
       \cup {Op("row", 0, k, v) : k \in Keys, v \in Values}
       \cup {Op(op, 0, 0, 0) : op \in {"read", "write", "exclusive", "unlock"}}
\* instances, keys and values are interchangeable: new ones are used in order
InOrder(o) == /\ o.i > 1 => \E n \in 1..Len(hist) : hist[n].i = o.i - 1
              /\ o.k > 1 => \E n \in 1..Len(hist) : hist[n].k = o.k - 1
              /\ o.v > 1 => \E n \in 1..Len(hist) : hist[n].v = o.v - 1
Init == rows = [k \in {} |-> <<>>] /\ lock = "none" /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ InOrder(o)
                          /\ o.op = "row" => lock = "none"
                          /\ (o.op = "unlock") = (lock # "none" /\ o.op \in {"read", "write", "exclusive", "unlock"})
                          /\ lock' = LockAfter(lock, o)
                          /\ \E ok \in BOOLEAN : /\ IF ok THEN ~MustFail(rows, lock, o) /\ ~(o.op \in Writes /\ lock # "none" /\ Effect(rows, o) # rows) ELSE MayFail(rows, lock, o)
                                                 /\ rows' = After(rows, o, ok)
                          /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
\* without strangers there is at most one row per key; what was set is there alone
Stranger == \E n \in 1..Len(hist) : hist[n].op = "row"
One == ~Stranger => \A k \in DOMAIN rows : Len(rows[k]) = 1
NoneEmpty == \A k \in DOMAIN rows : rows[k] # <<>>
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
