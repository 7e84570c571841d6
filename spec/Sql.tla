--------------------------------- MODULE Sql ---------------------------------
(* The SQL store: one map from owner to data, kept as rows of a table that everybody      *)
(* who is connected to the database shares (C25).                                         *)
(*   rows: key -> sequence of values (more than one only if a stranger put them there)     *)
(*   lock: what a stranger holds on the database: none, read, write, exclusive             *)
(*   o: [op, i, k, v]     i: instance, 0: the stranger                                     *)
(*   an answer a: [ok, n, pairs]     pairs: sequence of <<key, value>>                     *)
EXTENDS Integers, Sequences, FiniteSets
Writes == {"set", "update", "delete"}
Bad == {"setbad", "updatebad", "keybad"}
Bind(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Drop(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
At(rows, k) == IF k \in DOMAIN rows THEN rows[k] ELSE <<>>
Range(s) == {s[j] : j \in 1..Len(s)}
\* what an operation that succeeds does
Effect(rows, o) == CASE o.op = "set" -> Bind(rows, o.k, <<o.v>>)
                     [] o.op = "update" -> IF o.k \in DOMAIN rows THEN Bind(rows, o.k, [j \in 1..Len(rows[o.k]) |-> o.v]) ELSE rows
                     [] o.op = "delete" -> Drop(rows, o.k)
                     [] o.op = "row" -> Bind(rows, o.k, Append(At(rows, o.k), o.v))
                     [] OTHER -> rows
After(rows, o, ok) == IF ok THEN Effect(rows, o) ELSE rows
LockAfter(lock, o) == CASE o.op \in {"read", "write", "exclusive"} -> o.op [] o.op = "unlock" -> "none" [] OTHER -> lock
MayFail(rows, lock, o) == \/ o.op \in Bad
                          \/ o.i > 0 /\ lock = "exclusive"
                          \/ o.op \in Writes /\ lock # "none"
\* what cannot be stored is not stored; changing the value of what is not there changes nothing
MustFail(rows, lock, o) == o.op \in {"setbad", "keybad"} \/ (o.op = "updatebad" /\ o.k \in DOMAIN rows)
RECURSIVE Total(_, _)
Total(rows, ks) == IF ks = {} THEN 0 ELSE LET k == CHOOSE x \in ks : TRUE IN Len(rows[k]) + Total(rows, ks \ {k})
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
AllOf(rows, pairs) == /\ Len(pairs) = Total(rows, DOMAIN rows)
                      /\ \A k \in DOMAIN rows : \A v \in Range(rows[k]) : Count(pairs, <<k, v>>) = Count(rows[k], v)
Right(rows, o, a) == CASE o.op = "get" -> (IF o.k \in DOMAIN rows THEN Len(a.pairs) = 1 /\ a.pairs[1][2] \in Range(rows[o.k]) ELSE a.pairs = <<>>)
                       [] o.op = "has" -> a.n = (IF o.k \in DOMAIN rows THEN 1 ELSE 0)
                       [] o.op = "delete" -> a.n = Len(At(rows, o.k))
                       [] o.op = "iter" -> AllOf(rows, a.pairs)
                       [] OTHER -> TRUE
Allowed(rows, lock, o, a) == IF a.ok THEN ~MustFail(rows, lock, o) /\ Right(rows, o, a) ELSE MayFail(rows, lock, o)
=============================================================================
