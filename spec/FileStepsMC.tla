----------------------------- MODULE FileStepsMC -----------------------------
EXTENDS FileSteps
CONSTANTS First, Second, WriteKeys
O(op, k, v) == [op |-> op, k |-> k, v |-> v]
\* process 1 does First operations, process 2 Second; values 2, 3 are written by 1 and 4, 5 by 2
Choices(p, i) == {O("set", k, 2 * p + i - 1) : k \in WriteKeys} \cup {O("delete", k, 0) : k \in WriteKeys} \cup {O("get", k, 0) : k \in WriteKeys} \cup {O("items", 1, 0)}
Prog(p, n) == IF n = 1 THEN {<<a>> : a \in Choices(p, 1)} ELSE {<<a, b>> : a \in Choices(p, 1), b \in Choices(p, 2)}
AllPrograms == {<<a, b>> : a \in Prog(1, First), b \in Prog(2, Second)}
Emit == stamp = 0 => PrintT("@@" \o ToJson([prog |-> prog, init |-> init]))
=============================================================================
