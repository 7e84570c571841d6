------------------------------ MODULE SqlSteps ------------------------------
(* The SQL store at the level of statements: two users at the same time (C25).            *)
(* The database: what is committed, and who holds the right to change it.                  *)
EXTENDS Linear, TLC, Json
CONSTANTS Procs, Keys, Programs
VARIABLES table, own, pending, pc, prog, hist, stamp, init
vars == <<table, own, pending, pc, prog, hist, stamp, init>>
Init == /\ init \in [1..Cardinality(Keys) -> {0, 1}] /\ prog \in Programs
        /\ table = [k \in Keys |-> IF init[k] = 0 THEN <<>> ELSE <<init[k]>>]
        /\ own = 0 /\ pending = [k \in {} |-> <<>>]
        /\ pc = [p \in Procs |-> [at |-> "idle", n |-> 0]] /\ hist = <<>> /\ stamp = 0
Op(p) == prog[p][1]
Begin(p) == /\ pc[p].at = "idle" /\ prog[p] # <<>>
            /\ pc' = [pc EXCEPT ![p] = [at |-> CASE Op(p).op = "set" -> "delete" [] Op(p).op = "delete" -> "delete" [] OTHER -> "select", n |-> stamp]]
            /\ stamp' = stamp + 1 /\ UNCHANGED <<table, own, pending, prog, hist, init>>
Go(p, at) == pc' = [pc EXCEPT ![p].at = at] /\ UNCHANGED <<prog, hist, stamp>>
Over(p, es) == hist' = hist \o es /\ stamp' = stamp + 1 /\ prog' = [prog EXCEPT ![p] = Tail(@)] /\ pc' = [pc EXCEPT ![p].at = "idle"]
E(p, res) == [op |-> Op(p).op, k |-> Op(p).k, v |-> Op(p).v, res |-> res, call |-> pc[p].n, ret |-> stamp, maybe |-> FALSE]
Val(k) == IF table[k] = <<>> THEN 0 ELSE table[k][1]
Select(p) == pc[p].at = "select" /\ Over(p, <<E(p, Val(Op(p).k))>>) /\ UNCHANGED <<table, own, pending, init>>
\* the first statement that changes something takes the right to do so, or the operation fails
Delete(p) == /\ pc[p].at = "delete"
             /\ (IF own # 0 THEN Over(p, <<>>) /\ UNCHANGED <<own, pending>>
                 ELSE own' = p /\ pending' = [k \in {Op(p).k} |-> <<>>] /\ Go(p, IF Op(p).op = "set" THEN "insert" ELSE "commit"))
             /\ UNCHANGED <<table, init>>
Insert(p) == pc[p].at = "insert" /\ pending' = [pending EXCEPT ![Op(p).k] = Append(@, Op(p).v)] /\ Go(p, "commit") /\ UNCHANGED <<table, own, init>>
Commit(p) == /\ pc[p].at = "commit" /\ table' = [k \in Keys |-> IF k \in DOMAIN pending THEN pending[k] ELSE table[k]]
             /\ own' = 0 /\ pending' = [k \in {} |-> <<>>] /\ Over(p, <<E(p, 0)>>) /\ UNCHANGED init
Next == \E p \in Procs : Begin(p) \/ Select(p) \/ Delete(p) \/ Insert(p) \/ Commit(p)
Spec == Init /\ [][Next]_vars
Quiet == \A p \in Procs : pc[p].at = "idle" /\ prog[p] = <<>>
New == [i \in 1..Cardinality(Keys) |-> [op |-> "get", k |-> i, v |-> 0, res |-> Val(i), call |-> 2000, ret |-> 2000, maybe |-> FALSE]]
Atomic == Quiet => Linear(init, hist \o New)
One == \A k \in Keys : Len(table[k]) <= 1
Free == Quiet => own = 0
O(op, k, v) == [op |-> op, k |-> k, v |-> v]
Choices(p, i) == {O("set", k, 2 * p + i - 1) : k \in Keys} \cup {O("delete", k, 0) : k \in Keys} \cup {O("get", k, 0) : k \in Keys}
AllPrograms == {<< <<a, b>>, <<c, d>> >> : a \in Choices(1, 1), b \in Choices(1, 2), c \in Choices(2, 1), d \in Choices(2, 2)}
Emit == stamp = 0 => PrintT("@@" \o ToJson([prog |-> prog, init |-> init]))
=============================================================================
