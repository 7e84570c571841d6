------------------------------ MODULE SqlTrace ------------------------------
(* record: [ops, ans: [ok, n, pairs, raw: the rows of the table afterwards, free: nobody is blocked afterwards], fin: what everybody lists at the end] *)
EXTENDS Sql, TraceBase
\* many entries that are there from the beginning: key n has the value n % 3 + 1
Begin(r) == [n \in 1..r.many |-> <<(n % 3) + 1>>]
RECURSIVE Step(_, _, _)
Step(r, n, st) == IF n > Len(r.ops) THEN st
                  ELSE LET o == r.ops[n]
                           a == r.ans[n]
                           \* where a stranger left several rows for the key, they may all get the value
                           all == Effect(st.rows, [o EXCEPT !.op = "update"])
                           rows == IF o.op = "set" /\ a.ok /\ Len(At(st.rows, o.k)) > 1 /\ AllOf(all, a.raw) THEN all ELSE After(st.rows, o, a.ok)
                           right == Allowed(st.rows, st.lock, o, a)
                           kept == AllOf(rows, a.raw)
                       IN IF ~right \/ ~kept \/ ~a.free THEN [st EXCEPT !.right = right, !.kept = kept, !.free = a.free, !.done = FALSE]
                          ELSE Step(r, n + 1, [st EXCEPT !.rows = rows, !.lock = LockAfter(st.lock, o)])
Clauses(r) ==
  LET st == Step(r, 1, [rows |-> Begin(r), lock |-> "none", right |-> TRUE, kept |-> TRUE, free |-> TRUE, done |-> TRUE])
  IN << <<"every answer is that of one map", st.right>>,
        <<"an operation changes what it should, and nothing if it fails", st.kept>>,
        <<"a completed operation blocks nobody", st.free>>,
        <<"everybody ends with the same content", st.done => \A j \in 1..Len(r.fin) : AllOf(st.rows, r.fin[j])>> >>
=============================================================================
