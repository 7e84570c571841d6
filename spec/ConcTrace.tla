------------------------------ MODULE ConcTrace ------------------------------
(* Recorded histories of users that work at the same time, fail or die (C22, C23, C25).   *)
EXTENDS Linear, TraceBase
Clauses(r) == << <<"every operation answers with something that was stored", Len(r.bad) = 0>>,
                 <<"every operation takes effect at one moment between its call and its return", Len(r.bad) > 0 \/ Linear(r.init, r.ops)>> >>
=============================================================================
