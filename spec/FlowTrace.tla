------------------------------ MODULE FlowTrace ------------------------------
(* record: [runs, issued, corrupt, seen: sequence of [ep, r, m, now, o]] *)
EXTENDS Flow, TraceBase
Set(s) == {s[i] : i \in 1..Len(s)}
Clauses(r) ==
  LET d == {i \in 1..Len(r.seen) : r.seen[i].o = "accepted"}
      S(i) == r.seen[i]
      is == Set(r.issued)
  IN << <<"only what the provider issued to that client for that run is accepted",
          \A i \in d : Agreed({x \in is : x.iat <= S(i).now}, r.runs, Set(r.corrupt), S(i).ep, S(i).r, S(i).m, S(i).now)>>,
        <<"what is as it should be is accepted", \A i \in 1..Len(r.seen) : Honest(is, r.runs, S(i).ep, S(i).r, S(i).m, S(i).now) => i \in d>>,
        <<"the client decides by its rules", \A i \in 1..Len(r.seen) : Accepts(r.runs, S(i).ep, S(i).r, S(i).m, S(i).now) = (i \in d)>> >>
=============================================================================
