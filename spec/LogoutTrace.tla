----------------------------- MODULE LogoutTrace -----------------------------
EXTENDS Logout, TraceBase
Pol(r) == [r.p EXCEPT !.jar = {<<r.p.jar[i][1], r.p.jar[i][2]>> : i \in 1..Len(r.p.jar)}]
Rules(r, alg) == LET acc == r.o = "accepted" IN
  << <<"required claims", acc => r.t.lacks = "">>,
     <<"no nonce", acc => NoNonce(r.t)>>,
     <<"exactly the back-channel logout event", acc => EventsOK(r.t)>>,
     <<"a subject or a session", acc => SubjectNamed(r.t)>>,
     <<"audience", acc => AudOK(r.t, r.e)>>, <<"issuer", acc => IssOK(r.t, r.e)>>,
     <<"not issued in the future", acc => NotFuture(r.t, r.e)>>,
     <<"algorithm", acc => AlgOK(alg, r.e)>> >>
Clauses(r) ==
  IF r.k = "token" THEN Rules(r, r.alg) \o << <<"a good logout token is accepted", LogoutTokenOK(r.t, r.e, r.alg) => r.o = "accepted">> >>
  ELSE Rules(r, <<r.r.alg>>) \o
       << <<"a good logout request is accepted", ~LogoutOpen(r.r, Pol(r)) /\ LogoutRequestOK(r.r, r.t, Pol(r), r.e) => r.o = "accepted">>,
          <<"properly signed or allowed to be unsigned", r.o = "accepted" => LogoutOpen(r.r, Pol(r)) \/ LogoutRequestOK(r.r, r.t, Pol(r), r.e)>> >>
=============================================================================
