---------------------------- MODULE CarrierTrace ----------------------------
EXTENDS Carrier, TraceBase
Pol(r) == [r.p EXCEPT !.jar = {<<r.p.jar[i][1], r.p.jar[i][2]>> : i \in 1..Len(r.p.jar)}]
Tok(r) == r.m.tok[1]
Clauses(r) ==
  LET p == Pol(r) acc == r.o = "accepted" open == Given(r.m.tok) /\ Open(Tok(r), p) ok == OK(r.c, r.m, p, r.e) IN
  << <<"a message that may be accepted is", open \/ (ok => acc)>>,
     <<"a required token is there", open \/ Given(r.m.tok) \/ (acc => ~Carriers[r.c].required)>>,
     <<"only a signed JWT", acc /\ Given(r.m.tok) => Tok(r).form = "jws">>,
     <<"unsigned only when allowed", acc /\ Given(r.m.tok) => (Unsigned(Tok(r)) => UnsignedAllowed(p))>>,
     <<"algorithm allowed", acc /\ Given(r.m.tok) => (~Unsigned(Tok(r)) => AlgAllowed(Tok(r), p))>>,
     <<"signed by the issuer it names", acc /\ Given(r.m.tok) => (~Unsigned(Tok(r)) => IssuedBy(Tok(r), p) /\ SignatureOK(Tok(r), p))>>,
     <<"claims fit the expectations", acc /\ Given(r.m.tok) => Tok(r).lacks = "" /\ Fits(Tok(r).t, r.e)>>,
     <<"hashes bind code and access token", acc /\ Given(r.m.tok) => HashesOK(r.c, Tok(r), r.m)>>,
     <<"verified entry is the content of the token, or absent", acc => r.entry = EntryAfter(r.m).k>> >>
=============================================================================
