---------------------------- MODULE IdTokenTrace ----------------------------
EXTENDS IdToken, TraceBase
Clauses(r) ==
  << <<"a token that fits the expectations is accepted", Fits(r.t, r.e) => r.o = "accepted">>,
     <<"issuer", ~IssuerFits(r.t, r.e) => r.o # "accepted">>,
     <<"audience", ~AudienceFits(r.t, r.e) => r.o # "accepted">>,
     <<"azp required with several audiences", ~AzpPresent(r.t) => r.o # "accepted">>,
     <<"azp is the expected client", ~AzpFits(r.t, r.e) => r.o # "accepted">>,
     <<"expiry", ~NotExpired(r.t, r.e) => r.o # "accepted">>,
     <<"issue time", ~IssuedRecently(r.t, r.e) => r.o # "accepted">>,
     <<"nonce", ~NonceFits(r.t, r.e) => r.o # "accepted">> >>
=============================================================================
