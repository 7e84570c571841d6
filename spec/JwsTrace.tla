----------------------------- MODULE JwsTrace -----------------------------
EXTENDS Jws, TraceBase
Clauses(r) ==
  << <<"a properly signed JWT is loaded", MayLoad(r.j, r.e) => r.o = "loaded">>,
     <<"only supported algorithms", ~(r.j.alg = "none" \/ Supported(r.j.alg)) => r.o = "refused">>,
     <<"known issuer", r.j.alg # "none" /\ Supported(r.j.alg) /\ ~(r.e.hasjar /\ KnownIssuer(r.j, r.e)) => r.o = "refused">>,
     <<"demanded algorithm", r.j.alg # "none" /\ ~AlgFits(r.j, r.e) => r.o = "refused">>,
     <<"valid signature of the right key", r.j.alg # "none" /\ ~Signed(r.j, r.e) => r.o = "refused">>,
     <<"nothing of a refused JWT is loaded and all of an accepted one", r.o \in {"loaded", "refused"}>> >>
=============================================================================
