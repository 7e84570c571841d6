----------------------------- MODULE JweTrace -----------------------------
EXTENDS Jwe, TraceBase
Clauses(r) == LET x == r.x e == r.e IN
  << <<"a proper encrypted JWT is read", MayRead(x, e) /\ ~OpenRead(x, e) => r.o = "loaded">>,
     <<"only what was encrypted to the reader, unaltered", ~(x.tamper = "no" /\ Mine(x, e)) => r.o = "refused">>,
     <<"only with the demanded algorithms", ~Demanded(x, e) => r.o = "refused">>,
     <<"what is inside is verified", ~InnerOK(x, e) => r.o = "refused">>,
     <<"a request object is its client's", ~IssuedBy(x, e) => r.o = "refused">>,
     <<"nothing of a refused JWT is loaded and all of an accepted one", r.o \in {"loaded", "refused"}>> >>
=============================================================================
