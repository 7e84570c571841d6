----------------------------- MODULE MakeTrace -----------------------------
EXTENDS Make, TraceBase
Same(f, g) == Dom(f) = Dom(g) /\ \A k \in Dom(f) : f[k] = g[k]
SetOf(xs) == {xs[i] : i \in 1..Len(xs)}
\* r: [m, p, made, alg, signer, claims, fresh, o, after]
Clauses(r) ==
  LET m == [r.m EXCEPT !.jar = SetOf(r.m.jar)] p == [r.p EXCEPT !.jar = SetOf(r.p.jar)]
      s == Sent(m, p, r.signer)
  IN << <<"a request object is made with the client's own key or not at all", r.made <=> CanMake(m)>>,
        <<"it is signed as asked, with a key of the client", r.made => r.alg = m.alg /\ (m.alg = "none" \/ \E k \in Fits(m) : k.name = r.signer)>>,
        <<"it says what was asked for and nothing else", r.made /\ ~Clashes(m) => Same(r.claims, ClaimsOf(m))>>,
        <<"who made it and when is never taken from the request", r.made => r.claims.iss = <<m.iss>> /\ r.claims.iat = <<ToString(m.now)>>>>,
        <<"its identifier is new", r.made /\ m.jti => r.fresh>>,
        <<"the provider takes it", r.made /\ ~Clashes(m) /\ Taken(m, p, r.signer) /\ ~OpenRequest(s) => r.o = "accepted">>,
        <<"the provider refuses what is not the client's or breaks the rules", r.made /\ ~Clashes(m) /\ ~Taken(m, p, r.signer) => r.o = "refused">>,
        <<"the provider works with what was asked for", r.o = "accepted" /\ ~Clashes(m) => Same(r.after, After(s).params)>>,
        <<"one or the other", r.made => r.o \in {"accepted", "refused"}>> >>
=============================================================================
