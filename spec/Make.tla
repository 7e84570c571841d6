------------------------------- MODULE Make -------------------------------
(* A client makes a request object for its authorization request and sends it; a          *)
(* provider takes it (C28).                                                               *)
(*   m: [kind, params, alg, iss, jar (set of [owner, name, kty]), recv (opt), jti, life,  *)
(*       now]                         what the client asks for and holds                  *)
(*   p: [jar: set of <<owner, name>>, opponent (opt), outer]   outer: the plain           *)
(*       parameters sent next to the request object                                       *)
EXTENDS Request
KtyOf(alg) == CASE alg \in {"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"} -> "RSA" [] alg = "ES256" -> "EC" [] alg = "ES384" -> "EC384" [] alg \in {"HS256", "HS384", "HS512"} -> "oct" [] OTHER -> "-"
\* the keys the client may sign with: its own
Fits(m) == {k \in m.jar : k.owner \in {m.iss, ""} /\ k.kty = KtyOf(m.alg)}
CanMake(m) == m.alg = "none" \/ Fits(m) # {}
Extra(m) == LET a == [iat |-> <<ToString(m.now)>>]
                b == IF m.life > 0 THEN Over([exp |-> <<ToString(m.now + m.life)>>], a) ELSE a
                c == IF Given(m.recv) /\ m.recv[1] # "" THEN Over([aud |-> m.recv], b) ELSE b
            IN IF m.jti THEN Over([jti |-> <<"<jti>">>], c) ELSE c
\* everything that was asked for, who asks, when, for whom and for how long; nothing else
ClaimsOf(m) == Over(Over([iss |-> <<m.iss>>], Extra(m)), m.params)
Clashes(m) == Dom(m.params) \cap {"iss", "iat", "exp", "aud", "jti"} # {}
\* the request that reaches the provider, signed with the key named signer
Sent(m, p, signer) == [kind |-> m.kind, outer |-> Over([request |-> <<"<request>">>], p.outer), hint |-> <<>>,
   obj |-> <<[alg |-> m.alg, signer |-> signer, tamper |-> "no", iss |-> <<m.iss>>, params |-> Without(ClaimsOf(m), {"iss"})]>>,
   e |-> [opponent |-> p.opponent, nonce |-> <<>>, none |-> FALSE, jar |-> p.jar]]
Taken(m, p, signer) == RequestOK(Sent(m, p, signer))
=============================================================================
