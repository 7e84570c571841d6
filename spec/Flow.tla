-------------------------------- MODULE Flow --------------------------------
(* Whole protocol runs: two providers, two clients, and somebody on the way who sees      *)
(* everything and can deliver anything: what was sent to others, parts of messages put    *)
(* together anew, and tokens of his own making (C20).                                      *)
(* A client decides by the rules of Carrier and Logout; here is what that achieves.        *)
(*   runs: sequence of [op, client]; run number r is also its nonce, its code and its      *)
(*         access token                                                                    *)
(*   a token: [typ: id | logout | info, op, aud, nonce (opt), iat, exp, run, code, at, signer, tamper]  *)
(*         run: for which run it was issued; code, at: bound to them; 0: none              *)
(*   a message: [tok (opt), code, at, iss, client]     0: not there                        *)
(*   it is delivered at an endpoint: authz, token, logout: the client of the run verifies  *)
(*   hint: the provider of the run verifies (an ID Token comes back to it)                 *)
EXTENDS Logout
Ops == {1, 2}
Life == 1               \* in moments
OpName(p) == CASE p = 1 -> "op1" [] p = 2 -> "op2" [] OTHER -> "-"
ClientName(c) == CASE c = 1 -> "client1" [] c = 2 -> "client2" [] OTHER -> "-"
KeyOf(p) == CASE p = 1 -> "k1" [] p = 2 -> "k2" [] OTHER -> "-"
Jar == {<<"op1", "k1">>, <<"op2", "k2">>}
Policy == [none |-> <<>>, sigalg |-> <<>>, allowed |-> <<>>, jar |-> Jar]
Opt(x) == IF x = 0 THEN <<>> ELSE <<x>>
\* --- what providers issue
Issue(runs, r, typ, what, now) ==
  LET p == runs[r].op IN
  [typ |-> typ, op |-> p, aud |-> runs[r].client, nonce |-> IF what \in {"authz", "token"} THEN r ELSE 0, iat |-> now, exp |-> now + Life,
   run |-> r, code |-> IF what = "authz" THEN r ELSE 0, at |-> IF what = "authz" THEN r ELSE 0, signer |-> KeyOf(p), tamper |-> "no"]
Kinds == {"authz", "token", "refresh", "logout", "info"}
TypOf(what) == CASE what = "logout" -> "logout" [] what = "info" -> "info" [] OTHER -> "id"
\* --- what somebody else can make: the claims are those that fit best, the signature is not the provider's
Ways == {"unsigned", "mallory", "confused", "spliced", "stripped", "other", "embedded"}
Make(runs, r, typ, way, now) ==
  LET t == [Issue(runs, r, typ, IF typ = "id" THEN "authz" ELSE "logout", now) EXCEPT !.run = 0] IN
  CASE way = "unsigned" -> [t EXCEPT !.signer = "none"]
    [] way \in {"mallory", "embedded"} -> [t EXCEPT !.signer = "mallory"]
    [] way = "confused" -> [t EXCEPT !.signer = "confused"]
    [] way = "spliced" -> [t EXCEPT !.tamper = "payload"]
    [] way = "stripped" -> [t EXCEPT !.tamper = "strip"]
    [] way = "other" -> [t EXCEPT !.signer = KeyOf(3 - t.op)]           \* the other provider has fallen into his hands
\* --- the same token in the terms of Carrier and Logout
Alg(t) == IF t.signer = "none" THEN "none" ELSE IF t.signer = "confused" THEN "HS256" ELSE IF t.op = 1 THEN "RS256" ELSE "ES256"
TickS == 1000
Bound(x, r) == IF x = 0 THEN <<>> ELSE << <<r, 256>> >>
AsIdToken(t, now) ==
  [form |-> "jws", alg |-> Alg(t), signer |-> t.signer, tamper |-> t.tamper,
   t |-> [iss |-> OpName(t.op), aud |-> <<ClientName(t.aud)>>, azp |-> <<>>, exp |-> (t.exp - now) * TickS + TickS \div 2, iat |-> (t.iat - now) * TickS, nonce |-> Opt(t.nonce)],
   lacks |-> IF t.typ = "id" THEN "" ELSE "exp", chash |-> Bound(t.code, t.code), ahash |-> Bound(t.at, t.at)]
AsLogout(t, now) ==
  [lacks |-> IF t.typ = "logout" THEN "" ELSE "jti", nonce |-> t.nonce # 0, events |-> IF t.typ = "logout" THEN "exact" ELSE "none", sub |-> TRUE, sid |-> FALSE,
   aud |-> <<ClientName(t.aud)>>, iss |-> OpName(t.op), iat |-> (t.iat - now) * TickS]
Expected(run, r) == [iss |-> <<OpName(run.op)>>, client |-> <<ClientName(run.client)>>, skew |-> <<>>, storage |-> <<>>, nonce |-> <<r>>]
\* --- does the client of run r take the message?
Accepts(runs, ep, r, m, now) ==
  LET run == runs[r] IN
  IF ep = "logout"
  THEN /\ Given(m.tok)
       /\ LET t == m.tok[1] IN LogoutRequestOK([form |-> "jws", alg |-> Alg(t), signer |-> t.signer, tamper |-> t.tamper], AsLogout(t, now), Policy,
                                               [aud |-> <<ClientName(run.client)>>, iss |-> <<OpName(run.op)>>, skew |-> <<>>, allowed |-> <<>>])
  ELSE IF ep = "hint"
  THEN Given(m.tok) /\ TokenOK(AsIdToken(m.tok[1], now), Policy, [Expected(run, r) EXCEPT !.nonce = <<>>])
  ELSE /\ ep = "authz" => m.iss \in {0, run.op} /\ m.client \in {0, run.client}
       /\ Given(m.tok) => LET tok == AsIdToken(m.tok[1], now)
                          IN TokenOK(tok, Policy, Expected(run, r)) /\ (ep = "authz" => HashesOK("authzresp", tok, [code |-> Opt(m.code), at |-> Opt(m.at)]))
-----------------------------------------------------------------------------
(* The property. issued: what providers have really issued; corrupt: providers that are not honest *)
IssuedTo(issued, runs, r, t, typ) == \E i \in issued : i = t /\ i.typ = typ /\ i.op = runs[r].op /\ i.aud = runs[r].client
SameRun(r, t) == t.nonce \in {0, r}             \* as far as the token names its run
Agreed(issued, runs, corrupt, ep, r, m, now) ==
  IF ~Given(m.tok) THEN ep = "authz" => m.iss \in {0, runs[r].op} /\ m.client \in {0, runs[r].client}
  ELSE runs[r].op \in corrupt \/
  LET t == m.tok[1] IN
  IF ep = "logout" THEN IssuedTo(issued, runs, r, t, "logout")
  ELSE IF ep = "hint" THEN IssuedTo(issued, runs, r, t, "id") /\ t.exp >= now
  ELSE /\ IssuedTo(issued, runs, r, t, "id") /\ SameRun(r, t) /\ t.exp >= now
       \* a code and an access token that come with a token were issued with it, in this run
       /\ ep = "authz" => m.code \in {0, r} /\ m.at \in {0, r}
(* and what is as it should be is taken *)
Honest(issued, runs, ep, r, m, now) ==
  /\ Given(m.tok) /\ m.tok[1] \in issued /\ m.tok[1].run = r /\ m.tok[1].exp >= now
  /\ CASE ep = "authz" -> m.tok[1].code = r /\ m.code = r /\ m.at = r /\ m.iss \in {0, runs[r].op} /\ m.client \in {0, runs[r].client}
       [] ep = "token" -> m.tok[1].typ = "id" /\ m.tok[1].code = 0
       [] ep = "hint" -> m.tok[1].typ = "id"
       [] ep = "logout" -> m.tok[1].typ = "logout"
=============================================================================
