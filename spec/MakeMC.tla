------------------------------ MODULE MakeMC ------------------------------
(* The client makes one request object after the other; each is taken (or not) by a       *)
(* provider.                                                                              *)
EXTENDS Make, Json
VARIABLES m, p, st, signer
vars == <<m, p, st, signer>>
Base == [client_id |-> <<"client1">>, response_type |-> <<"code">>, scope |-> <<"openid">>, redirect_uri |-> <<"https://rp.example.com/cb">>]
K(n, o, t) == [name |-> n, owner |-> o, kty |-> t]
Own == {K("rsa1", "client1", "RSA"), K("ec1", "client1", "EC"), K("oct1", "client1", "oct"), K("ec384", "client1", "EC384")}
Jars == {Own, Own \cup {K("rsa2", "op", "RSA"), K("oct2", "op", "oct")}, {K("rsa3", "", "RSA"), K("ec1", "client1", "EC")}, {K("rsa2", "op", "RSA"), K("oct2", "op", "oct")}}
ParamSets == {Base, Over([state |-> <<"s1">>, nonce |-> <<"n1">>, prompt |-> <<"login", "consent">>, claims |-> <<"<claims>">>], Base),
              Over([xtra |-> <<"x=y&z">>, xt |-> <<"<false>">>, max_age |-> <<"<zero>">>, response_type |-> <<"code", "id_token">>, nonce |-> <<"n1">>, scope |-> <<"openid", "email">>], Base), [Base EXCEPT !.response_type = <<"code", "id_token">>], Without(Base, {"scope"}), Over([display |-> <<"screen">>], Base), Over([client_id |-> <<"client2">>], Base)}
PJars == {{<<"client1", "rsa1">>, <<"client1", "ec1">>, <<"client1", "oct1">>, <<"client1", "ec384">>, <<"client1", "rsa3">>, <<"op", "rsa2">>}, {<<"client2", "rsa1">>, <<"client2", "ec1">>, <<"client1", "rsa4">>, <<"client1", "oct3">>}, {<<"", "rsa1">>}}
Outers(f) == {f, Only(f, {"client_id", "response_type", "scope", "redirect_uri"}), Over([state |-> <<"other">>, redirect_uri |-> <<"https://evil.example.com/">>, added |-> <<"1">>], f)}
Init ==
  /\ \E jar \in Jars, f \in ParamSets, alg \in {"RS256", "PS384", "ES256", "ES384", "HS256", "none"}, kind \in {"oidc", "jar", "par"},
        tail \in {[recv |-> <<"op">>, jti |-> FALSE, life |-> 0], [recv |-> <<"op">>, jti |-> TRUE, life |-> 600], [recv |-> <<>>, jti |-> TRUE, life |-> 0], [recv |-> <<>>, jti |-> FALSE, life |-> 1]} :
       \E pj \in PJars, o \in Outers(f), opp \in {<<>>, <<"client1">>, <<"client2">>} :
         /\ kind # "oidc" => ~Has(f, "claims")
         /\ (opp # <<>> => pj = CHOOSE x \in PJars : <<"op", "rsa2">> \in x) /\ (jar # Own => alg # "none")
         /\ m = [kind |-> kind, params |-> f, alg |-> alg, iss |-> "client1", jar |-> jar, recv |-> tail.recv, jti |-> tail.jti, life |-> tail.life, now |-> 0]
         /\ p = [jar |-> pj, opponent |-> opp, outer |-> o]
  /\ signer = "" /\ st = [pc |-> "make", msg |-> <<>>, request |-> <<>>, hint |-> FALSE]
MakeIt == /\ st.pc = "make"
          /\ IF ~CanMake(m) THEN st' = [st EXCEPT !.pc = "unmade"] /\ UNCHANGED signer
             ELSE /\ IF m.alg = "none" THEN signer' = "-" ELSE \E k \in Fits(m) : signer' = k.name
                  /\ st' = StartAt(Sent(m, p, signer'))
          /\ UNCHANGED <<m, p>>
Take == /\ st.pc \notin {"make", "unmade", "accepted", "refused"}
        /\ st' = RStep(st, Sent(m, p, signer)) /\ UNCHANGED <<m, p, signer>>
Next == MakeIt \/ Take
Spec == Init /\ [][Next]_vars
\* what the provider works with is what the client asked for, whatever stood next to it
AsAsked == st.pc = "accepted" => /\ \A k \in Dom(m.params) : st.msg[k] = m.params[k]
                                 /\ m.kind # "par" => Dom(st.msg) = Dom(ClaimsOf(m))
                                 /\ m.alg # "none" => \E k \in p.jar : k[2] = signer /\ k[1] \in {m.iss, ""}
Agree == (st.pc = "accepted" => Taken(m, p, signer)) /\ (st.pc = "refused" => ~Taken(m, p, signer) \/ OpenRequest(Sent(m, p, signer)))
\* a client and a provider that know each other
Works == st.pc = "refused" /\ OidcRules(m.params, [nonce |-> <<>>]) /\ Complete("oidc", m.params) /\ m.params.client_id = <<m.iss>> /\ p.opponent \in {<<>>, <<m.iss>>}
         /\ <<m.iss, signer>> \in p.jar => OpenRequest(Sent(m, p, signer))
Emit == st.pc \in {"unmade", "accepted", "refused"} =>
  PrintT("@@" \o ToJson([m |-> m, p |-> p, signer |-> signer, pc |-> st.pc, claims |-> ClaimsOf(m),
     res |-> IF st.pc = "unmade" THEN "unmade" ELSE IF OpenRequest(Sent(m, p, signer)) /\ st.pc # "accepted" THEN "open" ELSE st.pc,
     after |-> IF st.pc = "accepted" THEN <<st.msg>> ELSE <<>>]))
=============================================================================
