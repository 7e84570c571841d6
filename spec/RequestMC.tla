----------------------------- MODULE RequestMC -----------------------------
EXTENDS Request, Json
CONSTANT Part
VARIABLES r, st
vars == <<r, st>>
Base == [client_id |-> <<"client1">>, response_type |-> <<"code">>, scope |-> <<"openid">>, redirect_uri |-> <<"https://rp.example.com/cb">>]
FullJar == {<<"client1", "rsa1">>, <<"client1", "ec1">>, <<"client1", "oct1">>, <<"client2", "rsa3">>, <<"client2", "oct2">>, <<"", "oct4">>, <<"op", "rsa2">>}
E0 == [opponent |-> <<>>, nonce |-> <<>>, none |-> FALSE, jar |-> FullJar]
O0 == [alg |-> "HS256", signer |-> "oct1", tamper |-> "no", iss |-> <<"client1">>, params |-> Base]
R0 == [kind |-> "oidc", outer |-> Base, obj |-> <<>>, hint |-> <<>>, e |-> E0]
Put(f, k, v) == IF v = <<>> THEN f ELSE Over(k :> v, f)
WithObj(outer, o) == [outer |-> Over([request |-> <<"<request>">>], outer), obj |-> <<o>>]
Subseqs == {<<>>, <<"none">>, <<"login">>, <<"consent">>, <<"none", "login">>, <<"consent", "none">>, <<"login", "consent">>,
            <<"login", "consent", "select_account">>, <<"other">>, <<"consent", "other">>, <<"other", "consent">>, <<"login", "Consent", "consent">>,
            <<"login", "none", "consent">>, <<"login", "consent", "select_account", "other">>}
Rules ==
  \E rt \in {<<"code">>, <<"id_token">>, <<"code", "id_token">>, <<"code", "token">>, <<"token", "id_token", "code">>, <<"code", "token", "id_token">>},
     sc \in {<<"openid">>, <<"email">>, <<"openid", "offline_access">>, <<"offline_access", "email", "openid">>, <<"offline_access">>},
     n \in {<<>>, <<"n1">>, <<"n2">>, Null}, en \in {<<>>, <<"n1">>}, pr \in Subseqs,
     d \in {<<>>, <<"page">>, <<"popup">>, <<"touch">>, <<"wap">>, <<"screen">>}, where \in {"plain", "object"} :
    LET f == Put(Put(Put([Base EXCEPT !.response_type = rt, !.scope = sc], "nonce", n), "prompt", pr), "display", d) e == [E0 EXCEPT !.nonce = en]
    IN r = IF where = "plain" THEN [R0 EXCEPT !.outer = f, !.e = e]
           ELSE [R0 EXCEPT !.outer = Over([request |-> <<"<request>">>], Base), !.obj = << [O0 EXCEPT !.params = f] >>, !.e = e]
\* where a parameter is, and whether the two agree
Where == {"neither", "outer", "object", "same", "differ"}
V(p, i) == CASE p = "client_id" -> <<"client1">>
             [] p = "response_type" -> IF i = 1 THEN <<"code">> ELSE <<"code", "token">>
             [] p = "scope" -> IF i = 1 THEN <<"openid">> ELSE <<"openid", "email">>
             [] p = "redirect_uri" -> IF i = 1 THEN <<"https://rp.example.com/cb">> ELSE <<"https://rp.example.com/other">>
             [] OTHER -> IF i = 1 THEN <<"one">> ELSE <<"two">>
Focus == {"client_id", "response_type", "scope", "redirect_uri", "state", "xtra"}
OuterOf(w) == [p \in {q \in Focus : w[q] \in {"outer", "same", "differ"}} |-> V(p, 1)]
ObjOf(w) == [p \in {q \in Focus : w[q] \in {"object", "same", "differ"}} |-> V(p, IF w[p] = "differ" THEN 2 ELSE 1)]
Override ==
  \E w \in {f \in [Focus -> Where] : f.client_id # "differ"}, k \in {"oidc", "jar", "par"} :
     r = [R0 EXCEPT !.kind = k, !.outer = Over([request |-> <<"<request>">>], OuterOf(w)), !.obj = << [O0 EXCEPT !.params = ObjOf(w)] >>]
Signer ==
  \E k \in {"oidc", "jar", "par"}, as \in {<<"RS256", "rsa1">>, <<"RS256", "rsa3">>, <<"RS256", "rsa4">>, <<"ES256", "ec1">>, <<"ES256", "ec2">>, <<"HS256", "oct1">>,
       <<"HS256", "oct2">>, <<"HS256", "oct4">>, <<"HS256", "oct3">>, <<"none", "-">>, <<"RS256", "rsa2">>},
     tam \in {"no", "payload", "sig", "strip", "header"}, iss \in {<<>>, <<"client1">>, <<"client2">>, <<"op">>, <<"client3">>},
     oc \in {<<>>, <<"client1">>, <<"client2">>}, opp \in {<<>>, <<"client1">>, <<"client2">>, <<"op">>}, j \in {FullJar, {<<"client2", "rsa3">>, <<"op", "rsa2">>}} :
    /\ as[1] = "none" => tam = "no"
    /\ (tam # "no" \/ j # FullJar) => (opp = <<>> /\ oc = <<"client1">>)
    /\ r = [R0 EXCEPT !.kind = k, !.outer = Over([request |-> <<"<request>">>], Base),
            !.obj = << [alg |-> as[1], signer |-> as[2], tamper |-> tam, iss |-> iss, params |-> Put(Without(Base, {"client_id"}), "client_id", oc)] >>,
            !.e = [E0 EXCEPT !.opponent = opp, !.jar = j]]
Hints ==
  \E form \in {"jws", "json", "garbage"}, as \in {<<"RS256", "rsa2">>, <<"RS256", "rsa1">>, <<"RS256", "rsa4">>, <<"none", "-">>, <<"HS256", "oct4">>},
     tam \in {"no", "payload", "sig", "strip"}, iss \in {"op", "client1", "nobody"}, no \in BOOLEAN, where \in {"plain", "outer", "object", "both"} :
    /\ as[1] = "none" => tam = "no"
    /\ LET h == [form |-> form, alg |-> as[1], signer |-> as[2], tamper |-> tam, iss |-> iss]
           hp == Over([id_token_hint |-> <<"<hint>">>], Base)
       IN r = [R0 EXCEPT !.hint = <<h>>, !.e = [E0 EXCEPT !.none = no],
               !.outer = IF where = "plain" THEN hp ELSE Over([request |-> <<"<request>">>], IF where \in {"outer", "both"} THEN hp ELSE Base),
               !.obj = IF where = "plain" THEN <<>> ELSE << [O0 EXCEPT !.params = IF where \in {"object", "both"} THEN hp ELSE Base] >>]
Kinds ==   \* no request object
  \E k \in {"oidc", "jar", "par"}, lack \in SUBSET {"client_id", "response_type", "scope", "redirect_uri"}, uri \in BOOLEAN :
     r = [R0 EXCEPT !.kind = k, !.outer = LET f == Without(Base, lack) IN IF uri THEN Over([request_uri |-> <<"https://rp.example.com/ro">>], f) ELSE f]
Init == /\ CASE Part = "rules" -> Rules [] Part = "override" -> Override [] Part = "signer" -> Signer [] Part = "hint" -> Hints [] OTHER -> Kinds
        /\ st = StartAt(r)
Next == /\ ~RFinal(st.pc) /\ ~(st.pc = "object" /\ ByReference(r))
        /\ st' = RStep(st, r) /\ UNCHANGED r
Spec == Init /\ [][Next]_vars
Agree == /\ (st.pc = "accepted" => RequestOK(r) /\ st.msg = After(r).params /\ st.request = After(r).request /\ st.hint = After(r).hint)
         /\ (st.pc = "refused" => ~RequestOK(r) \/ OpenRequest(r))
\* what a verified request says was said by the client, unless the object is unsigned
Authentic == st.pc = "accepted" /\ Given(r.obj) /\ r.obj[1].alg # "none" /\ ~Given(r.e.opponent) =>
   \E k \in r.e.jar : k[2] = r.obj[1].signer /\ k[1] \in {"", st.msg.client_id[1]}
Overridden == st.pc = "accepted" /\ Given(r.obj) => \A k \in Dom(r.obj[1].params) : st.msg[k] = r.obj[1].params[k]
Emit == RFinal(st.pc) \/ (st.pc = "object" /\ ByReference(r)) =>
   PrintT("@@" \o ToJson([r |-> r, res |-> IF OpenRequest(r) THEN (IF RequestOK(r) \/ ByReference(r) THEN "open" ELSE "refused") ELSE st.pc,
                          after |-> IF RequestOK(r) THEN <<After(r)>> ELSE <<>>]))
=============================================================================
