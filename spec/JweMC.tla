------------------------------ MODULE JweMC ------------------------------
EXTENDS Jwe, TLC, Json
VARIABLES x, e, st
vars == <<x, e, st>>
K(n, o, t, i) == [name |-> n, owner |-> o, kty |-> t, kid |-> i]
Jar == <<K("rsa1", "client1", "RSA", "r1"), K("oct1", "client1", "oct", "h1"), K("rsa3", "op2", "RSA", "q1"), K("ec1", "op2", "EC", "e1"), K("oct2", "", "oct", "s0")>>
D(n, o) == [name |-> n, owner |-> o]
KeyFor(alg) == CASE alg \in {"RSA-OAEP", "RSA-OAEP-256", "RSA1_5"} -> <<"rsa5", "rsa4">> [] alg = "A128KW" -> <<"aes128a", "aes128b">>
                 [] alg = "A256KW" -> <<"aes256a", "aes256b">> [] OTHER -> <<"ec2", "ec3">>
Decs(alg) == LET k == KeyFor(alg) IN {<<D(k[1], "")>>, <<D(k[2], ""), D(k[1], "")>>, <<D(k[2], "")>>, <<D(k[1], "client1"), D(k[2], "")>>, <<>>}
J(alg, signer, kid, iss, tm) == [alg |-> alg, kid |-> kid, iss |-> iss, signer |-> signer, tamper |-> tm]
Jws1 == {J("RS256", "rsa1", <<"r1">>, <<"client1">>, "no"), J("RS256", "rsa3", <<"q1">>, <<"op2">>, "no"), J("HS256", "oct2", <<>>, <<>>, "no"),
         J("RS256", "rsa2", <<"r1">>, <<"client1">>, "no"), J("RS256", "rsa1", <<"r1">>, <<"client1">>, "payload"), J("RS256", "rsa1", <<"r1">>, <<"client1">>, "strip"),
         J("RS256", "rsa3", <<>>, <<"client1">>, "no"), J("HS256", "public:rsa1", <<"r1">>, <<"client1">>, "no"), J("none", "rsa1", <<>>, <<"client1">>, "no"),
         J("ES256", "ec1", <<"e1">>, <<"op2">>, "no"), J("HS512", "oct1", <<"h1">>, <<"client1">>, "no"), J("RS256", "rsa1", <<>>, <<"nobody">>, "no")}
Plain(iss) == J("none", "rsa1", <<>>, iss, "no")
Inners == {[form |-> "jws", j |-> j] : j \in Jws1} \cup {[form |-> f, j |-> Plain(i)] : f \in {"json"}, i \in {<<>>, <<"client1">>, <<"op2">>}}
          \cup {[form |-> f, j |-> Plain(<<"client1">>)] : f \in {"jwe", "text"}}
Algs == {"RSA-OAEP", "RSA1_5", "A256KW", "ECDH-ES", "ECDH-ES+A128KW"}
Encs == {"A128GCM", "A256CBC-HS512"}
Other(alg) == IF alg = "RSA-OAEP" THEN "RSA1_5" ELSE "RSA-OAEP"
OtherEnc(enc) == IF enc = "A128GCM" THEN "A256GCM" ELSE "A128CBC-HS256"
NoKid == [any |-> FALSE, of |-> "op", kids |-> <<>>]
Env(d, ea, ee, sa, ro) == [hasjar |-> TRUE, jar |-> Jar, sigalg |-> sa, from |-> <<>>, nokid |-> NoKid, dec |-> d, encalg |-> ea, encenc |-> ee, route |-> ro]
Init ==
  /\ st = Closed
  /\ \E alg \in Algs, enc \in Encs, inner \in Inners, ro \in {"message", "oidc", "jar", "par"} :
     \/ \E d \in Decs(alg), tm \in {"no", "header", "key", "iv", "text", "tag"} :
          /\ ~(alg = "ECDH-ES" /\ tm = "key")
          /\ tm # "no" => d = <<D(KeyFor(alg)[1], "")>>
          /\ x = [alg |-> alg, enc |-> enc, key |-> KeyFor(alg)[1], tamper |-> tm, inner |-> inner]
          /\ e = Env(d, <<>>, <<>>, <<>>, ro)
     \/ \E ea \in {<<>>, <<"">>, <<alg>>, <<Other(alg)>>}, ee \in {<<>>, <<"">>, <<enc>>, <<OtherEnc(enc)>>},
           sa \in (IF ro = "message" THEN {<<>>, <<"RS256">>, <<"ES256">>} ELSE {<<>>}) :
          /\ x = [alg |-> alg, enc |-> enc, key |-> KeyFor(alg)[1], tamper |-> "no", inner |-> inner]
          /\ e = Env(<<D(KeyFor(alg)[1], "")>>, ea, ee, sa, ro)
Done == st.pc \in {"loaded", "refused"}
Next == ~Done /\ st' = JStep(st, x, e) /\ UNCHANGED <<x, e>>
Spec == Init /\ [][Next]_vars
Agree == Done => (st.pc = "loaded" <=> MayRead(x, e))
\* what is read was encrypted to one of the reader's keys, as demanded, and signed by whom it names
Confidential == st.pc = "loaded" => x.tamper = "no" /\ D(x.key, "") \in {e.dec[i] : i \in 1..Len(e.dec)}
                  /\ e.encalg \in {<<>>, <<"">>, <<x.alg>>} /\ e.encenc \in {<<>>, <<"">>, <<x.enc>>}
StillSigned == st.pc = "loaded" /\ x.inner.form = "jws" /\ x.inner.j.alg # "none" =>
                  x.inner.j.tamper = "no" /\ \E k \in KeysOf(e) : k.name = x.inner.j.signer /\ x.inner.j.iss \in {<<>>, <<k.owner>>}
Emit == Done => PrintT("@@" \o ToJson([x |-> x, e |-> [e EXCEPT !.jar = <<>>], res |-> IF OpenRead(x, e) THEN "open" ELSE st.pc]))
Tables == st = Closed /\ x.alg = "A256KW" /\ e.route = "par" /\ x.inner.form = "text" /\ e.encalg = <<"">> /\ e.encenc = <<"">> => PrintT("@@" \o ToJson([jar |-> Jar]))
=============================================================================
