------------------------------ MODULE LogoutMC ------------------------------
EXTENDS Logout, TLC, Json
CONSTANT Part
VARIABLES r, t, p, e, alg, x, pc
vars == <<r, t, p, e, alg, x, pc>>
T0 == [lacks |-> "", nonce |-> FALSE, events |-> "exact", sub |-> TRUE, sid |-> FALSE, aud |-> <<"client1">>, iss |-> "op", iat |-> 0]
E0 == [aud |-> <<"client1">>, iss |-> <<"op">>, skew |-> <<>>, allowed |-> <<>>]
R0 == [form |-> "jws", alg |-> "RS256", signer |-> "rsa1", tamper |-> "no"]
FullJar == {<<"op", "rsa1">>, <<"op", "ec1">>, <<"op", "oct1">>, <<"op2", "rsa3">>}
P0 == [none |-> <<>>, sigalg |-> <<>>, allowed |-> <<>>, jar |-> FullJar]
X0 == [uri |-> FALSE, hint |-> <<>>]
Bad == {[T0 EXCEPT !.nonce = TRUE], [T0 EXCEPT !.events = "other"], [T0 EXCEPT !.events = "two"], [T0 EXCEPT !.sub = FALSE], [T0 EXCEPT !.aud = <<"client2">>],
        [T0 EXCEPT !.iat = 1], [T0 EXCEPT !.lacks = "jti"], [T0 EXCEPT !.iss = "op2"], [T0 EXCEPT !.lacks = "iss"]}
Mint == {R0, [R0 EXCEPT !.alg = "ES256", !.signer = "ec1"], [R0 EXCEPT !.alg = "HS256", !.signer = "oct1"], [R0 EXCEPT !.alg = "none", !.signer = "-"],
         [R0 EXCEPT !.signer = "rsa4"], [R0 EXCEPT !.signer = "rsa3"], [R0 EXCEPT !.tamper = "payload"], [R0 EXCEPT !.tamper = "sig"],
         [R0 EXCEPT !.tamper = "strip"], [R0 EXCEPT !.form = "garbage"], [R0 EXCEPT !.form = "json"], [R0 EXCEPT !.form = "jwejson"]}
Hint == [form |-> "jws", alg |-> "RS256", signer |-> "rsa1", tamper |-> "no", lacks |-> "", chash |-> <<>>, ahash |-> <<>>,
         t |-> [iss |-> "op", aud |-> <<"client1">>, azp |-> <<>>, exp |-> 300, iat |-> 0, nonce |-> <<>>]]
IE == [iss |-> <<"op">>, client |-> <<"client1">>, skew |-> <<>>, storage |-> <<>>, nonce |-> <<>>]
Init ==
  /\ pc = "required"
  /\ \/ /\ Part = "token" /\ r = R0 /\ p = P0 /\ x = X0
        /\ \/ \E nonce \in BOOLEAN, ev \in Events, sub \in BOOLEAN, sid \in BOOLEAN, d \in {-1, 0, 1}, sk \in {<<>>, <<0>>, <<10>>},
                 aud \in {<<"client1">>, <<"client2">>, <<"client2", "client1">>}, ea \in {<<>>, <<"client1">>}, ei \in {<<>>, <<"op">>, <<"op2">>} :
                /\ t = [T0 EXCEPT !.nonce = nonce, !.events = ev, !.sub = sub, !.sid = sid, !.aud = aud, !.iat = Or(sk, 0) + d]
                /\ e = [aud |-> ea, iss |-> ei, skew |-> sk, allowed |-> <<>>]
                /\ alg = <<>>
           \/ \E a \in {<<>>, <<"RS256">>, <<"ES256">>, <<"none">>}, al \in {<<>>, <<"RS256">>, <<"ES256">>, <<"none">>},
                 lk \in {"", "iss", "aud", "iat", "jti", "events"} :
                t = [T0 EXCEPT !.lacks = lk] /\ e = [E0 EXCEPT !.allowed = al] /\ alg = a
     \/ /\ Part = "request" /\ x = X0
        /\ r \in Mint /\ t \in Bad \cup {T0} /\ alg = <<r.alg>>
        /\ \E al \in {<<>>, <<"RS256">>, <<"none">>} : e \in {[E0 EXCEPT !.allowed = al], [aud |-> <<>>, iss |-> <<>>, skew |-> <<>>, allowed |-> al]}
        /\ p \in {[none |-> n, sigalg |-> s, allowed |-> <<>>, jar |-> j] : n \in {<<>>, <<TRUE>>, <<FALSE>>},
                    s \in {<<>>, <<"RS256">>, <<"none">>}, j \in {FullJar, {<<"op2", "rsa3">>}, {}}}
     \/ /\ Part = "endsession" /\ r = R0 /\ t = T0 /\ e = E0 /\ alg = <<>>
        /\ p \in {[P0 EXCEPT !.none = n] : n \in {<<>>, <<TRUE>>}}
        /\ \E u \in BOOLEAN : \E h \in {<<>>, <<Hint>>, << [Hint EXCEPT !.alg = "none", !.signer = "-"] >>, << [Hint EXCEPT !.signer = "rsa4"] >>,
               << [Hint EXCEPT !.t.exp = -1] >>, << [Hint EXCEPT !.t.aud = <<"client2">>] >>, << [Hint EXCEPT !.form = "garbage"] >>} : x = [uri |-> u, hint |-> h]
Next == /\ Part = "token" /\ pc \notin {"accepted", "refused"} /\ pc' = LNext(pc, t, e, alg) /\ UNCHANGED <<r, t, p, e, alg, x>>
Spec1 == Init /\ [][Next]_vars
Agree == Part = "token" => /\ (pc = "accepted" => LogoutTokenOK(t, e, alg)) /\ (pc = "refused" => ~LogoutTokenOK(t, e, alg))
Monotone == Part = "token" /\ LogoutTokenOK(t, e, alg) => LogoutTokenOK(t, [e EXCEPT !.skew = <<Or(@, 0) + 10>>], alg)
Authentic == Part = "request" /\ LogoutRequestOK(r, t, p, e) =>
   LogoutTokenOK(t, e, <<r.alg>>) /\ (r.alg = "none" \/ <<t.iss, r.signer>> \in p.jar)
Res(b) == IF b THEN "accepted" ELSE "refused"
Emit == CASE Part = "token" -> pc \in {"accepted", "refused"} => PrintT("@@" \o ToJson([t |-> t, e |-> e, alg |-> alg, res |-> pc]))
          [] Part = "request" -> PrintT("@@" \o ToJson([r |-> r, t |-> t, e |-> e, p |-> p,
                                    res |-> IF LogoutOpen(r, p) THEN "open" ELSE Res(LogoutRequestOK(r, t, p, e))]))
          [] OTHER -> PrintT("@@" \o ToJson([x |-> x, p |-> p, e |-> IE, res |-> Res(EndSessionOK(x.uri, x.hint, p, IE))]))
=============================================================================
