------------------------------ MODULE JwsMC ------------------------------
EXTENDS Jws, TLC, Json
VARIABLES j, e, st, ctrl
vars == <<j, e, st, ctrl>>
K(n, o, t, i) == [name |-> n, owner |-> o, kty |-> t, kid |-> i]
\* rsa4, ec2, oct3 are in no jar: keys of somebody else
R1 == K("rsa1", "op", "RSA", "r1")      R2 == K("rsa2", "op", "RSA", "r2")
E1 == K("ec1", "op", "EC", "e1")        H1 == K("oct1", "op", "oct", "h1")
S0 == K("oct2", "", "oct", "s0")        O1 == K("rsa5", "", "RSA", "o1")
Q1 == K("rsa3", "op2", "RSA", "q1")     Q2 == K("rsa4", "op2", "RSA", "r1")  \* same key id as op's
Jars == [full |-> <<R1, R2, E1, H1, S0, O1, Q1>>, one |-> <<R1, E1, H1, S0, Q1>>,
         own |-> <<S0, O1>>, alias |-> <<R1, E1, Q1, Q2, O1>>]
Signers(alg) == CASE Kty(alg) = "RSA" -> IF alg = "RS256" THEN {"rsa1", "rsa2", "rsa3", "rsa4", "rsa5"} ELSE {"rsa1", "rsa4"}
                  [] Kty(alg) = "EC" -> {"ec1", "ec2"}
                  [] Kty(alg) = "oct" -> IF alg = "HS256" THEN {"oct1", "oct2", "oct3", "public:rsa1"} ELSE {"oct2"}
                  [] OTHER -> {"rsa1"}
Kids == {<<>>, <<"r1">>, <<"r2">>, <<"e1">>, <<"h1">>, <<"s0">>, <<"zz">>}
KidsFor(alg) == CASE Kty(alg) = "RSA" -> {<<>>, <<"r1">>, <<"r2">>, <<"q1">>, <<"o1">>, <<"zz">>}
                  [] Kty(alg) = "EC" -> {<<>>, <<"e1">>, <<"r1">>, <<"zz">>}
                  [] Kty(alg) = "oct" -> {<<>>, <<"h1">>, <<"s0">>, <<"r1">>, <<"zz">>}
                  [] OTHER -> {<<>>, <<"r1">>}
NoKid == [any |-> FALSE, of |-> "op", kids |-> <<>>]
NoKids == {NoKid, [any |-> TRUE, of |-> "op", kids |-> <<>>], [any |-> FALSE, of |-> "op", kids |-> << <<"r1">> >>], [any |-> FALSE, of |-> "op", kids |-> << <<>> >>]}
Algs == {"RS256", "RS512", "PS256", "ES256", "HS256", "HS512", "none", "None", "NONE", "XX256", "R256"}
Init ==
  /\ \E alg \in Algs : \E s \in Signers(alg), kid \in KidsFor(alg), iss \in {<<>>, <<"op">>, <<"op2">>, <<"unknown">>} :
     \/ \E jn \in DOMAIN Jars, sa \in {<<>>, <<alg>>, <<"RS384">>}, fr \in {<<>>, <<"op">>},
           nk \in (IF kid = <<>> THEN NoKids ELSE {NoKid}) :
          /\ j = [alg |-> alg, kid |-> kid, iss |-> iss, signer |-> s, tamper |-> "no"]
          /\ e = [hasjar |-> TRUE, jar |-> Jars[jn], sigalg |-> sa, from |-> fr, nokid |-> nk]
          /\ ctrl = jn
     \/ \E tm \in {"payload", "header", "sig", "strip"}, jn \in {"full", "one"} :
          /\ j = [alg |-> alg, kid |-> kid, iss |-> iss, signer |-> s, tamper |-> tm]
          /\ e = [hasjar |-> TRUE, jar |-> Jars[jn], sigalg |-> <<>>, from |-> <<>>, nokid |-> NoKid]
          /\ ctrl = jn
     \/ /\ j = [alg |-> alg, kid |-> kid, iss |-> iss, signer |-> s, tamper |-> "no"]
        /\ \E jn \in {"nojar", "empty"} :
             /\ e = [hasjar |-> FALSE, jar |-> <<>>, sigalg |-> <<>>, from |-> <<>>, nokid |-> NoKid]
             /\ ctrl = jn
  /\ st = Start
Next == ~Final(st.pc) /\ st' = Step(st, j, e) /\ UNCHANGED <<j, e, ctrl>>
Spec1 == Init /\ [][Next]_vars
Agree == Final(st.pc) => (st.pc = "loaded" <=> MayLoad(j, e))
\* what the property is for, said without any mechanism
Authentic == st.pc = "loaded" /\ j.alg # "none" =>
  /\ j.tamper = "no"
  /\ \E k \in KeysOf(e) : k.name = j.signer /\ k.kty = Kty(j.alg) /\ (Given(j.kid) => k.kid = j.kid[1])
        /\ ((k.owner = "" /\ (~Given(j.iss) \/ k.kty = "oct")) \/ (Given(j.iss) /\ k.owner = j.iss[1])
            \/ (~Given(j.iss) /\ Given(e.from) /\ k.owner = e.from[1]))
Emit == Final(st.pc) => PrintT("@@" \o ToJson([j |-> j, e |-> [e EXCEPT !.jar = <<>>], jar |-> ctrl, ok |-> st.pc = "loaded"]))
Tables == st = Start /\ ctrl = "nojar" /\ j.alg = "XX256" /\ j.kid = <<>> /\ j.iss = <<>> => PrintT("@@" \o ToJson([jars |-> Jars]))
=============================================================================
