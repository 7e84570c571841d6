------------------------------- MODULE PackMC -------------------------------
EXTENDS Pack, TLC, Json
CONSTANT Part
VARIABLES x, st
vars == <<x, st>>
SigKeys(alg) == CASE alg \in {"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"} -> <<"rsa1", "rsa2">> [] alg = "ES256" -> <<"ec1", "ec2">>
                  [] alg = "ES384" -> <<"ec384", "ec1">> [] alg = "ES512" -> <<"ec521", "ec521b">> [] alg = "none" -> <<"-", "rsa1">> [] OTHER -> <<"oct1", "oct2">>
SigAlgs == {"RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256", "ES384", "ES512", "HS256", "HS384", "HS512", "none"}
EncKeys(alg) == CASE alg \in {"RSA-OAEP", "RSA-OAEP-256", "RSA1_5"} -> <<"rsa3", "rsa4">> [] alg = "A128KW" -> <<"aes128a", "aes128b">> [] alg = "A192KW" -> <<"aes192a", "aes192b">>
                  [] alg = "A256KW" -> <<"aes256a", "aes256b">> [] OTHER -> <<"ec1", "ec3">>
EncAlgs == {"RSA-OAEP", "RSA-OAEP-256", "RSA1_5", "A128KW", "A192KW", "A256KW", "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW"}
Encs == {"A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512", "A128GCM", "A192GCM", "A256GCM"}
Sig(a, t) == [kind |-> "sig", alg |-> a, enc |-> "", key |-> SigKeys(a)[1], tamper |-> t]
Enc(a, e, t) == [kind |-> "enc", alg |-> a, enc |-> e, key |-> EncKeys(a)[1], tamper |-> t]
SigTampers == {"no", "payload", "header", "signature"}
EncTampers == {"no", "header", "key", "iv", "text", "tag"}
\* the reader holds the right key, another one, both or none
Keys(ks) == {<<ks[1]>>, <<ks[2]>>, <<>>}
Init ==
  /\ st = Start(<<>>)
  /\ CASE Part = "sig" -> \E a \in SigAlgs, t \in SigTampers : \E v \in Keys(SigKeys(a)) \cup {SigKeys(a)} : (a = "none" => t = "no") /\ x = [env |-> <<Sig(a, t)>>, r |-> [dec |-> <<>>, ver |-> v]]
       [] Part = "enc" -> \E a \in EncAlgs, e \in Encs, t \in EncTampers : \E k \in Keys(EncKeys(a)) :
                             (t \in {"no", "tag"} \/ e \in {"A128CBC-HS256", "A256GCM"}) /\ ~(a = "ECDH-ES" /\ t = "key") /\ x = [env |-> <<Enc(a, e, t)>>, r |-> [dec |-> k, ver |-> <<>>]]
       [] Part = "nest" -> \E a \in EncAlgs, e \in {"A128GCM", "A256CBC-HS512"}, s \in SigAlgs, t \in {"no", "signature"}, u \in {"no", "text"} :
                             \E k \in Keys(EncKeys(a)), v \in Keys(SigKeys(s)) : (s = "none" => t = "no") /\ (u # "no" => t = "no" /\ k # <<>>)
                                /\ x = [env |-> <<Enc(a, e, u), Sig(s, t)>>, r |-> [dec |-> k, ver |-> v]]
       [] OTHER -> \E e \in {<<>>, <<77>>} : x = [exp |-> e, ops |-> <<>>] /\ st = Start(e)
Ops == {[op |-> "code", v |-> v, n |-> 0, bits |-> 0] : v \in 1..2} \cup {[op |-> "token", v |-> 3, n |-> 0, bits |-> 0]} \cup {[op |-> "tick", v |-> 0, n |-> 5, bits |-> 0]}
       \cup {[op |-> "pack", v |-> 0, n |-> n, bits |-> b] : n \in {0, 600}, b \in {0, 256, 384, 512}}
Next == Part = "issue" /\ Len(x.ops) < 4 /\ \E o \in Ops : (o.op = "pack" \/ Len(x.ops) < 3) /\ x' = [x EXCEPT !.ops = Append(x.ops, o)] /\ st' = Apply(st, o)
Spec == Init /\ [][Next]_vars
Sealed == Part # "issue" => (Peel(x.env, x.r) = "loaded") <=> Readable(x.env, x.r)
\* what was packed carries neither code nor access token, is issued now and expires a lifetime later
NothingRaw == Part = "issue" => \A i \in 1..Len(st.out) : st.out[i].c = <<>> /\ st.out[i].a = <<>> /\ Given(st.out[i].iat)
IssuedNow == [][Part = "issue" /\ Len(st'.out) > Len(st.out) => st'.out[Len(st'.out)].iat = <<st.now>>]_vars
Emit == IF Part # "issue" THEN PrintT("@@" \o ToJson([x |-> x, res |-> Peel(x.env, x.r), jws |-> Header(x.env, "sig"), jwe |-> Header(x.env, "enc")]))
        ELSE x.ops # <<>> /\ x.ops[Len(x.ops)].op = "pack" => PrintT("@@" \o ToJson([x |-> x, out |-> st.out]))
=============================================================================
