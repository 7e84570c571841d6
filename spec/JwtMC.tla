------------------------------- MODULE JwtMC -------------------------------
EXTENDS Jwt, TLC, Json
VARIABLES t, e, pc
vars == <<t, e, pc>>
Init ==
  /\ \E sk \in {<<>>, <<0>>, <<10>>} : \E x \in {<<>>} \cup {<<d - Or(sk, 0)>> : d \in {-1, 0, 1}},
        i \in {<<>>} \cup {<<d + Or(sk, 0)>> : d \in {-1, 0, 1}}, n \in {<<>>} \cup {<<d + Or(sk, 0)>> : d \in {-1, 0, 1}},
        ta \in {<<>>, << <<"a">> >>, << <<"a", "b">> >>, << <<"b">> >>}, ea \in {<<>>, <<"a">>}, ti \in {<<>>, <<"op">>}, ei \in {<<>>, <<"op">>, <<"op2">>},
        lk \in {"", "sub"} :
       /\ t = [exp |-> x, iat |-> i, nbf |-> n, aud |-> ta, iss |-> ti, lacks |-> lk]
       /\ e = [aud |-> ea, iss |-> ei, skew |-> sk]
  /\ pc = "required"
Next == pc \notin {"accepted", "refused"} /\ pc' = NextStage(pc, t, e) /\ UNCHANGED <<t, e>>
Spec1 == Init /\ [][Next]_vars
Agree == (pc = "accepted" => Valid(t, e)) /\ (pc = "refused" => ~Valid(t, e))
\* enlarging the skew never turns an accepted token into a refused one
Monotone == pc = "required" /\ Valid(t, e) => \A d \in {1, 9, 10, 3600} : Valid(t, [e EXCEPT !.skew = <<Skew(e) + d>>])
Emit == pc \in {"accepted", "refused"} => PrintT("@@" \o ToJson([t |-> t, e |-> e, res |-> pc]))
=============================================================================
