----------------------------- MODULE IdTokenMC -----------------------------
EXTENDS IdToken, TLC, Json
VARIABLES t, e, pc
vars == <<t, e, pc>>
Me == "client1"   Other == "client2"   Third == "client3"
Auds == { <<Me>>, <<Other>>, <<Me, Other>>, <<Other, Third>> }
Azps == { <<>>, <<Me>>, <<Other>>, <<"client9">> }
Init ==
  /\ \E aud \in Auds, azp \in Azps, sk \in {<<>>, <<0>>, <<10>>}, st \in {<<>>, <<0>>, <<100>>},
        dx \in {-1, 0, 1}, di \in {-1, 0, 1}, tn \in {<<>>, <<"n1">>}, en \in {<<>>, <<"n1">>, <<"n2">>},
        ei \in {<<>>, <<"op1">>, <<"op2">>}, ec \in {<<>>, <<Me>>} :
       /\ t = [iss |-> "op1", aud |-> aud, azp |-> azp, exp |-> dx - Or(sk, 0),
               iat |-> di - Or(sk, 0) - Or(st, DefaultStorage), nonce |-> tn]
       /\ e = [iss |-> ei, client |-> ec, skew |-> sk, storage |-> st, nonce |-> en]
  /\ pc = "issuer"
Next == pc \notin {"accepted", "refused"} /\ pc' = NextStage(pc, t, e) /\ UNCHANGED <<t, e>>
Spec1 == Init /\ [][Next]_vars
Agree == /\ pc = "accepted" => Fits(t, e)
         /\ pc = "refused" => ~Fits(t, e)
\* a larger skew or storage time never turns an accepted token into a refused one
Monotone == pc = "issuer" /\ Fits(t, e) => \A d \in {1, 10, 3600} :
              /\ Fits(t, [e EXCEPT !.skew = <<Or(@, 0) + d>>])
              /\ Fits(t, [e EXCEPT !.storage = <<Or(@, DefaultStorage) + d>>])
\* dropping an expectation never turns an accepted token into a refused one
Weaker == pc = "issuer" /\ Fits(t, e) => Fits(t, [e EXCEPT !.iss = <<>>]) /\ Fits(t, [e EXCEPT !.client = <<>>]) /\ Fits(t, [e EXCEPT !.nonce = <<>>])
Emit == pc \in {"accepted", "refused"} => PrintT("@@" \o ToJson([t |-> t, e |-> e, ok |-> pc = "accepted"]))
=============================================================================
