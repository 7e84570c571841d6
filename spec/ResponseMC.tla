----------------------------- MODULE ResponseMC -----------------------------
EXTENDS Response, TLC, Json
CONSTANT Part
VARIABLES r, pc
vars == <<r, pc>>
Good == <<111, 107, 46>>
Init ==
  /\ pc = "description"
  /\ IF Part = "chars" THEN r = DescChars
     ELSE IF Part = "registration" THEN \E u \in BOOLEAN, t \in BOOLEAN : r = [uri |-> u, token |-> t]
     ELSE \E o \in BOOLEAN, i \in {<<>>, <<"op">>, <<"op2">>}, c \in {<<>>, <<"client1">>, <<"client2">>},
             a \in {<<>>, << <<"client1">> >>, << <<"client2">> >>, << <<"client2", "client1">> >>, << <<"client12">> >>},
             d \in {<<>>, <<Good>>, << <<34>> \o Good >>, << Good \o <<10>> >>, << <<228>> >>, << <<92>> >>},
             ei \in {<<>>, <<"op">>}, ec \in {<<>>, <<"client1">>} :
           r = [oidc |-> o, iss |-> i, client |-> c, aud |-> a, desc |-> d, e |-> [iss |-> ei, client |-> ec]]
Next == Part = "response" /\ pc \notin {"accepted", "refused"} /\ pc' = QNext(pc, r) /\ UNCHANGED r
Spec == Init /\ [][Next]_vars
Agree == Part = "response" => (pc = "accepted" => ResponseOK(r)) /\ (pc = "refused" => ~ResponseOK(r))
NoExpectation == Part = "response" /\ pc = "refused" => r.e.iss # <<>> \/ r.e.client # <<>> \/ ~DescOK(r.desc)
Emit == CASE Part = "response" -> pc \in {"accepted", "refused"} => PrintT("@@" \o ToJson([r |-> r, res |-> pc]))
          [] Part = "chars" -> PrintT("@@" \o ToJson([r |-> r]))
          [] OTHER -> PrintT("@@" \o ToJson([r |-> r, res |-> IF BothOrNeither(r.uri, r.token) THEN "accepted" ELSE "refused"]))
=============================================================================
