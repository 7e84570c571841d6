----------------------------- MODULE MetadataMC -----------------------------
EXTENDS Metadata, TLC, Json
CONSTANT Part
VARIABLES x, pc
vars == <<x, pc>>
Sc == {<<>>, << <<OpenidScope>> >>, << <<OpenidScope, <<101>> >> >>, << << <<101>> >> >>, << << <<101>>, OpenidScope, <<97, 92>> >> >>,
       << << <<34, 98>>, OpenidScope>> >>, << << <<33>>, OpenidScope>> >>, << <<OpenidScope \o <<50>> >> >>, << <<OpenidScope, <<233>> >> >>}
Pairs == {"none", "alg", "enc", "both"}
Init ==
  /\ pc = "scopes"
  /\ CASE Part = "provider" ->
          \E s \in {"https", "http", "ftp"}, q \in BOOLEAN, f \in BOOLEAN, h \in {<<>>, <<TRUE>>, <<FALSE>>}, t \in BOOLEAN, sc \in Sc,
             al \in {<<"RS256">>, <<"ES256", "RS256">>, <<"ES256">>, <<"RS2567">>, <<"none">>},
             ty \in {<<"code">>, <<"id_token">>, <<"id_token", "code id_token">>, <<"token", "id_token token">>, <<"code id_token token">>, <<"id_token code">>, <<"token", "id_token token code">>} :
               x = [scheme |-> s, query |-> q, fragment |-> f, http |-> h, algs |-> al, scopes |-> sc, types |-> ty, token |-> t]
       [] Part = "client" ->
          \E l \in {<<>>, <<"https">>, <<"http">>, <<"httpss">>, <<"com.example">>}, a \in {<<>>, <<"none">>, <<"RS256">>, <<"HS256">>, <<"None">>},
             ro \in Pairs, idt \in Pairs, ui \in Pairs : x = [login |-> l, authalg |-> a, ro |-> ro, idt |-> idt, ui |-> ui]
       [] Part = "chars" -> x = ScopeChars
       [] OTHER -> \/ \E y \in {0, 1, 4, 1900, 1999, 2000, 2023, 2024, 2100, 9999}, m \in 0..13, d \in 0..32 : x = [form |-> "date", y |-> y, m |-> m, d |-> d]
                   \/ \E y \in 0..9999 : x = [form |-> "year", y |-> y, m |-> 0, d |-> 0]
Next == Part = "provider" /\ pc \notin {"accepted", "refused"} /\ pc' = PNext(pc, x) /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
Agree == Part = "provider" => (pc = "accepted" => ProviderOK(x)) /\ (pc = "refused" => ~ProviderOK(x))
NeverAlone == Part = "client" /\ ClientOK(x) => \A k \in {x.ro, x.idt, x.ui} : (EncAfter(k) # <<>>) <=> (k \in {"alg", "both"})
Res(b) == IF b THEN "accepted" ELSE "refused"
Emit == CASE Part = "provider" -> pc \in {"accepted", "refused"} => PrintT("@@" \o ToJson([x |-> x, res |-> pc]))
          [] Part = "client" -> PrintT("@@" \o ToJson([x |-> x, res |-> Res(ClientOK(x)), enc |-> <<EncAfter(x.ro), EncAfter(x.idt), EncAfter(x.ui)>>]))
          [] Part = "chars" -> PrintT("@@" \o ToJson([x |-> x]))
          [] OTHER -> PrintT("@@" \o ToJson([x |-> x, res |-> Res(BirthOK(x))]))
=============================================================================
