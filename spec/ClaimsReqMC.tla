----------------------------- MODULE ClaimsReqMC -----------------------------
EXTENDS ClaimsReq, TLC, Json, SequencesExt
CONSTANT Part
VARIABLES x, info, done
vars == <<x, info, done>>
Opt(S) == {<<>>} \cup {<<e>> : e \in S}
JT == {"str", "int", "bool", "null", "list", "dict"}
Purposes == {[kind |-> "str", len |-> n, legal |-> l] : n \in {0, 2, 3, 300, 301}, l \in BOOLEAN} \cup {[kind |-> "null", len |-> 0, legal |-> TRUE], [kind |-> "other", len |-> 5, legal |-> TRUE]}
IC(e, v, vs, p) == <<[ess |-> e, value |-> v, values |-> vs, purpose |-> p]>>
ICs == {<<>>} \cup {IC(e, <<>>, <<>>, p) : e \in Opt({"true", "false", "null", "other"}), p \in Opt(Purposes)}
       \cup {IC(e, v, vs, <<>>) : e \in Opt({"true"}), v \in Opt(JT), vs \in Opt({<<>>, <<"str">>, <<"int">>, <<"bool">>, <<"str", "int">>, <<"bool", "bool">>, <<"int", "int", "str">>})}
Fine == IC(<<"true">>, <<>>, <<>>, <<[kind |-> "str", len |-> 3, legal |-> TRUE]>>)
Wrong == {IC(<<"other">>, <<>>, <<>>, <<>>), IC(<<>>, <<"dict">>, <<>>, <<>>), IC(<<>>, <<>>, << <<"list">> >>, <<>>), IC(<<>>, <<>>, <<>>, <<[kind |-> "str", len |-> 2, legal |-> TRUE]>>)}
AllPaths == {<<"claims", c>> : c \in StrClaims \cup BoolClaims \cup IntClaims} \cup {<<"claims", "address", c>> : c \in AddressParts}
            \cup {<<"verification", c>> : c \in VerificationParts} \cup {<<"verification", "evidence", n, "type">> : n \in {"1", "2"}}
OwnPaths == {<<"own", k, n>> : k \in {"names", "numbers", "flags"}, n \in {"1", "2"}} \cup {<<"own", "deep", "1", "inner", k>> : k \in {"flag", "name", "number", "x"}}
            \cup {<<"own", "deep", "2", "inner", "flag">>} \cup {<<"own", "one", k>> : k \in {"flag", "name", "number"}}
FewPaths == {<<"claims", "given_name">>, <<"claims", "email_verified">>, <<"claims", "updated_at">>, <<"claims", "address", "region">>, <<"verification", "time">>, <<"verification", "evidence", "1", "type">>}
Keys == {"given_name", "updated_at", "email_verified", "address", "x_other"}
Vals == {[kind |-> k, n |-> i] : k \in {"null", "str", "int", "bool", "dict", "list", "AddressClaim", "Provider", "Verifier"}, i \in {1}} \cup {[kind |-> "str", n |-> 2], [kind |-> "int", n |-> 0], [kind |-> "str", n |-> 0]}
Vs == 1..4
Init ==
  /\ info = <<>> /\ done = FALSE
  /\ CASE Part = "match" -> \E v \in Vs : \E q \in {<<>>} \cup {<<[ess |-> e, value |-> w, values |-> vs]>> : e \in Opt({"true", "false", "null"}), w \in Opt(Vs),
                                                     vs \in Opt({<<>>, <<1>>, <<2, 1>>, <<3, 2, 4>>, <<4>>})} :
                               /\ x = [v |-> v, q |-> q] /\ (q # <<>> => \E f \in {"ess", "value", "values"} : q[1][f] # <<>>)
       [] Part = "request" -> \/ \E p \in FewPaths, ic \in ICs : x = <<[at |-> p, ic |-> ic]>>
                              \/ \E p \in AllPaths, ic \in Wrong \cup {<<>>, Fine} : x = <<[at |-> p, ic |-> ic]>>
                              \/ \E p \in FewPaths, q \in FewPaths, i \in Wrong \cup {<<>>, Fine}, j \in {<<>>, Fine} \cup Wrong : p # q /\ x = <<[at |-> p, ic |-> i], [at |-> q, ic |-> j]>>
                              \/ \E p \in OwnPaths, ic \in Wrong \cup {<<>>, Fine} \cup {IC(<<>>, v, <<>>, <<>>) : v \in Opt(JT)} : x = <<[at |-> p, ic |-> ic]>>
                              \/ \E p \in OwnPaths, q \in OwnPaths, i \in {<<>>, Fine}, j \in Wrong : p # q /\ x = <<[at |-> p, ic |-> i], [at |-> q, ic |-> j]>>
       [] Part = "evidence" -> \E c \in {"Evidence"} \cup Kinds, t \in Opt(Kinds \cup {"passport"}), h \in SUBSET {"method", "verifier", "time", "document", "provider", "date", "issuer", "serial_number", "created_at"} :
                                 /\ (c # "Evidence" => t = <<c>>)
                                 /\ x = [class |-> c, type |-> t, has |-> SetToSeq(h)]
       [] OTHER -> x = <<>>
Next == Part = "builder" /\ Len(x) < 3 /\ \E k \in Keys, v \in Vals : (Len(x) = 2 => k = x[1].key \/ k = x[2].key) /\ x' = Append(x, [key |-> k, v |-> v])
         /\ info' = Append(info, FitsBuilder(k, v)) /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
WalkAgrees == Part = "request" => (Walk(x, 1, 1) = "accepted") <=> RequestOK(x)
\* whatever was accepted last for a claim is what the builder holds
LastWins == Part = "builder" => \A k \in DOMAIN Built(x) : LET is == {i \in 1..Len(x) : x[i].key = k /\ info[i]} IN is # {} /\ Built(x)[k] = x[CHOOSE i \in is : \A j \in is : j <= i].v
Null == Part = "match" => (x.q = <<>> => Matches(x.v, x.q))
Res(b) == IF b THEN "accepted" ELSE "refused"
Emit == CASE Part = "match" -> PrintT("@@" \o ToJson([x |-> x, res |-> Matches(x.v, x.q)]))
          [] Part = "request" -> PrintT("@@" \o ToJson([x |-> x, res |-> Res(RequestOK(x))]))
          [] Part = "evidence" -> PrintT("@@" \o ToJson([x |-> x, res |-> IF EvidenceOpen(x) THEN "open" ELSE Res(EvidenceOK(x)), type |-> IF EvidenceOK(x) THEN TypeAfter(x) ELSE ""]))
          [] OTHER -> x # <<>> => PrintT("@@" \o ToJson([x |-> x, ok |-> info, has |-> LET b == Built(x) IN {[key |-> k, v |-> b[k]] : k \in DOMAIN b}]))
=============================================================================
