----------------------------- MODULE CompleteMC -----------------------------
(* For every message type: a good minimal and a good full message, and every single      *)
(* defect of a required or an enumerated parameter.                                      *)
EXTENDS Complete, Json
VARIABLES case, phase, verdict
vars == <<case, phase, verdict>>

U == "https://example.com/a"
LO == "http://schemas.openid.net/event/backchannel-logout"
Over(c) ==
  CASE c \in {"oidc.AuthorizationRequest", "oidc.OpenIDRequest"} ->
         <<E("response_type", LS(<<"code">>)), E("scope", LS(<<"openid">>))>>
    [] c = "oidc.ProviderConfigurationResponse" ->
         <<E("issuer", S(U)), E("id_token_signing_alg_values_supported", LS(<<"ES256", "RS256">>)),
           E("response_types_supported", LS(<<"id_token">>)), E("scopes_supported", LS(<<"openid", "a">>))>>
    [] c = "session.LogoutToken" -> <<E("events", O(<<E(LO, O(<<>>))>>)), E("iat", I(1000000000)), E("sub", S("s"))>>
    [] c = "ida.IdDocument" -> <<E("type", S("id_document"))>>
    [] c = "ida.Evidence" -> <<E("type", S("id_document"))>>
    [] c = "ida.UtilityBill" -> <<E("type", S("utility_bill"))>>
    [] c = "ida.QES" -> <<E("type", S("qes"))>>
    [] c = "oidc.IdToken" -> <<E("exp", [t |-> "int", v |-> "4000000000"]), E("iat", [t |-> "int", v |-> "4000000000"])>>
    [] c \in {"oidc.JsonWebToken", "oidc.AuthnToken"} ->
         <<E("exp", [t |-> "int", v |-> "4000000000"]), E("iat", I(1000000000)), E("nbf", I(1000000000))>>
    [] OTHER -> <<>>
\* parameters that carry tokens or must not stand alone: left out of the full message
Left == {"id_token", "id_token_hint", "request", "request_uri", "post_logout_redirect_uri"}
\* no good message without a real token, or without the members of the specific kind
NoGood == {"oidc.MessageWithIdToken", "session.RefreshSessionRequest", "session.RefreshSessionResponse",
           "session.CheckSessionRequest", "session.BackChannelLogoutRequest", "ida.Evidence"}
RECURSIVE Sample(_, _), Minimal(_)
Sample(c, p) ==
  IF Has(Over(c), p[1]) THEN Val(Over(c), p[1])
  ELSE IF AllowedOf(c, p[1]) # <<>> THEN
     LET v == AllowedOf(c, p[1])[1][1] IN IF p[2] \in {"list", "splist"} THEN LS(<<v>>) ELSE [t |-> p[2], v |-> v]
  ELSE IF p[1] = "birthdate" THEN S("1990-01-31")
  ELSE CASE p[2] = "str" -> S(U)
         [] p[2] = "int" -> I(5)
         [] p[2] = "bool" -> B(FALSE)
         [] p[2] \in {"list", "splist"} -> LS(<<U>>)
         [] p[2] \in {"dict", "json"} -> O(<<E("k", S("v"))>>)
         [] p[2] = "msg" -> M(p[4], IF p[4] \in {"", "message.Message"} \/ Minimal(p[4]) = <<>> THEN <<E("zz", S("v"))>> ELSE Minimal(p[4]))
         [] p[2] = "msglist" -> L(<<M(p[4], IF p[4] \in {"", "message.Message"} \/ Minimal(p[4]) = <<>> THEN <<E("zz", S("v"))>> ELSE Minimal(p[4]))>>)
         [] p[2] = "idt" -> S("a.b.c")
         [] p[2] = "time" -> S("2020-01-01T00:00:00+0000")
Pick1(c, ok(_)) ==
  LET ps == Params(c)
      RECURSIVE Go(_)
      Go(i) == IF i > Len(ps) THEN <<>> ELSE (IF ok(ps[i]) THEN <<E(ps[i][1], Sample(c, ps[i]))>> ELSE <<>>) \o Go(i + 1)
  IN Go(1)
Minimal(c) == Pick1(c, LAMBDA p : p[3] \/ (Has(Over(c), p[1]) /\ p[1] \notin {"scopes_supported", "iat", "nbf"}))
Full(c) == Pick1(c, LAMBDA p : p[3] \/ p[1] \notin Left)

Del(es, n) == SelectSeq(es, LAMBDA e : e[1] # n)
Put(es, n, x) == Append(Del(es, n), E(n, x))
Empties == <<Null, S(""), L(<<>>), O(<<>>), M("message.Message", <<>>)>>
AllValues(n) ==     \* what any type enumerates for a parameter of this name
  UNION {LET a == AllowedOf(c, n) IN IF a = <<>> THEN {} ELSE {a[1][i] : i \in 1..Len(a[1])} : c \in ClassNames}
Odd == {"zz", "Public", "none ", "invalid_reques", "invalid_requestX", "0", "page popup", "page", "web", "invalid_grant", "three", "30"}
ListLike(p) == p[2] \in {"list", "splist"}
Wrap(p, v) == IF ListLike(p) THEN LS(<<v>>) ELSE IF p[2] = "int" THEN [t |-> "int", v |-> IF v \in {"1", "2", "30", "0"} THEN v ELSE "77"] ELSE S(v)
ErrorClasses == {c \in ClassNames : "error" \in ParamNames(c)}

Init == /\ \E c \in ClassNames : case = [cls |-> c]
        /\ phase = "pick" /\ verdict = ""
Bases(c) == <<Minimal(c), Full(c)>>
Pick ==
  /\ phase = "pick" /\ phase' = "in" /\ UNCHANGED verdict
  /\ LET c == case.cls
         ps == Params(c)
         C(es, g, d) == [cls |-> c, es |-> es, good |-> g /\ c \notin NoGood, defect |-> d]
     IN \E b \in 1..2 : LET es == Bases(c)[b] IN
        \/ case' = C(es, TRUE, "none")
        \/ case' = C(Append(es, E("xtra", S("v"))), TRUE, "extra")
        \/ case' = C(es \o <<E("xtra", I(0)), E("redirect_uri#de", S("x")), E("zz9", L(<<>>))>>, TRUE, "extra")
        \/ /\ c = "device.AccessTokenRequest"
           /\ \E n \in {"client_id", "client_secret", "grant_type"}, x \in {S("dc"), LS(<<"d">>)} :
                \/ case' = C(Append(Put(es, "client_id", S("c1")), E("device_code", x)), TRUE, "extra")
                \/ case' = C(Append(Del(es, n), E("device_code", x)), n = "client_secret" /\ Has(es, "client_id"), "extra")
        \/ \E i \in 1..Len(ps) : ps[i][3] /\ case' = C(Del(es, ps[i][1]), FALSE, "absent")
        \/ \E i \in 1..Len(ps), j \in 1..Len(Empties) : ps[i][3] /\ case' = C(Put(es, ps[i][1], Empties[j]), FALSE, "empty")
        \/ \E i, j \in 1..Len(ps) : i < j /\ ps[i][3] /\ ps[j][3] /\ case' = C(Del(Del(es, ps[i][1]), ps[j][1]), FALSE, "absent")
        \/ \E i \in 1..Len(ps) : AllValues(ps[i][1]) # {} /\
             \E v \in AllValues(ps[i][1]) \cup Odd :
                LET ok == AllowedOf(c, ps[i][1]) = <<>> \/ ~Outside(Wrap(ps[i], v), AllowedOf(c, ps[i][1])[1]) IN
                \/ case' = C(Put(es, ps[i][1], Wrap(ps[i], v)), ok, "value")
                \/ ListLike(ps[i]) /\ AllowedOf(c, ps[i][1]) # <<>> /\
                   LET g == AllowedOf(c, ps[i][1])[1][2] IN \E l \in {<<g, v>>, <<v, g>>, <<g, v, g>>} :
                     case' = C(Put(es, ps[i][1], LS(l)), FALSE, "value")
        \/ \E i, j \in 1..Len(ps) : ps[i][3] /\ i # j /\ AllowedOf(c, ps[j][1]) # <<>>
              /\ case' = C(Put(Del(es, ps[i][1]), ps[j][1], Wrap(ps[j], "zz")), FALSE, "both")
Check == phase = "in" /\ phase' = "out" /\ case' = case /\ verdict' = Walk(case.cls, case.es, 1)
Next == Pick \/ Check
Spec1 == Init /\ [][Next]_vars
\* the walk does what the statement says
WalkOK == phase = "out" => LET cs == VClauses(case.cls, case.es, FALSE, verdict) IN \A i \in 1..Len(cs) : cs[i][2]
\* good messages are good
GoodOK == phase = "in" /\ case.good => Missing(case.cls, case.es) = {} /\ NotAllowed(case.cls, case.es) = {}
Emit == phase = "in" => PrintT("@@" \o ToJson(case))
=============================================================================
