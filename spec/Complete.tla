------------------------------ MODULE Complete ------------------------------
(* What verify() says about completeness and enumerated values, and which messages can   *)
(* be URL-encoded.  The walk over the parameter table is the algorithm; Missing and       *)
(* NotAllowed are what it has to come down to.                                           *)
EXTENDS Codec

Params(c) == Class(c).params
AllowedOf(c, n) ==
  LET a == Class(c).allowed
      ix == {i \in 1..Len(a) : a[i][1] = n}
  IN IF ix = {} THEN <<>> ELSE <<a[CHOOSE i \in ix : TRUE][2]>>
InSeq(x, xs) == \E i \in 1..Len(xs) : xs[i] = x

\* an empty value is no value; 0 is left open, false is a value
Empty(x) == x.t = "null" \/ (x.t = "str" /\ x.v = "") \/ (x.t \in {"list", "obj", "msg"} /\ Len(x.v) = 0)
Zero(x) == x.t \in {"int", "float"} /\ x.v \in {"0", "0.0", "-0.0"}

Missing(c, es) ==
  {Params(c)[i][1] : i \in {j \in 1..Len(Params(c)) :
     Params(c)[j][3] /\ (~Has(es, Params(c)[j][1]) \/ Empty(Val(es, Params(c)[j][1])))}}
Open(c, es) == \E i \in 1..Len(Params(c)) : Has(es, Params(c)[i][1]) /\ Zero(Val(es, Params(c)[i][1]))
Outside(x, xs) ==
  CASE x.t = "list" -> \E i \in 1..Len(x.v) : x.v[i].t # "str" \/ ~InSeq(x.v[i].v, xs)
    [] x.t \in {"str", "int"} -> ~InSeq(x.v, xs)
    [] OTHER -> FALSE
NotAllowed(c, es) ==
  {Params(c)[i][1] : i \in {j \in 1..Len(Params(c)) :
     LET n == Params(c)[j][1] IN
       /\ Has(es, n) /\ ~Empty(Val(es, n)) /\ AllowedOf(c, n) # <<>>
       /\ Outside(Val(es, n), AllowedOf(c, n)[1])}}

(* Types with rules of their own, and the parameters that call on them. *)
Always == {"oidc.AuthorizationRequest", "oidc.OpenIDRequest", "oidc.IdToken", "oidc.ProviderConfigurationResponse",
           "oidc.JsonWebToken", "oidc.AuthnToken", "oidc.MessageWithIdToken", "session.RefreshSessionRequest",
           "session.RefreshSessionResponse", "session.CheckSessionRequest", "session.LogoutToken",
           "session.BackChannelLogoutRequest", "ida.Evidence", "ida.IdDocument", "ida.UtilityBill", "ida.QES",
           "ida.VerificationElementRequest", "ida.VerifiedClaimsRequest", "ida.IDAClaimsRequest",
           "oauth2.JWTSecuredAuthorizationRequest"}
Triggers == {"error_description", "birthdate", "id_token", "id_token_hint", "request", "initiate_login_uri",
             "request_object_encryption_enc", "id_token_encrypted_response_enc", "userinfo_encrypted_response_enc",
             "token_endpoint_auth_signing_alg", "registration_access_token", "registration_client_uri",
             "post_logout_redirect_uri", "verified_claims"}
\* a device access token request names its client
DeviceLacks(c, es) == c = "device.AccessTokenRequest" /\ Has(es, "device_code") /\ ~Empty(Val(es, "device_code"))
                      /\ (~Has(es, "client_id") \/ Empty(Val(es, "client_id")))
RuleFree(c, es) ==
  /\ c \notin Always
  /\ ~DeviceLacks(c, es)
  /\ \A i \in 1..Len(es) : es[i][2] \notin Triggers
  /\ \A i \in 1..Len(es) : es[i][3].t # "null"

\* a request that only refers to its parameters is checked elsewhere
Generic(c) == c # "oauth2.JWTSecuredAuthorizationRequest"

(* The algorithm: the table in order, stopping at the first fault. *)
RECURSIVE Walk(_, _, _)
Walk(c, es, i) ==
  IF i > Len(Params(c)) THEN (IF DeviceLacks(c, es) THEN "missing" ELSE "true")
  ELSE LET p == Params(c)[i] IN
    IF ~Has(es, p[1]) THEN IF p[3] THEN "missing" ELSE Walk(c, es, i + 1)
    ELSE LET x == Val(es, p[1]) IN
      IF Empty(x) THEN IF p[3] THEN "missing" ELSE Walk(c, es, i + 1)
      ELSE IF AllowedOf(c, p[1]) # <<>> /\ Outside(x, AllowedOf(c, p[1])[1]) THEN "notallowed"
      ELSE Walk(c, es, i + 1)

\* o: true false missing notallowed other;  good: the message keeps the rules of its type
VClauses(c, es, good, o) ==
  IF ~Generic(c) \/ Open(c, es) THEN <<>>
  ELSE LET ms == Missing(c, es)
           na == NotAllowed(c, es)
       IN << <<"a missing required parameter is reported", ms # {} /\ na = {} => o = "missing">>,
             <<"a value outside its set is reported", na # {} /\ ms = {} => o = "notallowed">>,
             <<"an incomplete message with wrong values is refused", na # {} /\ ms # {} => o \in {"missing", "notallowed"}>>,
             <<"a device access token request without a client is reported", ms = {} /\ na = {} /\ DeviceLacks(c, es) => o = "missing">>,
             <<"a complete message with permitted values is accepted",
               ms = {} /\ na = {} /\ (good \/ RuleFree(c, es)) => o = "true">> >>

(* URL encoding. *)
Absent(c, es) == {Params(c)[i][1] : i \in {j \in 1..Len(Params(c)) : Params(c)[j][3] /\ ~Has(es, Params(c)[j][1])}}
NullRequired(c, es) ==
  {Params(c)[i][1] : i \in {j \in 1..Len(Params(c)) :
     Params(c)[j][3] /\ Has(es, Params(c)[j][1]) /\ Val(es, Params(c)[j][1]).t = "null"}}
NullList(c, e) == LET b == IF e[1] \in ParamNames(c) THEN e[1] ELSE e[2]
                  IN b \in ParamNames(c) /\ Spec(c, b)[4] = "ida.Evidence"
OnWire(c, es) == {es[i][1] : i \in {j \in 1..Len(es) : es[j][3].t # "null"}}
NoWire(c, es) == {es[i][1] : i \in {j \in 1..Len(es) : es[j][3].t = "null" /\ ~NullList(c, es[j])}}
\* o: [r |-> "missing"], [r |-> "err"], [r |-> "ok", names |-> sequence of names on the wire]
UClauses(c, es, lax, o) ==
  << <<"an incomplete message is not encoded", ~lax /\ Absent(c, es) # {} => o.r \in {"missing", "err"}>>,
     <<"a complete or lax message is encoded", lax \/ (Absent(c, es) = {} /\ NullRequired(c, es) = {}) => o.r = "ok">>,
     <<"every set parameter is on the wire", o.r = "ok" => \A n \in OnWire(c, es) : InSeq(n, o.names)>>,
     <<"nothing else is on the wire", o.r = "ok" => \A i \in 1..Len(o.names) : Has(es, o.names[i])>>,
     <<"null is not on the wire", o.r = "ok" => \A n \in NoWire(c, es) : ~InSeq(n, o.names)>> >>

\* blank values create no parameter: es is what came in, held the names afterwards
BlankTree(x) == (x.t = "str" /\ x.v = "") \/ (x.t = "list" /\ Len(x.v) = 1 /\ x.v[1].t = "str" /\ x.v[1].v = "")
BClauses(es, held) ==
  << <<"a blank value creates no parameter", \A i \in 1..Len(es) : BlankTree(es[i][3]) => ~InSeq(es[i][1], held)>>,
     <<"other values create one", \A i \in 1..Len(es) : ~BlankTree(es[i][3]) => InSeq(es[i][1], held)>> >>
=============================================================================
