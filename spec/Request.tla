------------------------------ MODULE Request ------------------------------
(* Authorization requests, with and without a request object.                            *)
(*   r: [kind, outer, obj (opt), hint (opt), e]                                          *)
(*     kind: oidc | jar | par;  outer: parameter -> sequence of strings                  *)
(*     obj: [alg, signer, tamper, iss (opt), params];  a request object is present iff   *)
(*          "request" is a parameter of outer                                            *)
(*     hint: what the value "<hint>" of id_token_hint stands for                         *)
(*          [form, alg, signer, tamper, iss]                                             *)
(*     e: [opponent (opt), nonce (opt), none, jar]   jar: set of <<owner, key name>>     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Given(o) == Len(o) = 1
In(x, xs) == \E i \in 1..Len(xs) : xs[i] = x
Dom(f) == IF f = <<>> THEN {} ELSE DOMAIN f
Has(f, k) == k \in Dom(f)
HasVal(f, k, v) == Has(f, k) /\ In(v, f[k])
Null == <<"<null>">>        \* there, but without a value
Holds(f, k) == Has(f, k) /\ f[k] # Null
Without(f, ks) == [k \in Dom(f) \ ks |-> f[k]]
Only(f, ks) == [k \in Dom(f) \cap ks |-> f[k]]
Over(new, old) == [k \in Dom(new) \cup Dom(old) |-> IF k \in Dom(new) THEN new[k] ELSE old[k]]

Displays == {"page", "popup", "touch", "wap"}
Prompts == {"none", "login", "consent", "select_account"}
RequiredOf(kind) == {"client_id", "response_type"} \cup (IF kind = "oidc" THEN {"scope", "redirect_uri"} ELSE {})

-----------------------------------------------------------------------------
(* C15: merging. *)
Merged(mode, outer, obj, list) ==
  CASE mode = "strict" -> obj
    [] mode = "lax" -> Over(obj, outer)
    [] mode = "whitelist" -> Over(obj, Only(outer, list))
ModeOf(kind) == IF kind = "par" THEN "lax" ELSE "strict"
ObjParams(o) == IF Given(o.iss) THEN Over([iss |-> o.iss], o.params) ELSE o.params
Effective(r) == IF Given(r.obj) THEN Merged(ModeOf(r.kind), r.outer, ObjParams(r.obj[1]), {}) ELSE r.outer
Hmac(alg) == alg \in {"HS256", "HS384", "HS512"}
SignedBy(alg, iss, signer, tamper, jar) ==
  /\ tamper = "no"
  /\ \/ iss # "" /\ <<iss, signer>> \in jar
     \/ iss # "" /\ Hmac(alg) /\ <<"", signer>> \in jar /\ (\E k \in jar : k[1] = iss)
     \/ iss = "" /\ <<"", signer>> \in jar
ObjectSigned(o, e) == o.alg = "none" \/ SignedBy(o.alg, IF Given(o.iss) THEN o.iss[1] ELSE "", o.signer, o.tamper, e.jar)
\* who has to have issued it
Expected(r) == IF Given(r.e.opponent) THEN r.e.opponent
               ELSE IF Has(r.obj[1].params, "client_id") THEN r.obj[1].params["client_id"]
               ELSE IF Has(r.outer, "client_id") THEN r.outer["client_id"] ELSE <<>>
ObjectIssuer(r) == Given(r.obj[1].iss) => r.obj[1].iss = Expected(r)
ObjectOK(r) == Given(r.obj) => ObjectSigned(r.obj[1], r.e) /\ ObjectIssuer(r)
Complete(kind, f) == RequiredOf(kind) \subseteq Dom(f)
HintThere(r) == r.kind = "oidc" /\ HasVal(Effective(r), "id_token_hint", "<hint>")
HintOK(r) == HintThere(r) => LET h == r.hint[1] IN
   h.form = "jws" /\ IF h.alg = "none" THEN r.e.none ELSE SignedBy(h.alg, h.iss, h.signer, h.tamper, r.e.jar)

(* C16: the rules for OpenID Connect requests, over the effective parameters. *)
ScopeOK(f) == HasVal(f, "scope", "openid")
NonceOK(f, e) == HasVal(f, "response_type", "id_token") => Holds(f, "nonce") /\ (Given(e.nonce) => f["nonce"] = e.nonce)
OfflineOK(f) == HasVal(f, "scope", "offline_access") => HasVal(f, "prompt", "consent")
PromptAlone(f) == HasVal(f, "prompt", "none") => Len(f["prompt"]) = 1
ValuesOK(f) == (Has(f, "prompt") => \A i \in 1..Len(f["prompt"]) : f["prompt"][i] \in Prompts)
            /\ (Has(f, "display") => f["display"][1] \in Displays)
OidcRules(f, e) == ScopeOK(f) /\ NonceOK(f, e) /\ OfflineOK(f) /\ PromptAlone(f) /\ ValuesOK(f)

ByReference(r) == r.kind = "jar" /\ ~Given(r.obj) /\ Has(r.outer, "request_uri")
Present(r) == r.kind = "jar" => Given(r.obj) \/ Has(r.outer, "request_uri")
RequestOK(r) == LET f == Effective(r) IN
  /\ Present(r) /\ ObjectOK(r) /\ Complete(r.kind, f) /\ HintOK(r)
  /\ r.kind = "oidc" => OidcRules(f, r.e)
\* nothing is said about plain parameters that do not make a request of their own, nor about a request that is somewhere else
OpenRequest(r) == \/ r.kind = "oidc" /\ Given(r.obj) /\ (~Complete("oidc", r.outer) \/ ~ValuesOK(r.outer))
                  \/ ByReference(r)
\* what a verified request is: its parameters and the verified copies
After(r) == [params |-> Effective(r), request |-> IF Given(r.obj) THEN <<ObjParams(r.obj[1])>> ELSE <<>>,
             hint |-> HintThere(r)]

-----------------------------------------------------------------------------
(* The procedure.  st: [pc, msg, request (opt), hint] *)
StartAt(r) == [pc |-> IF r.kind = "oidc" THEN "outer" ELSE "object", msg |-> r.outer, request |-> <<>>, hint |-> FALSE]
Go(st, pc) == [st EXCEPT !.pc = pc]
RStep(st, r) ==
  LET m == st.msg IN
  CASE st.pc = "outer" -> IF \A k \in RequiredOf("oidc") : k \in Dom(m) THEN Go(st, "object") ELSE Go(st, "refused")
    [] st.pc = "object" -> IF "request" \notin Dom(m) THEN Go(st, IF r.kind = "jar" THEN "refused" ELSE "again") ELSE Go(st, "signature")
    [] st.pc = "signature" -> IF r.obj[1].alg = "none" THEN Go(st, "issuer")
                              ELSE LET owner == IF r.obj[1].iss = <<>> THEN "" ELSE r.obj[1].iss[1]
                                       keys == {k[2] : k \in {x \in r.e.jar : x[1] = owner}} \cup
                                               (IF Hmac(r.obj[1].alg) /\ {x \in r.e.jar : x[1] = owner} # {} THEN {k[2] : k \in {x \in r.e.jar : x[1] = ""}} ELSE {})
                                   IN IF r.obj[1].signer \in keys /\ r.obj[1].tamper = "no" THEN Go(st, "issuer") ELSE Go(st, "refused")
    [] st.pc = "issuer" -> IF r.obj[1].iss # <<>> /\ r.obj[1].iss # Expected(r) THEN Go(st, "refused") ELSE Go(st, "merge")
    [] st.pc = "merge" -> [st EXCEPT !.pc = "again", !.request = <<ObjParams(r.obj[1])>>,
                                     !.msg = IF r.kind = "par" THEN Over(ObjParams(r.obj[1]), @)
                                             ELSE Over(ObjParams(r.obj[1]), Without(@, Dom(@) \ Dom(ObjParams(r.obj[1]))))]
    [] st.pc = "again" -> IF RequiredOf(r.kind) \ Dom(m) # {} THEN Go(st, "refused")
                          ELSE IF r.kind # "oidc" THEN Go(st, "accepted")
                          ELSE IF ~ValuesOK(m) THEN Go(st, "refused") ELSE Go(st, "hint")
    [] st.pc = "hint" -> IF "id_token_hint" \notin Dom(m) THEN Go(st, "nonce")
                         ELSE IF HintOK(r) THEN [st EXCEPT !.pc = "nonce", !.hint = TRUE] ELSE Go(st, "refused")
    [] st.pc = "nonce" -> IF In("id_token", m["response_type"]) /\ ("nonce" \notin Dom(m) \/ m["nonce"] = Null \/ (r.e.nonce # <<>> /\ r.e.nonce # m["nonce"]))
                          THEN Go(st, "refused") ELSE Go(st, "scope")
    [] st.pc = "scope" -> IF ~In("openid", m["scope"]) THEN Go(st, "refused")
                          ELSE IF In("offline_access", m["scope"]) /\ ~("prompt" \in Dom(m) /\ In("consent", m["prompt"])) THEN Go(st, "refused")
                          ELSE Go(st, "prompt")
    [] st.pc = "prompt" -> IF "prompt" \in Dom(m) /\ In("none", m["prompt"]) /\ Len(m["prompt"]) > 1 THEN Go(st, "refused") ELSE Go(st, "accepted")
RFinal(pc) == pc \in {"accepted", "refused"}
=============================================================================
