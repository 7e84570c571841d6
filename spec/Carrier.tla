------------------------------ MODULE Carrier ------------------------------
(* Messages that carry an ID Token (or an ID Token hint).                                *)
(*   tok: [form, alg, signer, tamper, t, lacks, chash (opt), ahash (opt)]                *)
(*        form: jws | garbage | jwe | json | object;  t: claims as in IdToken;           *)
(*        lacks: a required claim left out ("" = none)                                   *)
(*        hashes are <<what was hashed, bits>>                                           *)
(*   p:   the caller's policy [none (opt), sigalg (opt), allowed (opt), jar]             *)
(*        jar: set of <<owner, key name>> or "absent"                                    *)
(*   e:   the caller's expectations, as in IdToken                                       *)
(*   m:   the message [tok (opt), code (opt), at (opt), entry]; entry: what is held      *)
(*        under the verified name, [k: none | injected | tok | any, tok (opt)]           *)
EXTENDS IdToken, FiniteSets
NoEntry == [k |-> "none", tok |-> <<>>]
AnyEntry == [k |-> "any", tok |-> <<>>]
TokEntry(tok) == [k |-> "tok", tok |-> <<tok>>]
Carriers == [
  tokenresp |-> [cls |-> "oidc.AccessTokenResponse", claim |-> "id_token", required |-> FALSE, hashes |-> FALSE],
  authzresp |-> [cls |-> "oidc.AuthorizationResponse", claim |-> "id_token", required |-> FALSE, hashes |-> TRUE],
  plain     |-> [cls |-> "oidc.MessageWithIdToken", claim |-> "id_token", required |-> TRUE, hashes |-> FALSE],
  refreshreq |-> [cls |-> "oidc.session.RefreshSessionRequest", claim |-> "id_token", required |-> TRUE, hashes |-> FALSE],
  refreshresp |-> [cls |-> "oidc.session.RefreshSessionResponse", claim |-> "id_token", required |-> TRUE, hashes |-> FALSE],
  check     |-> [cls |-> "oidc.session.CheckSessionRequest", claim |-> "id_token", required |-> TRUE, hashes |-> FALSE],
  endsession |-> [cls |-> "oidc.session.EndSessionRequest", claim |-> "id_token_hint", required |-> FALSE, hashes |-> FALSE]]
Bits(alg) == CASE alg \in {"RS256", "PS256", "ES256", "HS256"} -> 256
               [] alg \in {"RS384", "PS384", "ES384", "HS384"} -> 384
               [] OTHER -> 512

-----------------------------------------------------------------------------
(* The property. *)
Unsigned(tok) == tok.alg = "none"
UnsignedAllowed(p) == p.none = <<TRUE>> \/ p.sigalg = <<"none">>
AlgAllowed(tok, p) == /\ Given(p.sigalg) => p.sigalg[1] = tok.alg
                      /\ Given(p.allowed) => p.allowed[1] = tok.alg
IssuedBy(tok, p) == tok.t.iss \in {k[1] : k \in p.jar}
SignatureOK(tok, p) == <<tok.t.iss, tok.signer>> \in p.jar /\ tok.tamper = "no"
TokenOK(tok, p, e) ==
  /\ tok.form = "jws"
  /\ IF Unsigned(tok) THEN UnsignedAllowed(p)
     ELSE AlgAllowed(tok, p) /\ IssuedBy(tok, p) /\ SignatureOK(tok, p)
  /\ tok.lacks = "" /\ Fits(tok.t, e)
HashFits(h, val, alg) == Given(val) => Given(h) /\ h[1] = <<val[1], Bits(alg)>>
HashesOK(c, tok, m) == Carriers[c].hashes /\ ~Unsigned(tok) => HashFits(tok.chash, m.code, tok.alg) /\ HashFits(tok.ahash, m.at, tok.alg)
OK(c, m, p, e) == IF Given(m.tok) THEN TokenOK(m.tok[1], p, e) /\ HashesOK(c, m.tok[1], m)
                  ELSE ~Carriers[c].required
\* the caller's own arguments contradict each other, or the case cannot be verified at all: nothing is said
Open(tok, p) == tok.form = "jws" /\ Unsigned(tok) /\ UnsignedAllowed(p) /\
                  ((Given(p.sigalg) /\ p.sigalg # <<"none">>) \/ Given(p.allowed) \/ p.jar = {})
\* what the verified name holds after a successful verify(): the content of the token that is there
EntryAfter(m) == IF Given(m.tok) THEN TokEntry(m.tok[1]) ELSE NoEntry

-----------------------------------------------------------------------------
(* The procedure, stage by stage. *)
Refuse(st) == [st EXCEPT !.pc = "refused", !.m.entry = AnyEntry]
To(st, pc) == [st EXCEPT !.pc = pc]
Step(st, c, p, e) ==
  LET m == st.m tok == m.tok[1] IN
  CASE st.pc = "complete" -> IF Carriers[c].required /\ ~Given(m.tok) THEN Refuse(st) ELSE To(st, "clear")
    [] st.pc = "clear" -> IF Given(m.tok) THEN [st EXCEPT !.pc = "form", !.m.entry = NoEntry]
                          ELSE [st EXCEPT !.pc = "accepted", !.m.entry = NoEntry]
    [] st.pc = "form" -> IF tok.form = "jws" THEN To(st, "policy") ELSE Refuse(st)
    [] st.pc = "policy" ->
         IF Unsigned(tok) THEN (IF p.sigalg = <<"none">> \/ p.none = <<TRUE>> THEN To(st, "claims") ELSE Refuse(st))
         ELSE IF Given(p.allowed) /\ p.allowed[1] # tok.alg THEN Refuse(st) ELSE To(st, "issuer")
    [] st.pc = "issuer" -> IF \E k \in p.jar : k[1] = tok.t.iss THEN To(st, "signature") ELSE Refuse(st)
    [] st.pc = "signature" -> IF (Given(p.sigalg) => p.sigalg[1] = tok.alg) /\ tok.tamper = "no" /\
                                 (\E k \in p.jar : k[1] = tok.t.iss /\ k[2] = tok.signer)
                              THEN To(st, "claims") ELSE Refuse(st)
    [] st.pc = "claims" -> IF tok.lacks = "" /\ (\A i \in 1..(Len(Stages) - 1) : StageOK(Stages[i], tok.t, e))
                           THEN To(st, "hashes") ELSE Refuse(st)
    [] st.pc = "hashes" -> IF Carriers[c].hashes /\ ~Unsigned(tok) /\
                              ((Given(m.at) /\ (~Given(tok.ahash) \/ tok.ahash[1] # <<m.at[1], Bits(tok.alg)>>)) \/
                               (Given(m.code) /\ (~Given(tok.chash) \/ tok.chash[1] # <<m.code[1], Bits(tok.alg)>>)))
                           THEN Refuse(st) ELSE To(st, "store")
    [] st.pc = "store" -> [st EXCEPT !.pc = "accepted", !.m.entry = TokEntry(tok)]
Final(pc) == pc \in {"accepted", "refused"}
\* how an issuer binds a token to a code and an access token when it packs it
PackedHash(val, alg) == IF Given(val) THEN << <<val[1], Bits(alg)>> >> ELSE <<>>
=============================================================================
