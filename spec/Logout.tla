------------------------------- MODULE Logout -------------------------------
(* Logout tokens, back-channel logout requests and end-session requests.                 *)
(*   t: [lacks, nonce, events, sub, sid, aud, iss, iat]  events is a symbol, see Events  *)
(*   e: [aud (opt), iss (opt), skew (opt), allowed (opt)]                                *)
(*   alg: the algorithm of the JWT the token was read from, <<>> if none                 *)
EXTENDS Carrier
Events == {"exact", "none", "other", "two", "content", "list", "null", "text", "similar", "notobject"}
NoNonce(t) == ~t.nonce
EventsOK(t) == t.events = "exact"
SubjectNamed(t) == t.sub \/ t.sid
AudOK(t, e) == Given(e.aud) => In(e.aud[1], t.aud)
IssOK(t, e) == Given(e.iss) => e.iss[1] = t.iss
NotFuture(t, e) == t.iat <= Or(e.skew, 0)
AlgOK(alg, e) == Given(e.allowed) => alg = e.allowed
LogoutTokenOK(t, e, alg) ==
  t.lacks = "" /\ NoNonce(t) /\ EventsOK(t) /\ SubjectNamed(t) /\ AudOK(t, e) /\ IssOK(t, e) /\ NotFuture(t, e) /\ AlgOK(alg, e)

\* r: [form: jws | garbage | json | jwejson, alg, signer, tamper]
LogoutRequestOK(r, t, p, e) ==
  /\ r.form = "jws"
  /\ IF r.alg = "none" THEN UnsignedAllowed(p)
     ELSE /\ Given(p.sigalg) => p.sigalg[1] = r.alg
          /\ <<t.iss, r.signer>> \in p.jar /\ r.tamper = "no"
  /\ LogoutTokenOK(t, e, <<r.alg>>)
LogoutOpen(r, p) == r.form = "jws" /\ r.alg = "none" /\ UnsignedAllowed(p) /\ (p.jar = {} \/ (Given(p.sigalg) /\ p.sigalg # <<"none">>))

EndSessionOK(uri, hint, p, e) == (uri => Given(hint)) /\ (Given(hint) => TokenOK(hint[1], p, e))

(* The procedure for a logout token. *)
LStages == <<"required", "nonce", "events", "subject", "audience", "issuer", "time", "algorithm", "accepted">>
LStageOK(s, t, e, alg) ==
  CASE s = "required" -> t.lacks = "" /\ t.events # "none" /\ t.events # "notobject"
    [] s = "nonce" -> t.nonce = FALSE
    [] s = "events" -> t.events \notin (Events \ {"exact"})
    [] s = "subject" -> ~(~t.sub /\ ~t.sid)
    [] s = "audience" -> e.aud = <<>> \/ In(e.aud[1], t.aud)
    [] s = "issuer" -> e.iss = <<>> \/ e.iss[1] = t.iss
    [] s = "time" -> ~(t.iat > 0 + Or(e.skew, 0))
    [] s = "algorithm" -> e.allowed = <<>> \/ (alg # <<>> /\ alg[1] = e.allowed[1])
LNext(s, t, e, alg) == IF LStageOK(s, t, e, alg) THEN LStages[(CHOOSE i \in 1..Len(LStages) : LStages[i] = s) + 1] ELSE "refused"
=============================================================================
