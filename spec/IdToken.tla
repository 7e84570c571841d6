------------------------------ MODULE IdToken ------------------------------
(* When does an ID Token fit what its receiver expects?                                  *)
(* Optional values are sequences of length 0 or 1.  All times are seconds relative to    *)
(* the whole second in which the token is looked at.                                     *)
(*   t: [iss, aud (sequence), azp (opt), exp, iat, nonce (opt)]                          *)
(*   e: [iss, client, skew, storage, nonce] all optional                                 *)
EXTENDS Integers, Sequences
Or(o, d) == IF o = <<>> THEN d ELSE o[1]
In(x, xs) == \E i \in 1..Len(xs) : xs[i] = x
Given(o) == Len(o) = 1
DefaultStorage == 4 * 3600
Earliest(e) == 0 - Or(e.skew, 0)          \* now minus the allowed skew

(* The property, rule by rule, in no particular order. *)
IssuerFits(t, e) == Given(e.iss) => t.iss = e.iss[1]
AudienceFits(t, e) == Given(e.client) => In(e.client[1], t.aud)
AzpPresent(t) == Len(t.aud) > 1 => Given(t.azp) /\ In(t.azp[1], t.aud)
AzpFits(t, e) == Given(t.azp) /\ Given(e.client) => t.azp[1] = e.client[1]
NotExpired(t, e) == t.exp >= Earliest(e)
IssuedRecently(t, e) == t.iat + Or(e.storage, DefaultStorage) >= Earliest(e)
NonceFits(t, e) == Given(e.nonce) /\ Given(t.nonce) => t.nonce[1] = e.nonce[1]
Fits(t, e) == /\ IssuerFits(t, e) /\ AudienceFits(t, e) /\ AzpPresent(t) /\ AzpFits(t, e)
              /\ NotExpired(t, e) /\ IssuedRecently(t, e) /\ NonceFits(t, e)

(* The checking procedure: one step per stage, as the library does it. *)
Stages == <<"issuer", "audience", "azp", "window", "nonce", "accepted">>
StageOK(s, t, e) ==
  CASE s = "issuer" -> e.iss = <<>> \/ e.iss[1] = t.iss
    [] s = "audience" -> (e.client = <<>> \/ In(e.client[1], t.aud)) /\ (Len(t.aud) <= 1 \/ (t.azp # <<>> /\ In(t.azp[1], t.aud)))
    [] s = "azp" -> t.azp = <<>> \/ e.client = <<>> \/ e.client[1] = t.azp[1]
    [] s = "window" -> ~((0 - Or(e.skew, 0)) > t.exp) /\ ~(t.iat + Or(e.storage, DefaultStorage) < 0 - Or(e.skew, 0))
    [] s = "nonce" -> e.nonce = <<>> \/ t.nonce = <<>> \/ e.nonce[1] = t.nonce[1]
NextStage(s, t, e) == IF StageOK(s, t, e) THEN Stages[(CHOOSE i \in 1..Len(Stages) : Stages[i] = s) + 1] ELSE "refused"
=============================================================================
