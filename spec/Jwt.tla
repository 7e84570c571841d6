-------------------------------- MODULE Jwt --------------------------------
(* The time window, audience and issuer of a bearer JSON Web Token.                      *)
(*   t: [exp, nbf, iat, aud, iss] all optional, lacks; e: [aud, iss, skew] all optional  *)
(* Times are seconds relative to the present whole second.                               *)
EXTENDS Integers, Sequences
Or(o, d) == IF o = <<>> THEN d ELSE o[1]
In(x, xs) == \E i \in 1..Len(xs) : xs[i] = x
Given(o) == Len(o) = 1
Skew(e) == Or(e.skew, 0)
NotExpired(t, e) == Given(t.exp) => t.exp[1] >= -Skew(e)
Issued(t, e) == Given(t.iat) => t.iat[1] <= Skew(e)
Started(t, e) == Given(t.nbf) => t.nbf[1] <= Skew(e)
ForMe(t, e) == Given(e.aud) /\ Given(t.aud) => In(e.aud[1], t.aud[1])
From(t, e) == Given(e.iss) /\ Given(t.iss) => e.iss[1] = t.iss[1]
Valid(t, e) == t.lacks = "" /\ NotExpired(t, e) /\ Issued(t, e) /\ Started(t, e) /\ ForMe(t, e) /\ From(t, e)
Stages == <<"required", "exp", "iat", "nbf", "aud", "iss", "accepted">>
StageOK(s, t, e) ==
  CASE s = "required" -> t.lacks = ""
    [] s = "exp" -> t.exp = <<>> \/ ~((0 - Skew(e)) > t.exp[1])
    [] s = "iat" -> t.iat = <<>> \/ ~(t.iat[1] > 0 + Skew(e))
    [] s = "nbf" -> t.nbf = <<>> \/ ~(t.nbf[1] > 0 + Skew(e))
    [] s = "aud" -> t.aud = <<>> \/ e.aud = <<>> \/ In(e.aud[1], t.aud[1])
    [] s = "iss" -> t.iss = <<>> \/ e.iss = <<>> \/ e.iss[1] = t.iss[1]
NextStage(s, t, e) == IF StageOK(s, t, e) THEN Stages[(CHOOSE i \in 1..Len(Stages) : Stages[i] = s) + 1] ELSE "refused"
=============================================================================
