------------------------------ MODULE Response ------------------------------
(* What a client checks of a response besides its ID Token (C17).                        *)
(*   r: [oidc, iss (opt), client (opt), aud (opt seq), desc (opt seq of code points),    *)
(*       e: [iss (opt), client (opt)]]                                                   *)
EXTENDS Integers, Sequences, FiniteSets
Given(o) == Len(o) = 1
In(x, xs) == \E i \in 1..Len(xs) : xs[i] = x
\* RFC 6749: %x20-21 / %x23-5B / %x5D-7E
DescChars == {32, 33} \cup 35..91 \cup 93..126
DescOK(desc) == Given(desc) => \A i \in 1..Len(desc[1]) : desc[1][i] \in DescChars
SameIf(a, b) == Given(a) /\ Given(b) => a = b
IssOK(r) == SameIf(r.iss, r.e.iss)
ClientOK(r) == SameIf(r.client, r.e.client)
AudOK(r) == r.oidc /\ Given(r.aud) /\ Given(r.e.client) => In(r.e.client[1], r.aud[1])
ResponseOK(r) == DescOK(r.desc) /\ IssOK(r) /\ ClientOK(r) /\ AudOK(r)
IsError(names) == "error" \in names
\* client registration: configuration URI and access token, both or neither
BothOrNeither(uri, token) == uri = token

QStages == <<"description", "client", "issuer", "audience", "accepted">>
QStageOK(s, r) ==
  CASE s = "description" -> r.desc = <<>> \/ {i \in 1..Len(r.desc[1]) : r.desc[1][i] \notin DescChars} = {}
    [] s = "client" -> r.client = <<>> \/ r.e.client = <<>> \/ r.client[1] = r.e.client[1]
    [] s = "issuer" -> r.iss = <<>> \/ r.e.iss = <<>> \/ r.iss[1] = r.e.iss[1]
    [] s = "audience" -> ~r.oidc \/ r.aud = <<>> \/ r.e.client = <<>> \/ \E i \in 1..Len(r.aud[1]) : r.aud[1][i] = r.e.client[1]
QNext(s, r) == IF QStageOK(s, r) THEN QStages[(CHOOSE i \in 1..Len(QStages) : QStages[i] = s) + 1] ELSE "refused"
=============================================================================
