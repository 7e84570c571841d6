--------------------------- MODULE ClaimsReqTrace ---------------------------
EXTENDS ClaimsReq, TraceBase
Clauses(r) ==
  CASE r.k = "match" -> << <<"match", r.o = Matches(r.x.v, r.x.q)>> >>
    [] r.k = "request" -> << <<"a legal request is accepted", RequestOK(r.x) => r.o = "accepted">>, <<"an illegal one is refused", ~RequestOK(r.x) => r.o = "refused">> >>
    [] r.k = "evidence" -> IF EvidenceOpen(r.x) THEN <<>> ELSE
                           << <<"complete evidence is accepted", EvidenceOK(r.x) => r.o = "accepted">>, <<"other evidence is refused", ~EvidenceOK(r.x) => r.o = "refused">>,
                              <<"type of the evidence", EvidenceOK(r.x) /\ r.o = "accepted" => r.type = TypeAfter(r.x)>> >>
    [] OTHER -> LET b == Built(r.x) IN
                << <<"what may be put in", \A i \in 1..Len(r.x) : r.ok[i] <=> FitsBuilder(r.x[i].key, r.x[i].v)>>,
                   <<"exactly what was put in", {r.has[i].key : i \in 1..Len(r.has)} = DOMAIN b /\ Len(r.has) = Cardinality(DOMAIN b)
                                                /\ \A i \in 1..Len(r.has) : r.has[i].key \in DOMAIN b => r.has[i].v = b[r.has[i].key]>> >>
=============================================================================
