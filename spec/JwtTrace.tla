------------------------------ MODULE JwtTrace ------------------------------
EXTENDS Jwt, TraceBase
\* a token looked at with growing skews: o[i] is the verdict under skews[i]
Clauses(r) ==
  LET E(i) == [r.e EXCEPT !.skew = <<r.skews[i]>>]
      All(P(_)) == \A i \in 1..Len(r.skews) : P(i) IN
  << <<"required claims", All(LAMBDA i : r.o[i] = "accepted" => r.t.lacks = "")>>,
     <<"expiry", All(LAMBDA i : r.o[i] = "accepted" => NotExpired(r.t, E(i)))>>,
     <<"issue time", All(LAMBDA i : r.o[i] = "accepted" => Issued(r.t, E(i)))>>,
     <<"not before", All(LAMBDA i : r.o[i] = "accepted" => Started(r.t, E(i)))>>,
     <<"audience", All(LAMBDA i : r.o[i] = "accepted" => ForMe(r.t, E(i)))>>,
     <<"issuer", All(LAMBDA i : r.o[i] = "accepted" => From(r.t, E(i)))>>,
     <<"a valid token is accepted", All(LAMBDA i : Valid(r.t, E(i)) => r.o[i] = "accepted")>>,
     <<"more skew never refuses", \A i, j \in 1..Len(r.skews) : r.skews[i] <= r.skews[j] /\ r.o[i] = "accepted" => r.o[j] = "accepted">> >>
=============================================================================
