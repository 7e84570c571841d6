---------------------------- MODULE ResponseTrace ----------------------------
EXTENDS Response, TraceBase
Names(x) == {x.names[i] : i \in 1..Len(x.names)}
Clauses(x) ==
  CASE x.k = "response" -> LET acc == x.o = "accepted" r == x.r IN
        << <<"what fits is accepted", ResponseOK(r) => acc>>, <<"issuer", acc => IssOK(r)>>, <<"client id", acc => ClientOK(r)>>,
           <<"audience", acc => AudOK(r)>>, <<"error description", acc => DescOK(r.desc)>> >>
    [] x.k = "description" -> << <<"error description", (x.o = "accepted") = DescOK(x.desc)>> >>
    [] x.k = "error" -> << <<"an error message is one with an error", x.o = IsError(Names(x))>> >>
    [] OTHER -> << <<"configuration URI and access token, both or neither", (x.o = "accepted") = BothOrNeither(x.uri, x.token)>> >>
=============================================================================
