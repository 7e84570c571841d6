------------------------------ MODULE IntakeMC ------------------------------
EXTENDS Intake, Json
VARIABLES case, phase, out
vars == <<case, phase, out>>

Js(s, j) == [t |-> "str", v |-> s, js |-> j, num |-> "", nonnum |-> FALSE]
Num(s, n) == [t |-> "str", v |-> s, num |-> n, nonnum |-> FALSE]
Wrd(s) == [t |-> "str", v |-> s, num |-> "", nonnum |-> TRUE]
Obj == O(<<E("k", S("v"))>>)
Shapes(c) == <<
  Wrd("txt"), Num("12", "12"), Num("-3", "-3"), Wrd("a b c"), Wrd(""), Wrd("a  b"), Js("{\\\"k\\\": 1}", O(<<E("k", I(1))>>)),
  Js("[1]", L(<<I(1)>>)), Wrd("null"), Wrd("true"), Wrd("x=y"), Wrd("False"), Wrd("truex"), Wrd("fals"), Wrd("falsey"), Wrd("t"), Wrd("yes"),
  I(5), I(0), F("1.5"), B(TRUE), B(FALSE), Null,
  L(<<>>), LS(<<"">>), LS(<<"a">>), LS(<<"a b">>), LS(<<"a", "b">>), L(<<I(1)>>), L(<<S("a"), I(1)>>), L(<<B(TRUE)>>),
  L(<<B(TRUE), B(FALSE)>>), L(<<Null>>), L(<<Null, S("a")>>), L(<<S("a"), Null>>), L(<<LS(<<"a">>)>>), L(<<S("a"), Obj>>),
  O(<<>>), Obj, L(<<Obj>>), L(<<Obj, Obj>>), L(<<Obj, S("a")>>),
  M(c, <<E("zz", S("v"))>>), L(<<M(c, <<E("zz", S("v"))>>)>>), L(<<M(c, <<E("zz", S("v"))>>), I(1)>>) >>
\* shapes every parameter is tried with; the others only with three parameters of each kind
Few(c) == << Wrd("txt"), Num("12", "12"), Wrd("a b c"), I(5), B(TRUE), LS(<<"a", "b">>), Obj >>

Nst(p) == IF p[4] = "" THEN "message.Message" ELSE p[4]
RECURSIVE HasMsg(_)
HasMsg(x) == x.t = "msg" \/ (x.t = "list" /\ \E i \in 1..Len(x.v) : HasMsg(x.v[i]))
ChOK(x, ch) == CASE ch = "url" -> x.t = "str" [] ch = "json" -> ~HasMsg(x) [] OTHER -> TRUE

Reps == {"oidc.AuthorizationRequest", "oidc.RegistrationRequest", "oidc.OpenIDSchema", "oidc.JRD", "ida.VerifiedClaims",
         "ida.VerificationElement", "session.LogoutToken", "ida.IdDocument", "ida.Document", "oidc.AuthorizationResponse",
         "oidc.ClaimsRequest", "ida.UtilityBill", "ida.VerifiedClaimsRequest", "oauth2.TokenIntrospectionResponse"}
FirstOfKind(c, i) == LET ps == Class(c).params IN \A j \in 1..(i-1) : <<ps[j][2], ps[j][4]>> # <<ps[i][2], ps[i][4]>>

Init == \E c \in ClassNames : case = [cls |-> c] /\ phase = "pick" /\ out = [r |-> "absent"]
Pick == /\ phase = "pick" /\ phase' = "in" /\ out' = out
        /\ LET ps == Class(case.cls).params IN
           \E i \in 1..Len(ps) :
             LET full == case.cls \in Reps /\ FirstOfKind(case.cls, i)
                 xs == IF full THEN Shapes(Nst(ps[i])) ELSE Few(Nst(ps[i]))
             IN \E j \in 1..Len(xs), ch \in (IF full THEN {"dict", "json", "url", "set"} ELSE {"dict", "set"}) :
                  /\ ChOK(xs[j], ch)
                  /\ case' = [cls |-> case.cls, name |-> ps[i][1], kind |-> ps[i][2], nested |-> Nst(ps[i]), ch |-> ch, x |-> xs[j]]
Take == phase = "in" /\ phase' = "out" /\ case' = case /\ out' = Outcome(case.kind, case.nested, case.x, case.ch)
Next == Pick \/ Take
Spec1 == Init /\ [][Next]_vars
DesignOK == phase = "out" => LET cs == Clauses1(case.kind, NullOK(case.nested), case.x, case.ch, out) IN \A i \in 1..Len(cs) : cs[i][2]
Emit == phase = "in" => PrintT("@@" \o ToJson(case))
=============================================================================
