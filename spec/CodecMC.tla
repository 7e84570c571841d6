------------------------------ MODULE CodecMC ------------------------------
(* Every declared parameter of every message type, with every small value of its kind,   *)
(* optionally together with a language tagged and an extra parameter, goes through the    *)
(* wire and back.                                                                        *)
EXTENDS Codec, Json, IOUtils

VARIABLES case, phase, wire, url, back

vars == <<case, phase, wire, url, back>>

Text == <<"a", "a b", "x=1&y=2#z", "%41+%2B \\u00e9\\u4e2d", "\\\"q\\\"", "[1]", "{}", "null", "0">>
Texts == [i \in 1..Len(Text) |-> S(Text[i])]
Msg1(c) == M(c, <<E("zz", S("extra inner"))>>)
SomeOf(c) ==
  LET ps == Class(c).params
      scal == {i \in 1..Len(ps) : ps[i][2] \in {"str", "splist", "list", "int"}}
      V(i) == CASE ps[i][2] = "str" -> S("v " \o ps[i][1])
                [] ps[i][2] = "int" -> I(7)
                [] OTHER -> LS(<<"l1", "l2">>)
      pick == SetToSortSeq(scal, LAMBDA a, b : a < b)
  IN M(c, [i \in 1..Len(pick) |-> E(ps[pick[i]][1], V(pick[i]))])
Values(p) ==
  CASE p[2] = "str" -> Texts
    [] p[2] = "int" -> <<I(0), I(1), [t |-> "int", v |-> "-1"], [t |-> "int", v |-> "1893456000000"]>>
    [] p[2] = "bool" -> <<B(TRUE), B(FALSE)>>
    [] p[2] \in {"list", "splist"} -> <<LS(<<"a">>), LS(<<"a", "b">>), LS(<<"b", "a", "b">>), LS(<<"openid", "x&y=z%20", "\\u00e9">>)>>
    [] p[2] \in {"dict", "json"} ->
         <<O(<<E("k", S("v"))>>), O(<<>>),
           O(<<E("a", L(<<I(1), O(<<E("b", Null)>>)>>)), E("c", B(TRUE))>>)>>
    [] p[2] = "msg" -> <<Msg1(p[4]), SomeOf(p[4]), M(p[4], <<>>)>>
    [] p[2] = "msglist" -> <<L(<<Msg1(p[4])>>), L(<<SomeOf(p[4]), Msg1(p[4])>>), L(<<M(p[4], <<>>), SomeOf(p[4]), M(p[4], <<>>)>>)>>
    [] p[2] = "idt" -> <<S("eyJh.eyJi.c2ln")>>
    [] p[2] = "time" -> <<S("2020-01-11T11:00:00+0100"), S("1999-12-31T23:59:59+0000")>>
    [] OTHER -> <<>>
\* companions: nothing; a language tagged variant of the same parameter; extra parameters
Comp(p, x) ==
  << <<>>,
     << <<p[1] \o "#fr-CA", p[1], x>> >>,
     <<E("xtra", S("some thing")), E("xtra_l", LS(<<"one", "two words">>))>> >>
ExtraOnly == Texts \o <<I(0), B(FALSE), Null, LS(<<"a", "b c">>), O(<<E("q", I(1))>>), L(<<I(1), LS(<<"z">>)>>),
  M("message.Message", <<E("in", S("x"))>>), M("oidc.ClaimsRequest", <<>>),
  L(<<M("message.Message", <<>>), M("oidc.AddressClaim", <<E("country", S("SE"))>>), M("oidc.OpenIDSchema", <<>>)>>)>>

\* kinds the URL encoding promises to restore
UrlKinds == {"str", "int", "list", "splist", "dict", "json"}
UrlScope(c) ==
  \A i \in 1..Len(c.es) :
    LET k == KindOf(c.cls, c.es[i])
        x == c.es[i][3]
    IN \/ k \in UrlKinds
       \/ k = "msg" /\ NestedOf(c.cls, c.es[i]) = "oidc.ClaimsRequest"
       \/ k = "extra" /\ (x.t = "str" \/ (x.t = "list" /\ \A j \in 1..Len(x.v) : x.v[j].t = "str"))

Init == \E c \in ClassNames : case = [cls |-> c, es |-> <<>>] /\ phase = "pick" /\ wire = <<>> /\ url = <<>> /\ back = <<>>
Pick ==
  /\ phase = "pick" /\ phase' = "msg" /\ UNCHANGED <<wire, url, back>>
  /\ LET ps == Class(case.cls).params
     IN \/ \E i \in 1..Len(ps) :
             LET xs == Values(ps[i])
             IN \E j \in 1..Len(xs) :
                  LET ks == Comp(ps[i], xs[j])
                  IN \E k \in 1..Len(ks) : case' = [case EXCEPT !.es = <<E(ps[i][1], xs[j])>> \o ks[k]]
        \/ \E j \in 1..Len(ExtraOnly) : case' = [case EXCEPT !.es = <<E("xtra", ExtraOnly[j])>>]
Encode == phase = "msg" /\ phase' = "wire" /\ wire' = EncEntries(case.cls, case.es)
          /\ url' = UrlEnc(case.cls, case.es) /\ UNCHANGED <<case, back>>
Decode == phase = "wire" /\ phase' = "back" /\ back' = DecEntries(case.cls, wire) /\ UNCHANGED <<case, wire, url>>
Next == Pick \/ Encode \/ Decode
Spec1 == Init /\ [][Next]_vars

\* classes of nested values decode to the declared nested class
Lossless == phase = "back" => SameEntries(back, ReadBack(case.cls, case.es))
UrlLossless ==
  (phase = "wire" /\ UrlScope(case) /\ \A i \in 1..Len(url) : "js" \notin DOMAIN url[i]) =>
     LET d == UrlDec(case.cls, url) IN d.ok /\ SameEntries(d.es, case.es)
Consistent == phase = "wire" => WireOK(case.cls, case.es, wire) /\ UrlOK(case.cls, case.es, [i \in 1..Len(url) |->
                IF "js" \in DOMAIN url[i] THEN [n |-> url[i].n, s |-> "", js |-> EncVal("extra", url[i].js)] ELSE url[i]])

Emit == phase = "msg" => PrintT("@@" \o ToJson([cls |-> case.cls, es |-> case.es, url |-> UrlScope(case)]))
=============================================================================
