------------------------------ MODULE MsgMapMC ------------------------------
(* Two live messages and all operations on them; sequences of operations are emitted.    *)
EXTENDS MsgMap, Json
CONSTANTS Depth
VARIABLES msgs, hist, shared
vars == <<msgs, hist, shared>>
\* shared: <<m, name>> whose (mutable) value may be held by both messages, put there by the caller

Pairs == << <<"oidc.RegistrationRequest", "oidc.RegistrationRequest">>,
            <<"oidc.ProviderConfigurationResponse", "oidc.RegistrationRequest">>,
            <<"own.Own", "own.Own">>,
            <<"oauth2.AccessTokenRequest", "oidc.ProviderConfigurationResponse">>,
            <<"message.Message", "own.Own">>,
            <<"oidc.OpenIDRequest", "oidc.AuthorizationRequest">> >>
Long == Depth > 4
Keys(c) ==
  CASE c = "oidc.RegistrationRequest" -> <<"response_types", "application_type", "client_name", "xx", "client_name#se">>
    [] c = "oidc.ProviderConfigurationResponse" -> <<"grant_types_supported", "claims_parameter_supported", "issuer", "xx">>
    [] c = "own.Own" -> <<"l", "j", "s", "xx", "s#de">>
    [] c = "oauth2.AccessTokenRequest" -> <<"grant_type", "code", "xx">>
    [] c \in {"oidc.OpenIDRequest", "oidc.AuthorizationRequest"} -> <<"state", "client_id#x", "xx">>
    [] OTHER -> <<"xx", "yy">>
Vals(c, n) ==
  IF n \notin ParamNames(c) THEN <<S("a"), Null, LS(<<"a">>), B(FALSE)>> \o (IF Long THEN <<S(""), L(<<>>)>> ELSE <<>>)
  ELSE LET k == Spec(c, n)[2] IN
    CASE k = "str" -> <<S("a"), S("")>> \o (IF Long \/ n # "application_type" THEN <<Null>> ELSE <<>>) [] k = "list" -> <<LS(<<"a", "b">>), L(<<>>)>>
      [] k = "bool" -> <<B(TRUE)>> [] k = "json" -> <<O(<<E("k", LS(<<"w">>))>>), O(<<>>)>>
Mutable(x) == x.t = "list" \/ (x.t = "obj" /\ Has(x.v, "k") /\ Val(x.v, "k").t = "list")

O0(op, m) == [op |-> op, m |-> m, k |-> "", x |-> Null, b |-> FALSE]
OK1(op, m, k) == [O0(op, m) EXCEPT !.k = k]
OX(op, m, k, x) == [OK1(op, m, k) EXCEPT !.x = x]

Do(o) ==
  /\ msgs' = [msgs EXCEPT ![o.m].es = After(o, msgs), ![3 - o.m].es = AfterOther(o, msgs),
                          ![3 - o.m].c = IF o.op = "copy" THEN msgs[o.m].c ELSE @]
  /\ hist' = Append(hist, o)
  /\ shared' = CASE o.op \in {"new", "clear"} -> {p \in shared : p[1] # o.m}
                 [] o.op = "copy" -> {p \in shared : p[1] = o.m}
                 [] o.op \in {"set", "del", "pop", "updatedict"} -> shared \ {<<o.m, o.k>>}
                 [] o.op = "updatemsg" -> shared \cup {<<m, n>> : m \in 1..2, n \in Names(msgs[3 - o.m].es)}
                 [] OTHER -> shared

Init == /\ \E i \in 1..Len(Pairs) : (Depth = 2 => i \in {1, 3}) /\ msgs = <<[c |-> Pairs[i][1], es |-> DefaultEs(Pairs[i][1])],
                                           [c |-> Pairs[i][2], es |-> DefaultEs(Pairs[i][2])]>>
        /\ hist = <<[op |-> "start", m |-> 1, k |-> msgs[1].c, x |-> S(msgs[2].c), b |-> TRUE]>>
        /\ shared = {}
Change ==
  \E m \in 1..2 : LET c == msgs[m].c es == msgs[m].es ks == Keys(c) IN
    \/ \E b \in BOOLEAN : Do([O0("new", m) EXCEPT !.b = b])
    \/ \E i \in 1..Len(ks) : LET vs == Vals(c, ks[i]) IN \E j \in 1..Len(vs) : Do(OX("set", m, ks[i], vs[j]))
    \/ \E i \in 1..Len(ks) : (i > 2 \/ Long) /\ Do(OX("updatedict", m, ks[i], Vals(c, ks[i])[1]))
    \/ \E i \in 1..Len(ks) : (i \in {1, 3} \/ Long) /\ Do(OX("setdefault", m, ks[i], Vals(c, ks[i])[1]))
    \/ \E i \in 1..Len(ks) : (i # 2 \/ Long) /\ Do(OK1("del", m, ks[i]))
    \/ \E i \in 1..Len(ks) : Long /\ Do(OK1("pop", m, ks[i]))
    \/ \E i \in 1..Len(ks) : /\ Has(es, ks[i]) /\ <<m, ks[i]>> \notin shared
                             /\ Mutable(Val(es, ks[i])) /\ Do(OK1("grow", m, ks[i]))
    \/ \E op \in {"weed", "rmblanks", "defaults", "clear", "copy"} : Do(O0(op, m))
    \* only between messages of one type: update does not convert
    \/ c = msgs[3 - m].c /\ Do(O0("updatemsg", m))
Look ==
  \E m \in 1..2 : LET ks == Keys(msgs[m].c) IN
    \/ \E i \in 1..Len(ks), op \in {"get", "getd", "in"} : Do(OK1(op, m, ks[i]))
    \/ \E op \in {"len", "iter", "keys", "items", "extra", "onlyextra", "eq", "ne"} : Do(O0(op, m))
More == Len(hist) <= Depth
Next == More /\ (Change \/ (Look /\ (Long \/ Depth = 1)))
Spec1 == Init /\ [][Next]_vars
\* sanity of the design: the defaults of a type are always what its table says
NoDup == \A m \in 1..2 : \A i, j \in 1..Len(msgs[m].es) : i # j => msgs[m].es[i][1] # msgs[m].es[j][1]
WeedOK == hist[Len(hist)].op = "weed" => \A i \in 1..Len(msgs[hist[Len(hist)].m].es) :
             msgs[hist[Len(hist)].m].es[i][1] \in ParamNames(msgs[hist[Len(hist)].m].c)
NewOK == hist[Len(hist)].op = "new" /\ hist[Len(hist)].b =>
           SameEntries(msgs[hist[Len(hist)].m].es, DefaultEs(msgs[hist[Len(hist)].m].c))
Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson(hist))
=============================================================================
