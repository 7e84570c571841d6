------------------------------ MODULE Metadata ------------------------------
(* Provider metadata, client registration requests, birthdates (C18).                    *)
(*   p: [scheme, query, fragment, http (opt BOOLEAN), algs, scopes (opt), types, token]  *)
(*      issuer URL taken apart; scopes: sequences of code points                         *)
(*   c: [login (opt scheme), authalg (opt), ro, idt, ui]  each pair none | alg | enc | both *)
(*   b: [form: date | year, y, m, d]                                                     *)
EXTENDS Integers, Sequences, FiniteSets
Given(o) == Len(o) = 1
In(x, xs) == \E i \in 1..Len(xs) : xs[i] = x
ScopeChars == {33} \cup 35..91 \cup 93..126
OpenidScope == <<111, 112, 101, 110, 105, 100>>
IssuerScheme(p) == p.scheme = "https" \/ (p.scheme = "http" /\ p.http = <<TRUE>>)
IssuerPlain(p) == ~p.query /\ ~p.fragment
Rs256(p) == In("RS256", p.algs)
ScopesOK(p) == Given(p.scopes) => In(OpenidScope, p.scopes[1])
ScopeCharsOK(p) == Given(p.scopes) => \A i \in 1..Len(p.scopes[1]) : \A j \in 1..Len(p.scopes[1][i]) : p.scopes[1][i][j] \in ScopeChars
\* the words of a response type come in any order
CodeTypes == {"code", "code id_token", "code token", "code id_token token", "id_token code", "token code", "code token id_token",
              "id_token code token", "id_token token code", "token code id_token", "token id_token code"}
TokenEndpoint(p) == (\E i \in 1..Len(p.types) : p.types[i] \in CodeTypes) => p.token
ProviderOK(p) == IssuerScheme(p) /\ IssuerPlain(p) /\ Rs256(p) /\ ScopesOK(p) /\ ScopeCharsOK(p) /\ TokenEndpoint(p)

LoginOK(c) == Given(c.login) => c.login = <<"https">>
AuthAlgOK(c) == c.authalg # <<"none">>
PairOK(x) == x # "enc"
PairsOK(c) == PairOK(c.ro) /\ PairOK(c.idt) /\ PairOK(c.ui)
ClientOK(c) == LoginOK(c) /\ AuthAlgOK(c) /\ PairsOK(c)
DefaultEnc == "A128CBC-HS256"
EncAfter(x) == CASE x = "none" -> <<>> [] x = "alg" -> <<DefaultEnc>> [] OTHER -> <<"A256GCM">>

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m = 2 THEN (IF y = 0 \/ Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* the year 0 stands for an unknown year
BirthOK(b) == IF b.form = "year" THEN b.y \in 1..9999
              ELSE b.y \in 0..9999 /\ b.m \in 1..12 /\ b.d \in 1..DaysIn(b.y, b.m)

PStages == <<"scopes", "characters", "scheme", "algorithm", "plain", "endpoint", "accepted">>
PStageOK(s, p) ==
  CASE s = "scopes" -> p.scopes = <<>> \/ In(OpenidScope, p.scopes[1])
    [] s = "characters" -> p.scopes = <<>> \/ {i \in 1..Len(p.scopes[1]) : \E j \in 1..Len(p.scopes[1][i]) : p.scopes[1][i][j] \notin ScopeChars} = {}
    [] s = "scheme" -> IF p.http = <<TRUE>> THEN p.scheme \in {"http", "https"} ELSE p.scheme = "https"
    [] s = "algorithm" -> \E i \in 1..Len(p.algs) : p.algs[i] = "RS256"
    [] s = "plain" -> ~(p.query \/ p.fragment)
    [] s = "endpoint" -> p.token \/ {i \in 1..Len(p.types) : p.types[i] \in CodeTypes} = {}
PNext(s, p) == IF PStageOK(s, p) THEN PStages[(CHOOSE i \in 1..Len(PStages) : PStages[i] = s) + 1] ELSE "refused"
=============================================================================
