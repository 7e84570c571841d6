------------------------------- MODULE Lookup -------------------------------
(* Message types found by name, schema helpers (C29); configured paths and import names   *)
(* (C30).                                                                                 *)
EXTENDS Codec

---- (* message types by name.  where: oauth2 | oidc *)
Found(where, name) ==
  LET there(m) == (m \o "." \o name) \in ClassNames
  IN IF name = "Message" THEN <<"message.Message">>
     ELSE IF where = "oidc" /\ there("oidc") THEN <<"oidc." \o name>>
     ELSE IF there("oauth2") THEN <<"oauth2." \o name>> ELSE <<>>
\* what a new message of that type made from es holds
MadeFrom(c, es) == LET d == Class(c).defaults
                   IN es \o SelectSeq([i \in 1..Len(d) |-> E(d[i][1], d[i][2])], LAMBDA e : ~Has(es, e[1]))
\* the type of the values of a parameter
TypeWord(k) == CASE k \in {"str", "int", "bool"} -> k [] k = "time" -> "str" [] k \in {"list", "splist"} -> "list" [] OTHER -> "other"
TypeOf(c, n) == IF n \in ParamNames(c) THEN TypeWord(Spec(c, n)[2]) ELSE "none"

\* what of es a set of declared names leaves / does not cover
Declared(P, es) == SelectSeq(es, LAMBDA e : e[1] \in P)
Extras(P, es) == SelectSeq(es, LAMBDA e : e[1] \notin P)
\* message 1 (declaring P1) is given what message 2 (declaring P2) holds beyond its own type, except what message 1 declares
Adopt(P1, es1, P2, es2) == LET new == Extras(P1, Extras(P2, es2)) IN SelectSeq(es1, LAMBDA e : ~Has(new, e[1])) \o new
\* one after the other, as it is done
RECURSIVE AdoptAll(_, _, _)
AdoptAll(P1, es1, xs) == IF xs = <<>> THEN es1
                         ELSE AdoptAll(P1, IF xs[1][1] \in P1 THEN es1
                                           ELSE IF Has(es1, xs[1][1]) THEN [i \in 1..Len(es1) |-> IF es1[i][1] = xs[1][1] THEN xs[1] ELSE es1[i]]
                                           ELSE Append(es1, xs[1]), Tail(xs))

---- (* texts *)
At(s, i) == SubSeq(s, i, i)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE DropLead(_, _)
DropLead(s, cs) == IF s # "" /\ At(s, 1) \in cs THEN DropLead(From(s, 2), cs) ELSE s
RECURSIVE DropTail(_, _)
DropTail(s, cs) == IF s # "" /\ At(s, Len(s)) \in cs THEN DropTail(SubSeq(s, 1, Len(s) - 1), cs) ELSE s
Positions(s, ch) == {i \in 1..Len(s) : At(s, i) = ch}

---- (* a path in the form ./path/ *)
Slash(s) == IF Ends(s, "/") THEN s ELSE s \o "/"
Proper(p) == Slash(IF Starts(p, "./") THEN p
                   ELSE IF Starts(p, "/") THEN "." \o p
                   ELSE LET q == DropLead(p, {"."}) IN IF Starts(q, "/") THEN "." \o q ELSE "./" \o q)
Core(p) == DropTail(DropLead(p, {".", "/"}), {"/"})

---- (* base paths in front of configured paths.  conf: a tree; an item: [s, how: self | attrs | sub, attrs, sub] *)
Join(b, p) == IF b = "" \/ Ends(b, "/") THEN b \o p ELSE b \o "/" \o p
Moved(b, x) == IF x.t = "str" /\ x.v # "" /\ ~Starts(x.v, "/") THEN S(Join(b, x.v)) ELSE x
SetIn(conf, n, f(_)) == IF Has(conf.v, n) THEN O([i \in 1..Len(conf.v) |-> IF conf.v[i][1] = n THEN E(n, f(conf.v[i][3])) ELSE conf.v[i]]) ELSE conf
RECURSIVE MoveAttrs(_, _, _)
MoveAttrs(conf, as, b) == IF as = <<>> THEN conf ELSE MoveAttrs(SetIn(conf, as[1], LAMBDA x : Moved(b, x)), Tail(as), b)
RECURSIVE AddBase(_, _, _)
AddOne(conf, it, b) == IF it.how = "self" THEN SetIn(conf, it.s, LAMBDA x : Moved(b, x))
                       ELSE LET f(x) == IF x.t # "obj" THEN x ELSE IF it.how = "attrs" THEN MoveAttrs(x, it.attrs, b) ELSE AddBase(x, it.sub, b)
                            IN IF it.s = "" THEN f(conf) ELSE SetIn(conf, it.s, f)
AddBase(conf, items, b) == IF items = <<>> THEN conf ELSE AddBase(AddOne(conf, items[1], b), Tail(items), b)
\* the places (sequences of names) that are meant
RECURSIVE Places(_)
PlacesOf(it) == LET here == IF it.s = "" THEN <<>> ELSE <<it.s>>
                IN CASE it.how = "self" -> {here} [] it.how = "attrs" -> {Append(here, it.attrs[i]) : i \in 1..Len(it.attrs)}
                     [] OTHER -> {here \o q : q \in Places(it.sub)}
Places(items) == IF items = <<>> THEN {} ELSE PlacesOf(items[1]) \cup Places(Tail(items))
\* all texts of a configuration: <<place, text>>
RECURSIVE Texts(_, _)
Texts(conf, at) == UNION {LET p == Append(at, conf.v[i][1]) x == conf.v[i][3] IN IF x.t = "obj" THEN Texts(x, p) ELSE {<<p, x>>} : i \in 1..Len(conf.v)}

---- (* a name to import: module.attribute or module:attribute *)
Parts(s) == LET c == Positions(s, ":") d == Positions(s, ".")
                cut(i) == <<SubSeq(s, 1, i - 1), From(s, i + 1)>>
            IN IF c # {} THEN IF Cardinality(c) = 1 THEN cut(CHOOSE i \in c : TRUE) ELSE <<>>
               ELSE IF d = {} THEN <<>> ELSE cut(CHOOSE i \in d : \A j \in d : j <= i)
=============================================================================
