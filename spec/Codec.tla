------------------------------- MODULE Codec -------------------------------
(* The wire forms of messages: JSON object, dictionary, URL encoding.  Pure operators;  *)
(* CodecMC enumerates messages and checks that the two directions are inverse,           *)
(* CodecTrace judges recorded executions of the implementation with the same operators. *)
EXTENDS Schemas

ParamNames(cls) == {Class(cls).params[i][1] : i \in 1..Len(Class(cls).params)}
Spec(cls, n) == LET ps == Class(cls).params IN ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = n]
\* the kind of an entry: by its name, else by its name without language tag
KindOf(cls, e) ==
  IF e[1] \in ParamNames(cls) THEN Spec(cls, e[1])[2]
  ELSE IF e[2] \in ParamNames(cls) THEN Spec(cls, e[2])[2]
  ELSE "extra"
NestedOf(cls, e) ==
  IF e[1] \in ParamNames(cls) THEN Spec(cls, e[1])[4]
  ELSE IF e[2] \in ParamNames(cls) THEN Spec(cls, e[2])[4]
  ELSE ""
Required(cls) == {Class(cls).params[i][1] : i \in {j \in 1..Len(Class(cls).params) : Class(cls).params[j][3]}}
Enumerated(cls) == {Class(cls).allowed[i][1] : i \in 1..Len(Class(cls).allowed)}
AllowedValues(cls, n) ==
  LET a == Class(cls).allowed IN ToSet(a[CHOOSE i \in 1..Len(a) : a[i][1] = n][2])
Defaults(cls) == Class(cls).defaults

NestedKinds == {"msg", "msglist", "idt"}
JsonKinds == {"dict", "json"}

(* ---------------------------------------------------------------- JSON, dictionary *)
RECURSIVE EncVal(_, _), EncEntries(_, _)
EncVal(k, x) ==
  CASE x.t = "null" -> x
    [] x.t = "msg" -> O(EncEntries(x.c, x.v))
    [] x.t = "list" /\ k = "splist" -> S(JoinSp([i \in 1..Len(x.v) |-> x.v[i].v]))
    [] x.t = "list" -> L([i \in 1..Len(x.v) |-> EncVal("extra", x.v[i])])
    [] OTHER -> x
EncEntries(cls, es) == [i \in 1..Len(es) |-> <<es[i][1], es[i][2], EncVal(KindOf(cls, es[i]), es[i][3])>>]

\* JSON-object parameters may appear as an object or as its JSON text
SameWire(k, expected, w) ==
  \/ SameTree(expected, w)
  \/ k \in JsonKinds /\ w.t = "str" /\ "js" \in DOMAIN w /\ SameTree(expected, w.js)

WireOK(cls, es, wire) ==
  /\ Names(es) = Names(wire)
  /\ Len(es) = Len(wire)
  /\ \A i \in 1..Len(es) :
       SameWire(KindOf(cls, es[i]), EncVal(KindOf(cls, es[i]), es[i][3]), Val(wire, es[i][1]))
\* an inner JSON-object parameter may be text too: nested messages are judged entry by entry
RECURSIVE DeepWireOK(_, _, _)
DeepWireOK(cls, es, wire) ==
  /\ Names(es) = Names(wire)
  /\ Len(es) = Len(wire)
  /\ \A i \in 1..Len(es) :
       LET x == es[i][3]
           w == Val(wire, es[i][1])
           k == KindOf(cls, es[i])
       IN CASE x.t = "msg" -> w.t = "obj" /\ DeepWireOK(x.c, x.v, w.v)
            [] x.t = "list" /\ Len(x.v) > 0 /\ x.v[1].t = "msg" ->
                 /\ w.t = "list" /\ Len(w.v) = Len(x.v)
                 /\ \A j \in 1..Len(x.v) : w.v[j].t = "obj" /\ DeepWireOK(x.v[j].c, x.v[j].v, w.v[j].v)
            [] OTHER -> SameWire(k, EncVal(k, x), w)

RECURSIVE DecVal(_, _, _), DecEntries(_, _)
DecVal(k, c, w) ==
  CASE w.t = "null" -> w
    [] k = "splist" /\ w.t = "str" -> LS(Split(w.v))
    [] k = "msg" -> M(c, DecEntries(c, w.v))
    [] k = "msglist" -> L([i \in 1..Len(w.v) |-> M(c, DecEntries(c, w.v[i].v))])
    [] k \in JsonKinds /\ w.t = "str" /\ "js" \in DOMAIN w -> w.js
    [] OTHER -> w
DecEntries(cls, es) ==
  [i \in 1..Len(es) |-> <<es[i][1], es[i][2], DecVal(KindOf(cls, es[i]), NestedOf(cls, es[i]), es[i][3])>>]

\* what a message is after the round trip: a message under an undeclared name comes back as a plain object
RECURSIVE ReadBack(_, _)
ReadBack(cls, es) ==
  [i \in 1..Len(es) |->
     LET k == KindOf(cls, es[i])
         x == es[i][3]
     IN <<es[i][1], es[i][2],
          CASE k = "extra" -> EncVal(k, x)
            [] x.t = "msg" -> M(x.c, ReadBack(x.c, x.v))
            [] k = "msglist" -> L([j \in 1..Len(x.v) |-> M(x.v[j].c, ReadBack(x.v[j].c, x.v[j].v))])
            [] OTHER -> x>>]

(* ---------------------------------------------------------------- URL encoding *)
\* the values one entry contributes, in order; <<>> when it is not sent
UrlVals(k, x) ==
  CASE x.t = "null" -> <<>>
    [] x.t = "str" \/ x.t = "int" -> <<[s |-> x.v]>>
    [] x.t = "bool" -> <<[s |-> IF x.v = "true" THEN "True" ELSE "False"]>>
    [] x.t = "list" /\ k \in {"list", "splist"} -> <<[s |-> JoinSp([i \in 1..Len(x.v) |-> x.v[i].v])]>>
    [] x.t = "list" -> [i \in 1..Len(x.v) |-> [s |-> x.v[i].v]]
    [] x.t = "obj" -> <<[js |-> J(x)]>>
    [] x.t = "msg" -> <<[js |-> J(O(EncEntries(x.c, x.v)))]>>
    [] OTHER -> <<>>
\* pairs: sequence of [n, s] or [n, s, js] as read from the wire
UrlOf(pairs, n) == SelectSeq(pairs, LAMBDA p : p.n = n)
UrlValOK(w, v) == IF "s" \in DOMAIN v THEN w.s = v.s ELSE "js" \in DOMAIN w /\ J(w.js) = v.js
UrlOK(cls, es, pairs) ==
  /\ \A i \in 1..Len(es) :
       LET vs == UrlVals(KindOf(cls, es[i]), es[i][3])
           ws == UrlOf(pairs, es[i][1])
       IN Len(vs) = Len(ws) /\ \A j \in 1..Len(vs) : UrlValOK(ws[j], vs[j])
  /\ \A i \in 1..Len(pairs) : Has(es, pairs[i].n)

UrlEnc(cls, es) ==
  FlattenSeq([i \in 1..Len(es) |->
     LET vs == UrlVals(KindOf(cls, es[i]), es[i][3])
     IN [j \in 1..Len(vs) |-> IF "s" \in DOMAIN vs[j] THEN [n |-> es[i][1], b |-> es[i][2], s |-> vs[j].s]
                                ELSE [n |-> es[i][1], b |-> es[i][2], s |-> "", js |-> es[i][3]]]])
\* decoding a URL-encoded message: an error for a repeated single-valued parameter
Single(k) == k \notin {"list", "splist", "extra", "msglist"}
UrlDec(cls, pairs) ==
  LET ns == SetToSeq({<<pairs[i].n, pairs[i].b>> : i \in 1..Len(pairs)})
      bad == \E i \in 1..Len(ns) : Single(KindOf(cls, ns[i])) /\ Len(UrlOf(pairs, ns[i][1])) > 1
      Dec(nb) ==
        LET k == KindOf(cls, nb)
            ws == UrlOf(pairs, nb[1])
        IN CASE "js" \in DOMAIN ws[1] /\ k \in JsonKinds \cup {"msg"} -> ws[1].js
             [] k \in {"list", "splist"} -> LS(Split(ws[1].s))
             [] k = "int" -> [t |-> "int", v |-> ws[1].s]
             [] k = "extra" /\ Len(ws) > 1 -> LS([j \in 1..Len(ws) |-> ws[j].s])
             [] OTHER -> S(ws[1].s)
  IN IF bad THEN [ok |-> FALSE, es |-> <<>>]
     ELSE [ok |-> TRUE, es |-> [i \in 1..Len(ns) |-> <<ns[i][1], ns[i][2], Dec(ns[i])>>]]

\* a request URL: the location as it is, a separator, the encoding
RequestURL(loc, hasQuery, fragment, enc) ==
  loc \o (IF fragment THEN "#" ELSE IF hasQuery THEN "&" ELSE "?") \o enc
=============================================================================
