------------------------------- MODULE MsgMap -------------------------------
(* A message as a mutable mapping with the defaults of its type.  Content is a sequence  *)
(* of entries <<name, name without tag, tree>>; compared as a set.                        *)
EXTENDS Codec

DefaultEs(c) == LET d == Class(c).defaults IN [i \in 1..Len(d) |-> E(d[i][1], d[i][2])]
DelE(es, n) == SelectSeq(es, LAMBDA e : e[1] # n)
PutE(es, n, x) == Append(DelE(es, n), E(n, x))
Fill(es, ds) == es \o SelectSeq(ds, LAMBDA e : ~Has(es, e[1]))
Over(es, new) == SelectSeq(es, LAMBDA e : ~Has(new, e[1])) \o new

EmptyX(x) == x.t = "null" \/ (x.t = "str" /\ x.v = "") \/ (x.t \in {"list", "obj", "msg"} /\ Len(x.v) = 0)
Falsy(x) == EmptyX(x) \/ (x.t = "bool" /\ x.v = "false") \/ (x.t \in {"int", "float"} /\ x.v \in {"0", "0.0"})
\* assigning an empty list, or a list that starts with null, to a declared parameter changes nothing
Ignored(c, n, x) == n \in ParamNames(c) /\ x.t = "list" /\ (Len(x.v) = 0 \/ x.v[1].t = "null")

\* a value after "zz" was appended to it in place (to the list k in it, for an object)
RECURSIVE Grow(_)
Grow(x) == CASE x.t = "list" -> L(Append(x.v, S("zz")))
             [] x.t # "obj" -> x
             [] x.t = "obj" -> O([i \in 1..Len(x.v) |-> IF x.v[i][1] = "k" THEN E("k", Grow(x.v[i][3])) ELSE x.v[i]])

\* what the operation o leaves in message o.m; pre: both messages
After(o, pre) ==
  LET c == pre[o.m].c
      es == pre[o.m].es
      oth == pre[3 - o.m]
  IN CASE o.op = "new" -> IF o.b THEN DefaultEs(c) ELSE <<>>
       [] o.op = "set" -> IF Ignored(c, o.k, o.x) THEN es ELSE PutE(es, o.k, o.x)
       [] o.op \in {"del", "pop"} -> DelE(es, o.k)
       [] o.op = "setdefault" -> IF Has(es, o.k) THEN es ELSE PutE(es, o.k, o.x)
       [] o.op = "grow" -> IF Has(es, o.k) THEN PutE(es, o.k, Grow(Val(es, o.k))) ELSE es
       [] o.op = "updatedict" -> PutE(es, o.k, o.x)
       [] o.op = "updatemsg" -> Over(es, oth.es)
       [] o.op \in {"weed"} -> SelectSeq(es, LAMBDA e : e[1] \in ParamNames(c))
       [] o.op = "rmblanks" -> SelectSeq(es, LAMBDA e : ~EmptyX(e[3]))
       [] o.op = "defaults" -> Fill(es, DefaultEs(c))
       [] o.op = "clear" -> <<>>
       [] OTHER -> es
\* what it leaves in the other message
AfterOther(o, pre) == IF o.op = "copy" THEN pre[o.m].es ELSE pre[3 - o.m].es

(* One recorded step: pre, post: <<[c, es], [c, es]>>, res: what the operation returned   *)
(* (a tree, or [t |-> "err", v |-> exception]).                                          *)
None == [t |-> "null", v |-> ""]
Ok(r) == r.t # "err"
SClauses(o, pre, post, res) ==
  LET es == pre[o.m].es
      c == pre[o.m].c
      oth == pre[3 - o.m]
      got == post[o.m].es
      absent == o.op = "del" /\ ~Has(es, o.k)
  IN << <<"the other message is left alone",
           SameEntries(post[3 - o.m].es, AfterOther(o, pre)) /\ post[3 - o.m].c = (IF o.op = "copy" THEN c ELSE oth.c)>>,
        <<"the message keeps its type", post[o.m].c = c>>,
        <<"the operation changes what it should",
           IF o.op = "rmblanks"      \* whether false and 0 are blank is left open
           THEN /\ AsSet(got) \subseteq AsSet(es)
                /\ \A i \in 1..Len(es) : ~Falsy(es[i][3]) => Has(got, es[i][1])
                /\ \A i \in 1..Len(got) : ~EmptyX(got[i][3])
           ELSE SameEntries(got, After(o, pre))>>,
        <<"an absent parameter is reported", (absent \/ (o.op = "get" /\ ~Has(es, o.k))) => res.t = "err" /\ res.v = "KeyError">>,
        <<"the operation succeeds", ~absent /\ o.op # "get" => Ok(res)>>,
        <<"get returns the value", o.op = "get" /\ Has(es, o.k) => Ok(res) /\ SameTree(res, Val(es, o.k))>>,
        <<"get with default", o.op = "getd" => SameTree(res, IF Has(es, o.k) THEN Val(es, o.k) ELSE S("dflt"))>>,
        <<"pop returns the value", o.op = "pop" => SameTree(res, IF Has(es, o.k) THEN Val(es, o.k) ELSE S("dflt"))>>,
        <<"membership", o.op = "in" => res = B(Has(es, o.k))>>,
        <<"length", o.op = "len" => SameTree(res, I(Len(es)))>>,
        <<"iteration gives every name once", o.op \in {"iter", "keys"} =>
            res.t = "list" /\ Len(res.v) = Len(es) /\ {res.v[i].v : i \in 1..Len(res.v)} = Names(es)>>,
        <<"items and values", o.op = "items" => res.t = "obj" /\ SameEntries(res.v, es)>>,
        <<"extras are the undeclared ones", o.op = "extra" =>
            res.t = "obj" /\ SameEntries(res.v, SelectSeq(es, LAMBDA e : e[1] \notin ParamNames(c)))>>,
        <<"only extras", o.op = "onlyextra" => res = B(\A i \in 1..Len(es) : es[i][1] \notin ParamNames(c))>>,
        <<"equality", o.op = "eq" => res = B(c = oth.c /\ SameEntries(es, oth.es))>>,
        <<"inequality", o.op = "ne" => res = B(~(c = oth.c /\ SameEntries(es, oth.es)))>> >>
=============================================================================
