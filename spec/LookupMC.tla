------------------------------ MODULE LookupMC ------------------------------
EXTENDS Lookup, Json
CONSTANTS Part, MaxLen
VARIABLES x, st
vars == <<x, st>>
Over(chars, n) == UNION {[1..k -> chars] : k \in 0..n}
Text(s) == FoldLeft(LAMBDA a, b : a \o b, "", s)
---- (* schema helpers: two made-up types *)
Names3 == {"a", "b", "x"}
ESets == UNION {{[i \in 1..Cardinality(D) |-> E(f[i], S(w \o f[i]))] : f \in {g \in [1..Cardinality(D) -> D] : \A i, j \in 1..Cardinality(D) : i # j => g[i] # g[j]}} : D \in SUBSET Names3, w \in {"v", "w"}}
Schema == [k : {"schema"}, p1 : SUBSET Names3, p2 : SUBSET Names3, es1 : ESets, es2 : ESets]
---- (* configurations *)
Vals == <<S(""), S("/x"), S("x"), S("d/x"), O(<<>>), O(<<E("f", S("x")), E("g", S("/x"))>>), O(<<E("f", S("x/")), E("s", O(<<E("f", S("y"))>>))>>)>>
Conf(i, j) == IF i = 0 THEN O(<<>>) ELSE IF j = 0 THEN O(<<E("a", Vals[i])>>) ELSE O(<<E("a", Vals[i]), E("f", (<<S("z"), S("/z"), S("")>>)[j])>>)
It(s, how, as, sub) == [s |-> s, how |-> how, attrs |-> as, sub |-> sub]
Items1 == {It("f", "self", <<>>, <<>>), It("", "attrs", <<"f">>, <<>>), It("a", "attrs", <<"f", "g">>, <<>>), It("a", "attrs", <<>>, <<>>), It("b", "attrs", <<"f">>, <<>>), It("b", "self", <<>>, <<>>),
           It("a", "sub", <<>>, <<It("s", "attrs", <<"f">>, <<>>)>>), It("a", "sub", <<>>, <<It("", "attrs", <<"g", "f">>, <<>>), It("s", "sub", <<>>, <<It("f", "self", <<>>, <<>>)>>)>>)}
ItemSets == {<<>>} \cup {<<i>> : i \in Items1} \cup {<<i, j>> : i \in Items1, j \in Items1}
Distinct(it) == Len(it) = 2 => it[1].s # it[2].s /\ PlacesOf(it[1]) \cap PlacesOf(it[2]) = {}
TextFor(it, conf) == IF it.how = "self" \/ it.s = "" THEN TRUE ELSE IF ~Has(conf.v, it.s) THEN TRUE ELSE IF Val(conf.v, it.s).t = "obj" THEN TRUE ELSE Val(conf.v, it.s).v = ""
Bases == {"", "base", "base/", "/root", "./b/c"}
Init == /\ st = "in"
        /\ CASE Part = "schema" -> x \in Schema
             [] Part = "path" -> \E s \in Over({".", "/", "a"}, MaxLen) : x = [k |-> "path", p |-> Text(s)]
             [] Part = "name" -> \E s \in Over({".", ":", "a"}, MaxLen) : x = [k |-> "name", p |-> Text(s)]
             [] Part = "base" -> \E i0 \in 0..Len(Vals), j0 \in 0..3, it \in ItemSets, b \in Bases : LET c == Conf(i0, j0) IN
                                    Distinct(it) /\ (\A i \in 1..Len(it) : TextFor(it[i], c)) /\ x = [k |-> "base", conf |-> c, items |-> it, b |-> b]
Next == st = "in" /\ st' = "out" /\ UNCHANGED x
Spec1 == Init /\ [][Next]_vars
\* taking the extras over is what doing it one by one comes to; what is declared is not touched
SchemaOK == x.k = "schema" => LET r == Adopt(x.p1, x.es1, x.p2, x.es2)
                              IN /\ SameEntries(r, AdoptAll(x.p1, x.es1, Extras(x.p2, x.es2)))
                                 /\ SameEntries(Declared(x.p1, r), Declared(x.p1, x.es1))
                                 /\ AsSet(Declared(x.p1, x.es1)) \cup AsSet(Extras(x.p1, x.es1)) = AsSet(x.es1)
                                 /\ SameEntries(Adopt(x.p1, r, x.p2, x.es2), r)
\* a proper path is below here, stays what it is and names the same place
PathOK == x.k = "path" => LET q == Proper(x.p) IN Starts(q, "./") /\ Ends(q, "/") /\ Proper(q) = q /\ Core(q) = Core(x.p)
\* only the relative paths at the places meant are changed, and by the base only
BaseOK == x.k = "base" =>
  LET r == AddBase(x.conf, x.items, x.b)
  IN /\ {t[1] : t \in Texts(r, <<>>)} = {t[1] : t \in Texts(x.conf, <<>>)}
     /\ \A t \in Texts(x.conf, <<>>) : <<t[1], IF t[1] \in Places(x.items) THEN Moved(x.b, t[2]) ELSE t[2]>> \in Texts(r, <<>>)
     /\ (Starts(x.b, "/") => SameTree(AddBase(r, x.items, x.b), r))
NameOK == x.k = "name" => LET q == Parts(x.p)
                          IN q # <<>> => /\ x.p \in {q[1] \o "." \o q[2], q[1] \o ":" \o q[2]}
                                         /\ Positions(q[2], ":") = {}
Emit == st = "out" => PrintT("@@" \o ToJson(
   CASE x.k = "schema" -> [x |-> x, by |-> Declared(x.p1, x.es1), res |-> Adopt(x.p1, x.es1, x.p2, x.es2)]
     [] x.k = "path" -> [x |-> x, res |-> Proper(x.p)]
     [] x.k = "name" -> [x |-> x, res |-> Parts(x.p)]
     [] OTHER -> [x |-> x, res |-> AddBase(x.conf, x.items, x.b)]))
=============================================================================
