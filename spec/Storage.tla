------------------------------- MODULE Storage -------------------------------
(* Which entries a user of a configured storage sees (C24).                              *)
(*   c: purpose -> <<>> or <<[dir, iss, label, lab]>>   dir: which directory, iss: whether it names the  *)
(*      {issuer}, label: 0 (none) or a label, lab: whether the labelled handler is used   *)
(*   u: [ctx, issuer, purpose]: the box for that purpose of a context for that issuer     *)
(*   op: [op, u, k, v]     an answer is a set of pairs <<key, value>> or <<key, 0>>        *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [k \in {} |-> 0]
Bind(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Drop(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
\* the section configured for the purpose, else the default one
Section(c, p) == IF c[p] # <<>> THEN c[p] ELSE c["default"]
\* the store behind a user: entries are shared exactly with the users that have the same one
Space(c, u) == LET s == Section(c, u.purpose)
               IN IF s = <<>> THEN [kind |-> "memory", of |-> <<u.ctx, u.purpose>>, label |-> 0]
                  ELSE [kind |-> "file", of |-> <<s[1].dir, IF s[1].iss THEN u.issuer ELSE 0>>, label |-> s[1].label]
At(content, sp) == IF sp \in DOMAIN content THEN content[sp] ELSE Empty
Put(content, sp, m) == [x \in DOMAIN content \cup {sp} |-> IF x = sp THEN m ELSE content[x]]
After(content, c, o) == LET sp == Space(c, o.u)
                            m == At(content, sp)
                        IN CASE o.op \in {"set", "update"} -> Put(content, sp, Bind(m, o.k, o.v))
                             [] o.op = "update2" -> Put(content, sp, Bind(Bind(m, o.k, o.v), (o.k % 3) + 1, (o.v % 3) + 1))   \* two at once; update0: none
                             [] o.op = "delete" -> Put(content, sp, Drop(m, o.k))
                             [] OTHER -> content
Answer(content, c, o) == LET m == At(content, Space(c, o.u))
                         IN CASE o.op = "get" -> IF o.k \in DOMAIN m THEN {<<o.k, m[o.k]>>} ELSE {}
                              [] o.op = "contains" -> IF o.k \in DOMAIN m THEN {<<o.k, 0>>} ELSE {}
                              [] o.op = "keys" -> {<<k, 0>> : k \in DOMAIN m}
                              [] o.op = "items" -> {<<k, m[k]>> : k \in DOMAIN m}
                              [] OTHER -> {}
RECURSIVE Run(_, _, _)
Run(content, c, ops) == IF ops = <<>> THEN content ELSE Run(After(content, c, ops[1]), c, Tail(ops))
\* sections on one directory either all have labels or are not to be kept apart
Proper(c) == \A p, q \in DOMAIN c : c[p] # <<>> /\ c[q] # <<>> /\ c[p][1].dir = c[q][1].dir /\ c[p][1].iss = c[q][1].iss
                                    => (c[p][1].label = 0) = (c[q][1].label = 0)

---- (* whose keys a context's key jar has: x: [given, source, entity, stored]   given, stored: owners; source: own keys configured *)
Owners(x) == IF x.given # <<>> THEN x.given[1]
             ELSE LET own == x.stored \cup IF x.source THEN {""} ELSE {}
                  IN own \cup IF "" \in own /\ x.entity # "" THEN {x.entity} ELSE {}

---- (* how labels are done: one map, the label in front of every key; texts are sequences of letters *)
Prefix(l) == IF l = <<>> THEN <<>> ELSE <<"_", "_">> \o l \o <<"_", "_">>
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Stored(l, k) == Prefix(l) \o k
Listed(names, l) == {SubSeq(n, Len(Prefix(l)) + 1, Len(n)) : n \in {x \in names : StartsWith(x, Prefix(l))}}
=============================================================================
