------------------------------ MODULE FileStore ------------------------------
(* The file store: one directory, any number of instances (C21).                         *)
(* The map every user sees is a function from keys present to values.                    *)
(*   op: [op, i, k, v, ks, vs]   i: instance, k: key, v: value; ks, vs: keys and values of an update *)
(*   a result is a set of pairs: <<key, value>> read, <<key, 0>> present, <<n, 0>> a count *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [k \in {} |-> 0]
Bind(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Drop(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
RECURSIVE BindAll(_, _, _)
BindAll(m, ks, vs) == IF ks = <<>> THEN m ELSE BindAll(Bind(m, ks[1], vs[1]), Tail(ks), Tail(vs))
MapAfter(m, o) == CASE o.op = "set" -> Bind(m, o.k, o.v) [] o.op = "delete" -> Drop(m, o.k) [] o.op \in {"clear", "vanish"} -> Empty
                    [] o.op = "update" -> BindAll(m, o.ks, o.vs) [] OTHER -> m
MapResult(m, o) == CASE o.op = "get" -> IF o.k \in DOMAIN m THEN {<<o.k, m[o.k]>>} ELSE {}
                     [] o.op = "contains" -> IF o.k \in DOMAIN m THEN {<<o.k, 0>>} ELSE {}
                     [] o.op = "len" -> {<<Cardinality(DOMAIN m), 0>>}
                     [] o.op = "keys" -> {<<k, 0>> : k \in DOMAIN m}
                     [] o.op = "items" -> {<<k, m[k]>> : k \in DOMAIN m}
                     [] OTHER -> {}
RECURSIVE MapRun(_, _)
MapRun(m, ops) == IF ops = <<>> THEN m ELSE MapRun(MapAfter(m, ops[1]), Tail(ops))

---- (* how it is done: files with a version each, and what every instance remembers *)
\* st: [files: key -> [v, t], t: latest version, inst: i -> [cache: key -> v, seen: key -> t]]
NoInst == [cache |-> Empty, seen |-> Empty]
\* make sure the instance has the current content of a file
Load(st, i, k) == IF k \in DOMAIN st.files
                  THEN IF k \in DOMAIN st.inst[i].seen /\ st.inst[i].seen[k] = st.files[k].t THEN st.inst[i]
                       ELSE [cache |-> Bind(st.inst[i].cache, k, st.files[k].v), seen |-> Bind(st.inst[i].seen, k, st.files[k].t)]
                  ELSE [cache |-> Drop(st.inst[i].cache, k), seen |-> Drop(st.inst[i].seen, k)]
RECURSIVE LoadAll(_, _, _)
LoadAll(st, i, ks) == IF ks = {} THEN st ELSE LET k == CHOOSE x \in ks : TRUE IN LoadAll([st EXCEPT !.inst[i] = Load(st, i, k)], i, ks \ {k})
Synch(st, i) == LoadAll(st, i, DOMAIN st.files \cup DOMAIN st.inst[i].cache \cup DOMAIN st.inst[i].seen)
Write(st, i, k, v) == [files |-> Bind(st.files, k, [v |-> v, t |-> st.t + 1]), t |-> st.t + 1,
                       inst |-> [st.inst EXCEPT ![i] = [cache |-> Bind(@.cache, k, v), seen |-> Bind(@.seen, k, st.t + 1)]]]
Remove(st, i, k) == [files |-> Drop(st.files, k), t |-> st.t, inst |-> [st.inst EXCEPT ![i] = [cache |-> Drop(@.cache, k), seen |-> Drop(@.seen, k)]]]
RECURSIVE WriteAll(_, _, _, _)
WriteAll(st, i, ks, vs) == IF ks = <<>> THEN st ELSE WriteAll(Write(st, i, ks[1], vs[1]), i, Tail(ks), Tail(vs))
RECURSIVE RemoveAll(_, _, _)
RemoveAll(st, i, ks) == IF ks = {} THEN st ELSE LET k == CHOOSE x \in ks : TRUE IN RemoveAll(Remove(st, i, k), i, ks \ {k})
Do(st, o) == CASE o.op = "set" -> Write(st, o.i, o.k, o.v)
               [] o.op = "update" -> WriteAll(st, o.i, o.ks, o.vs)
               [] o.op = "delete" -> Remove(st, o.i, o.k)
               [] o.op = "clear" -> RemoveAll(st, o.i, DOMAIN st.files)
               [] o.op = "vanish" -> [st EXCEPT !.files = Empty]          \* somebody else took the whole directory away: no instance knows
               [] o.op = "get" -> [st EXCEPT !.inst[o.i] = Load(st, o.i, o.k)]
               [] o.op \in {"keys", "items"} -> Synch(st, o.i)
               [] o.op = "reopen" -> Synch([st EXCEPT !.inst[o.i] = NoInst], o.i)
               [] OTHER -> st
Answer(st, o) == LET c == Do(st, o).inst[o.i].cache IN
                 CASE o.op = "get" -> IF o.k \in DOMAIN c THEN {<<o.k, c[o.k]>>} ELSE {}
                   [] o.op = "contains" -> IF o.k \in DOMAIN st.files THEN {<<o.k, 0>>} ELSE {}
                   [] o.op = "len" -> {<<Cardinality(DOMAIN st.files), 0>>}
                   [] o.op = "keys" -> {<<k, 0>> : k \in DOMAIN c}
                   [] o.op = "items" -> {<<k, c[k]>> : k \in DOMAIN c}
                   [] OTHER -> {}
Content(st) == [k \in DOMAIN st.files |-> st.files[k].v]
=============================================================================
