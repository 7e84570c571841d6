---------------------------- MODULE LookupTrace ----------------------------
(* r.k = "factory": where, name, es, cls (opt), back: entries of what was made             *)
(*       "types": cls, params, types: <<name, word>>                                       *)
(*       "byschema": cls, es, back     "adopt": c1, es1, c2, es2, back, back2              *)
(*       "path", "name", "base" as in LookupMC with o: what came out; "import": name, ok   *)
EXTENDS Lookup, TraceBase
Clauses(r) ==
  CASE r.k = "factory" -> LET f == Found(r.where, r.name) IN
         << <<"the type of that name", r.cls = f>>, <<"made from what was given", f # <<>> /\ r.cls = f => SameEntries(r.back, MadeFrom(f[1], r.es))>> >>
    [] r.k = "types" -> << <<"declared parameters", {r.params[i] : i \in 1..Len(r.params)} = ParamNames(r.cls) /\ Len(r.params) = Cardinality(ParamNames(r.cls))>>,
                           <<"type of a parameter", \A i \in 1..Len(r.types) : r.types[i][2] = TypeOf(r.cls, r.types[i][1])>>,
                           <<"name of the type", (r.mod \o "." \o r.type) = r.cls>> >>
    [] r.k = "byschema" -> << <<"what the type declares", SameEntries(r.back, Declared(ParamNames(r.cls), r.es))>> >>
    [] r.k = "adopt" -> << <<"extras are taken over, what is declared is not", SameEntries(r.back, Adopt(ParamNames(r.c1), r.es1, ParamNames(r.c2), r.es2))>>,
                           <<"the other message stays as it is", SameEntries(r.back2, r.es2)>> >>
    [] r.k = "path" -> << <<"proper path", r.o = Proper(r.p)>> >>
    [] r.k = "name" -> << <<"module and attribute", r.o = Parts(r.p)>> >>
    [] r.k = "base" -> << <<"paths are put below the base", r.o.t = "obj" /\ SameTree(r.o, AddBase(r.conf, r.items, r.b))>> >>
    [] OTHER -> << <<"the very thing is imported", r.ok>> >>
=============================================================================
