--------------------------- MODULE FileStoreTrace ---------------------------
(* record: [ops: sequence of operations, res: what each gave (sequence of pairs), fin: the items every instance and a fresh one end with] *)
EXTENDS FileStore, TraceBase, SequencesExt
Set(s) == {s[i] : i \in 1..Len(s)}
Clauses(r) ==
  LET before(n) == MapRun(Empty, SubSeq(r.ops, 1, n - 1))
      fin == MapRun(Empty, r.ops)
      bad == {n \in 1..Len(r.ops) : Set(r.res[n]) # MapResult(before(n), r.ops[n]) \/ Len(r.res[n]) # Cardinality(Set(r.res[n]))}
  IN << <<"every result is that of one map", bad = {}>>,
        <<"everyone ends with the same content", \A j \in 1..Len(r.fin) : Set(r.fin[j]) = {<<k, fin[k]>> : k \in DOMAIN fin} /\ Len(r.fin[j]) = Cardinality(DOMAIN fin)>> >>
=============================================================================
