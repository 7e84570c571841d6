---------------------------- MODULE StorageTrace ----------------------------
(* record: [c, ops, res: answers (sequences of pairs), fin: <<[u, items]>>] *)
EXTENDS Storage, TraceBase
Set(s) == {s[i] : i \in 1..Len(s)}
None == [x \in {} |-> Empty]
Clauses(r) ==
  LET bad == {n \in 1..Len(r.ops) : Set(r.res[n]) # Answer(Run(None, r.c, SubSeq(r.ops, 1, n - 1)), r.c, r.ops[n])
                                     \/ Len(r.res[n]) # Cardinality(Set(r.res[n]))}
      end == Run(None, r.c, r.ops)
  IN << <<"every answer is about the entries of that user's store", bad = {}>>,
        <<"nobody's entries were touched by others",
          \A j \in 1..Len(r.fin) : Set(r.fin[j].items) = Answer(end, r.c, [op |-> "items", u |-> r.fin[j].u, k |-> 0, v |-> 0])>> >>
=============================================================================
