----------------------------- MODULE CodecTrace -----------------------------
(* Judges recorded executions: a message, its wire forms and what came back.  One line    *)
(* per execution; every line not accepted is reported with the clause it violates.        *)
EXTENDS Codec, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.LOG)
VARIABLE l

\* r.k = "json": es, wire (entries of the JSON object), back (entries), bcls
\* r.k = "url": es, pairs, back, bcls ; "dup": cls, name, base, err ; "req": loc, q, frag, enc, url
Clauses(r) ==
  CASE r.k = "json" ->
         << <<"serialised", r.err = "">>,
            <<"wire form", r.err # "" \/ DeepWireOK(r.cls, r.es, r.wire)>>,
            <<"same type", r.err # "" \/ r.bcls = r.cls>>,
            <<"recovered from JSON", r.err # "" \/ SameEntries(ReadBack(r.cls, r.es), r.back)>>,
            <<"recovered from dict", r.err # "" \/ SameEntries(ReadBack(r.cls, r.es), r.backd)>> >>
    [] r.k = "url" ->
         << <<"serialised", r.err = "">>,
            <<"wire form", r.err # "" \/ UrlOK(r.cls, r.es, r.pairs)>>,
            <<"same type", r.err # "" \/ r.bcls = r.cls>>,
            <<"recovered from URL encoding", r.err # "" \/ SameEntries(r.es, r.back)>> >>
    [] r.k = "dup" ->
         << <<"second value of a single-valued parameter refused",
              Single(KindOf(r.cls, <<r.name, r.base>>)) => r.err # "">> >>
    [] r.k = "req" ->
         << <<"request URL", r.err = "" /\ r.url = RequestURL(r.loc, r.q, r.frag, r.enc)>> >>
    [] OTHER -> << <<"unknown record", FALSE>> >>

Report(i) ==
  LET cs == Clauses(Log[i])
  IN \A j \in 1..Len(cs) : IF cs[j][2] THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i, clause |-> cs[j][1]]))

TraceInit == l = 1
TraceNext == l <= Len(Log) /\ Report(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
