----------------------------- MODULE MsgMapTrace -----------------------------
EXTENDS MsgMap, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.LOG)
VARIABLE l
Clauses(r) ==
  CASE r.k = "step" -> SClauses(r.o, r.pre, r.post, r.res)
    [] r.k = "new" -> << <<"a new message starts with the defaults of its type", SameEntries(r.es, DefaultEs(r.cls))>> >>
    [] r.k = "params" -> << <<"parameters() lists the declared ones", {r.names[i] : i \in 1..Len(r.names)} = ParamNames(r.cls)>> >>
Report(i) ==
  LET cs == Clauses(Log[i])
  IN \A j \in 1..Len(cs) : IF cs[j][2] THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i, clause |-> cs[j][1]]))
TraceInit == l = 1
TraceNext == l <= Len(Log) /\ Report(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
