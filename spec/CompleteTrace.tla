---------------------------- MODULE CompleteTrace ----------------------------
EXTENDS Complete, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.LOG)
VARIABLE l
Clauses(r) ==
  CASE r.k = "verify" -> VClauses(r.cls, r.es, r.good, r.o)
    [] r.k = "url" -> UClauses(r.cls, r.es, r.lax, r.o)
    [] r.k = "blank" -> BClauses(r.es, r.held)
    [] r.k = "req" -> << <<"required_parameters lists the required ones",
                          {r.names[i] : i \in 1..Len(r.names)} = {Params(r.cls)[i][1] : i \in {j \in 1..Len(Params(r.cls)) : Params(r.cls)[j][3]}}>> >>
Report(i) ==
  LET cs == Clauses(Log[i])
  IN \A j \in 1..Len(cs) : IF cs[j][2] THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i, clause |-> cs[j][1]]))
TraceInit == l = 1
TraceNext == l <= Len(Log) /\ Report(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
