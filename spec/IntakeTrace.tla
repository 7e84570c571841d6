----------------------------- MODULE IntakeTrace -----------------------------
EXTENDS Intake, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.LOG)
VARIABLE l
Clauses(r) == LET p == Spec(r.cls, r.name) IN Clauses1(p[2], NullOK(p[4]), r.x, r.ch, r.o)
Report(i) ==
  LET cs == Clauses(Log[i])
  IN \A j \in 1..Len(cs) : IF cs[j][2] THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i, clause |-> cs[j][1]]))
TraceInit == l = 1
TraceNext == l <= Len(Log) /\ Report(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
