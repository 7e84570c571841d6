------------------------------ MODULE TraceBase ------------------------------
(* Steps through a recorded log (one JSON record per line of the file IOEnv.LOG) and     *)
(* prints every clause of the specification that a record does not meet.                 *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils
CONSTANT ClausesOf(_)           \* record -> sequence of <<what holds, does it>>
Log == ndJsonDeserialize(IOEnv.LOG)
VARIABLE l
Report(i) ==
  LET cs == ClausesOf(Log[i])
  IN \A j \in 1..Len(cs) : IF cs[j][2] THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i, clause |-> cs[j][1]]))
TraceInit == l = 1
TraceNext == l <= Len(Log) /\ Report(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
