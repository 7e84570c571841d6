-------------------------------- MODULE Linear --------------------------------
(* What users that work at the same time may see of one map: every operation takes effect  *)
(* at one moment between its call and its return (C22, C23, C25).                          *)
(*   an operation on one key: [op, k, v, res, call, ret, maybe]                            *)
(*   op: set, delete, get (res: the value read, 0 when absent), has (res: 1 or 0)          *)
(*   maybe: it was cut off, so it may never have taken effect                              *)
EXTENDS Integers, Sequences, FiniteSets
Effect(o, v) == CASE o.op = "set" -> o.v [] o.op = "delete" -> 0 [] OTHER -> v
Fits(o, v) == CASE o.op = "get" -> o.res = v [] o.op = "has" -> o.res = (IF v = 0 THEN 0 ELSE 1) [] OTHER -> TRUE
RECURSIVE Lin(_, _)
Lin(todo, v) == \/ \A o \in todo : o.maybe
                \/ \E o \in todo : /\ \A p \in todo : p.maybe \/ p.ret >= o.call
                                   /\ Fits(o, v)
                                   /\ Lin(todo \ {o}, Effect(o, v))
Numbered(ops) == {[op |-> ops[i].op, k |-> ops[i].k, v |-> ops[i].v, res |-> ops[i].res, call |-> ops[i].call, ret |-> ops[i].ret, maybe |-> ops[i].maybe, n |-> i] : i \in 1..Len(ops)}
\* init: value of every key at the start, 0: absent
Linear(init, ops) == \A k \in 1..Len(init) : Lin({o \in Numbered(ops) : o.k = k}, init[k])
=============================================================================
