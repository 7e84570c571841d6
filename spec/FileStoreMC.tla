----------------------------- MODULE FileStoreMC -----------------------------
EXTENDS FileStore, TLC, Json
CONSTANTS Depth, Insts, Keys, Values
VARIABLES m, st, hist
vars == <<m, st, hist>>
Op(op, i, k, v, ks, vs) == [op |-> op, i |-> i, k |-> k, v |-> v, ks |-> ks, vs |-> vs]
Ops == {Op("set", i, k, v, <<>>, <<>>) : i \in Insts, k \in Keys, v \in Values}
       \cup {Op(o, i, k, 0, <<>>, <<>>) : o \in {"get", "delete", "contains"}, i \in Insts, k \in Keys}
       \cup {Op(o, i, 0, 0, <<>>, <<>>) : o \in {"clear", "len", "keys", "items", "reopen"}, i \in Insts}
       \cup {Op("vanish", 1, 0, 0, <<>>, <<>>)}
       \cup {Op("update", i, 0, 0, <<1, 2>>, <<2, 1>>) : i \in Insts}
Init == m = Empty /\ st = [files |-> Empty, t |-> 0, inst |-> [i \in Insts |-> NoInst]] /\ hist = <<>>
\* instances, keys and values are interchangeable: new ones are used in order
Used(f(_)) == {f(hist[n].o) : n \in 1..Len(hist)}
InOrder(o) == /\ \A j \in 1..(o.i - 1) : \E n \in 1..Len(hist) : hist[n].o.i = j
              /\ o.k > 1 => \A j \in 1..(o.k - 1) : \E n \in 1..Len(hist) : hist[n].o.k = j \/ hist[n].o.ks # <<>>
              /\ o.v > 1 => \E n \in 1..Len(hist) : hist[n].o.v = 1 \/ hist[n].o.ks # <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ InOrder(o)
                          /\ m' = MapAfter(m, o) /\ st' = Do(st, o)
                          /\ hist' = Append(hist, [o |-> o, res |-> Answer(st, o), ref |-> MapResult(m, o)])
Spec == Init /\ [][Next]_vars
\* what the instances do together is what one map does
Refines == Content(st) = m /\ (hist # <<>> => hist[Len(hist)].res = hist[Len(hist)].ref)
\* nobody remembers a version that is not, or no longer, there
Fresh == \A i \in Insts : \A k \in DOMAIN st.inst[i].seen : k \in DOMAIN st.inst[i].cache /\ st.inst[i].seen[k] <= st.t
         /\ (k \in DOMAIN st.files /\ st.inst[i].seen[k] = st.files[k].t => st.inst[i].cache[k] = st.files[k].v)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([n \in 1..Depth |-> [o |-> hist[n].o, res |-> hist[n].ref]]))
=============================================================================
