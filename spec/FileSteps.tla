------------------------------ MODULE FileSteps ------------------------------
(* The file store at the level of file-system calls: what two instances that work at the  *)
(* same time, one of which may die at any moment, do to one directory (C22, C23).          *)
EXTENDS Linear, TLC, Json
CONSTANTS Procs, Keys, Programs, Crashes
VARIABLES dir, clock, lock, inst, pc, prog, hist, stamp, dead, init
vars == <<dir, clock, lock, inst, pc, prog, hist, stamp, dead, init>>
Bind(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Drop(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Idle == [at |-> "idle", n |-> 0, todo |-> {}, k |-> 0, t |-> 0]
Init == /\ init \in [1..Cardinality(Keys) -> {0, 1}]
        /\ prog \in Programs
        /\ dir = [k \in {x \in Keys : init[x] # 0} |-> [v |-> init[k], t |-> 1]]
        /\ clock = 1 /\ stamp = 0 /\ dead = {} /\ hist = <<>>
        /\ lock = [k \in Keys |-> 0]
        \* every instance has read everything when it was opened
        /\ inst = [p \in Procs |-> [cache |-> [k \in DOMAIN dir |-> dir[k].v], seen |-> [k \in DOMAIN dir |-> dir[k].t]]]
        /\ pc = [p \in Procs |-> Idle]
Alive(p) == p \notin dead
Op(p) == prog[p][1]
K(p) == pc[p].k
At(p, x) == Alive(p) /\ pc[p].at = x
\* going on inside an operation; Ret: it is over and has found res
Go(p, at) == pc' = [pc EXCEPT ![p].at = at] /\ UNCHANGED <<prog, hist, stamp>>
Over(p, entries) == /\ hist' = hist \o entries
                    /\ stamp' = stamp + 1
                    /\ prog' = [prog EXCEPT ![p] = Tail(@)]
                    /\ pc' = [pc EXCEPT ![p] = Idle]
Entry(p, op, k, v, res) == [op |-> op, k |-> k, v |-> v, res |-> res, call |-> pc[p].n, ret |-> stamp, maybe |-> FALSE]
Ret(p, res) == Over(p, <<Entry(p, Op(p).op, Op(p).k, Op(p).v, res)>>)
World == <<dir, clock, lock, dead, init>>
Begin(p) == /\ At(p, "idle") /\ prog[p] # <<>>
            /\ pc' = [pc EXCEPT ![p] = [Idle EXCEPT !.at = CASE Op(p).op = "set" -> "lock" [] Op(p).op = "delete" -> "isfile" [] Op(p).op = "get" -> "stat" [] OTHER -> "list",
                                                    !.n = stamp, !.k = Op(p).k]]
            /\ stamp' = stamp + 1
            /\ UNCHANGED <<prog, hist, inst, World>>
\* --- locks
Take(p, at, next) == At(p, at) /\ lock[K(p)] = 0 /\ lock' = [lock EXCEPT ![K(p)] = p] /\ Go(p, next) /\ UNCHANGED <<dir, clock, inst, dead, init>>
Lock(p) == Take(p, "lock", IF Op(p).op = "set" THEN "version" ELSE "unlink")
RLock(p) == Take(p, "rlock", "read")
Unlock(p) == At(p, "unlock") /\ lock' = [lock EXCEPT ![K(p)] = 0] /\ Ret(p, 0) /\ UNCHANGED <<dir, clock, inst, dead, init>>
\* --- set: the new content appears at once, with a version of its own
Version(p) == /\ At(p, "version")
              /\ clock' = clock + 1
              /\ pc' = [pc EXCEPT ![p].at = "replace", ![p].t = IF K(p) \in DOMAIN dir /\ dir[K(p)].t > clock THEN dir[K(p)].t + 1 ELSE clock + 1]
              /\ UNCHANGED <<prog, hist, stamp, dir, lock, inst, dead, init>>
Replace(p) == At(p, "replace") /\ dir' = Bind(dir, K(p), [v |-> Op(p).v, t |-> pc[p].t]) /\ Go(p, "remember") /\ UNCHANGED <<clock, lock, inst, dead, init>>
Know(p, k, v, t) == inst' = [inst EXCEPT ![p] = [cache |-> Bind(@.cache, k, v), seen |-> Bind(@.seen, k, t)]]
Forget(p, ks) == inst' = [inst EXCEPT ![p] = [cache |-> [x \in DOMAIN @.cache \ ks |-> @.cache[x]], seen |-> [x \in DOMAIN @.seen \ ks |-> @.seen[x]]]]
Remember(p) == At(p, "remember") /\ Know(p, K(p), Op(p).v, dir[K(p)].t) /\ Go(p, "unlock") /\ UNCHANGED World
\* --- delete
IsFile(p) == /\ At(p, "isfile")
             /\ (IF K(p) \in DOMAIN dir THEN Go(p, "lock") /\ UNCHANGED inst ELSE Forget(p, {K(p)}) /\ Ret(p, 0))
             /\ UNCHANGED World
Unlink(p) == At(p, "unlink") /\ dir' = Drop(dir, K(p)) /\ Forget(p, {K(p)}) /\ Go(p, "unlock") /\ UNCHANGED <<clock, lock, dead, init>>
\* --- reading one key: nothing new if the version is the one last seen, else read under the lock
Single(p) == Op(p).op = "get"
Result(p) == LET c == inst'[p].cache IN IF K(p) \in DOMAIN c THEN c[K(p)] ELSE 0
Done(p) == IF Single(p) THEN Ret(p, Result(p)) ELSE Go(p, "next")
Known(p) == K(p) \in DOMAIN inst[p].seen /\ inst[p].seen[K(p)] = dir[K(p)].t
Stat(p) == /\ At(p, "stat")
           /\ (IF K(p) \notin DOMAIN dir THEN (IF Single(p) THEN UNCHANGED inst /\ Ret(p, 0) ELSE Forget(p, {K(p)}) /\ Go(p, "next"))
               ELSE IF Known(p) THEN UNCHANGED inst /\ Done(p)
               ELSE inst' = [inst EXCEPT ![p].seen = Bind(@, K(p), dir[K(p)].t)] /\ Go(p, "rlock"))
           /\ UNCHANGED World
Read(p) == /\ At(p, "read")
           /\ (IF K(p) \in DOMAIN dir THEN inst' = [inst EXCEPT ![p].cache = Bind(@, K(p), dir[K(p)].v)] ELSE Forget(p, {K(p)}))
           /\ Go(p, "runlock") /\ UNCHANGED World
RUnlock(p) == At(p, "runlock") /\ lock' = [lock EXCEPT ![K(p)] = 0] /\ UNCHANGED inst /\ Done(p) /\ UNCHANGED <<dir, clock, dead, init>>
\* --- items: every file of the directory listing; what is not there is forgotten
ListDir(p) == /\ At(p, "list")
              /\ pc' = [pc EXCEPT ![p].at = "next", ![p].todo = DOMAIN dir] /\ UNCHANGED <<prog, hist, stamp>>
              /\ Forget(p, Keys \ DOMAIN dir) /\ UNCHANGED World
Item(p) == /\ At(p, "next") /\ UNCHANGED <<inst, World>>
           /\ (IF pc[p].todo = {}
               THEN LET c == inst[p].cache IN Over(p, [i \in 1..Cardinality(Keys) |-> Entry(p, "get", i, 0, IF i \in DOMAIN c THEN c[i] ELSE 0)])
               ELSE \E k \in pc[p].todo : pc' = [pc EXCEPT ![p].at = "stat", ![p].k = k, ![p].todo = @ \ {k}] /\ UNCHANGED <<prog, hist, stamp>>)
\* --- one process dies: its locks are released by the system, what it was doing is cut off
Die(p) == /\ Alive(p) /\ Cardinality(dead) < Crashes /\ pc[p].at # "idle"
          /\ dead' = dead \cup {p}
          /\ lock' = [k \in Keys |-> IF lock[k] = p THEN 0 ELSE lock[k]]
          /\ hist' = (IF Op(p).op \in {"set", "delete"} THEN Append(hist, [Entry(p, Op(p).op, Op(p).k, Op(p).v, 0) EXCEPT !.ret = 1000, !.maybe = TRUE]) ELSE hist)
          /\ pc' = [pc EXCEPT ![p] = Idle] /\ prog' = [prog EXCEPT ![p] = <<>>]
          /\ UNCHANGED <<dir, clock, inst, stamp, init>>
Step(p) == \/ Lock(p) \/ Version(p) \/ Replace(p) \/ Remember(p) \/ Unlock(p) \/ IsFile(p) \/ Unlink(p)
           \/ Stat(p) \/ RLock(p) \/ Read(p) \/ RUnlock(p) \/ ListDir(p) \/ Item(p)
Next == \E p \in Procs : Begin(p) \/ Step(p) \/ Die(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E p \in Procs : Begin(p) \/ Step(p))
Quiet == \A p \in Procs : pc[p].at = "idle" /\ prog[p] = <<>>
\* what a new instance reads at the end
New == [i \in 1..Cardinality(Keys) |-> [op |-> "get", k |-> i, v |-> 0, res |-> IF i \in DOMAIN dir THEN dir[i].v ELSE 0, call |-> 2000, ret |-> 2000, maybe |-> FALSE]]
Atomic == Quiet => Linear(init, hist \o New)
\* what an instance remembers of a version is what that version contained
Honest == \A p \in Procs : pc[p].at = "idle" /\ Alive(p) => \A k \in DOMAIN inst[p].seen \cap DOMAIN dir :
             inst[p].seen[k] = dir[k].t => k \in DOMAIN inst[p].cache /\ inst[p].cache[k] = dir[k].v
Terminates == <>Quiet
=============================================================================
