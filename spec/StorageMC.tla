------------------------------ MODULE StorageMC ------------------------------
EXTENDS Storage, TLC, Json
CONSTANTS Labels3
VARIABLES c, users, hist, content
vars == <<c, users, hist, content>>
Purposes == {"default", "session", "client"}
Sections == {<<>>} \cup {<<[dir |-> d, iss |-> i, label |-> l, lab |-> b]>> : d \in {1, 2}, i \in BOOLEAN, l \in {0} \cup Labels3, b \in BOOLEAN}
Fits(s) == s = <<>> \/ (s[1].label # 0 => s[1].lab)
\* three contexts: two of one issuer, one of another
U(n, p) == [ctx |-> n, issuer |-> IF n = 3 THEN 2 ELSE 1, purpose |-> p]
AllUsers == {U(n, p) : n \in {1, 2, 3}, p \in {"default", "session"}}
Op(op, u, k, v) == [op |-> op, u |-> u, k |-> k, v |-> v]
Init == /\ c \in {x \in [{"default", "session"} -> {s \in Sections : Fits(s)}] :
                  /\ Proper(x)
                  /\ x["default"] # <<>> => x["default"][1].dir = 1}
        /\ users = AllUsers /\ hist = <<>> /\ content = [x \in {} |-> Empty]
First == Len(hist) = 0 /\ \E u \in users : u.ctx \in {1, 3} /\ hist' = <<Op("set", u, 1, 1)>>
Second == Len(hist) = 1 /\ \E u \in users : \E op \in {"set", "delete", "update", "update2"} : hist' = Append(hist, Op(op, u, 1, IF op = "delete" THEN 0 ELSE 2))
Next == /\ First \/ Second
        /\ content' = Run([x \in {} |-> Empty], c, hist') /\ UNCHANGED <<c, users>>
Spec == Init /\ [][Next]_vars
Seen(u) == Answer(content, c, Op("items", u, 0, 0))
\* users see the same entries exactly when they have the same directory, issuer (where it matters) and label
Shared == \A u, w \in users : Space(c, u) = Space(c, w) => Seen(u) = Seen(w)
Isolated == \A u \in users : (\A n \in 1..Len(hist) : Space(c, hist[n].u) # Space(c, u)) => Seen(u) = {}
Survives == Len(hist) = 2 /\ Space(c, hist[1].u) # Space(c, hist[2].u) => Seen(hist[1].u) = {<<1, 1>>}
Emit == Len(hist) = 2 => PrintT("@@" \o ToJson([c |-> c, ops |-> hist, sees |-> [n \in 1..3 |-> [d |-> Seen(U(n, "default")), s |-> Seen(U(n, "session"))]]]))

=============================================================================
