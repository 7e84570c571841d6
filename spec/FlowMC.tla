------------------------------- MODULE FlowMC -------------------------------
EXTENDS Flow, TLC, Json
CONSTANTS MaxEvents, MaxNow, Corrupt
VARIABLES runs, issued, now, n
vars == <<runs, issued, now, n>>
Init == runs = <<>> /\ issued = {} /\ now = 0 /\ n = 0
Count == n < MaxEvents /\ n' = n + 1
\* providers and clients are interchangeable: the first run is between the first ones
Start(p, c) == Len(runs) < 2 /\ (runs = <<>> => p = 1 /\ c = 1) /\ runs' = Append(runs, [op |-> p, client |-> c]) /\ UNCHANGED <<issued, now>>
\* refreshing needs a grant, which the token response brings
Give(r, what) == /\ what \in {"refresh", "info"} => \E i \in issued : i.run = r /\ i.nonce = r
                 /\ issued' = issued \cup {Issue(runs, r, TypOf(what), what, now)} /\ issued' # issued /\ UNCHANGED <<runs, now>>
Tick == now < MaxNow /\ issued # {} /\ now' = now + 1 /\ UNCHANGED <<runs, issued>>
Next == Count /\ (Tick \/ (\E p \in Ops, c \in {1, 2} : Start(p, c)) \/ (\E r \in 1..Len(runs), what \in Kinds : Give(r, what)))
Spec == Init /\ [][Next]_vars
Made(r) == {Make(runs, r, typ, way, now) : typ \in {"id", "logout"}, way \in Ways}
Tokens(r) == issued \cup {t \in Made(r) : t.signer # KeyOf(3 - runs[r].op) \/ Corrupt # {}}
Seen(f(_)) == {0} \cup {f(i) : i \in issued}
CodeOf(i) == i.code
Parts == {<<0, 0>>} \cup {<<p, c>> : p \in Ops, c \in {1, 2}}
AuthzMsgs(r) == {[tok |-> t, code |-> c, at |-> a, iss |-> x[1], client |-> x[2]] : t \in {<<>>} \cup {<<y>> : y \in Tokens(r)}, c \in Seen(CodeOf), a \in Seen(CodeOf), x \in Parts}
TokMsgs(r) == {[tok |-> <<t>>, code |-> 0, at |-> a, iss |-> 0, client |-> 0] : t \in Tokens(r), a \in Seen(CodeOf)}
LogMsgs(r) == {[tok |-> <<t>>, code |-> 0, at |-> 0, iss |-> 0, client |-> 0] : t \in Tokens(r)}
Endpoints == {"authz", "token", "logout", "hint"}
MsgsFor(ep, r) == CASE ep = "authz" -> AuthzMsgs(r) [] ep = "token" -> TokMsgs(r) [] OTHER -> LogMsgs(r)
Agreement == \A r \in 1..Len(runs) : \A ep \in Endpoints : \A m \in MsgsFor(ep, r) :
               Accepts(runs, ep, r, m, now) => Agreed(issued, runs, Corrupt, ep, r, m, now)
Usable == \A r \in 1..Len(runs) : \A ep \in Endpoints : \A m \in MsgsFor(ep, r) :
               Honest(issued, runs, ep, r, m, now) => Accepts(runs, ep, r, m, now)
\* behaviours for the real code: everything has been issued in both runs
Full == Len(runs) = 2 /\ \A r \in {1, 2} : \A what \in Kinds : \E i \in issued : i.run = r /\ i = Issue(runs, r, TypOf(what), what, i.iat)
InitFull == /\ \E p \in Ops, c \in {1, 2} : runs = <<[op |-> 1, client |-> 1], [op |-> p, client |-> c]>>
            /\ \E late \in {0, 1} : issued = {Issue(runs, r, TypOf(what), what, IF r = 2 THEN late ELSE 0) : r \in {1, 2}, what \in Kinds}
            /\ now \in {0, 1, 2} /\ n = 0 /\ \A i \in issued : i.iat <= now
SpecFull == InitFull /\ [][FALSE]_vars
EmitAll == \A ep \in Endpoints : \A m \in MsgsFor(ep, 1) :
             PrintT("@@" \o ToJson([runs |-> runs, now |-> now, ep |-> ep, m |-> m, ok |-> Accepts(runs, ep, 1, m, now)]))
=============================================================================
