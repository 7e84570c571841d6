-------------------------------- MODULE Pack --------------------------------
(* A message inside signed and encrypted JWTs, and the issuer packing ID Tokens (C03).   *)
(*   envelope: sequence of layers, the outer one first; layer:                           *)
(*     [kind: sig | enc, alg, enc, key, tamper]   key: name of the key used              *)
(*   reader: [dec (keys to decrypt with), ver (keys to verify with)] as sequences        *)
EXTENDS Integers, Sequences, FiniteSets
In(x, xs) == \E i \in 1..Len(xs) : xs[i] = x
---- (* opening an envelope *)
Opens(l, r) == /\ l.tamper = "no"
               /\ IF l.kind = "enc" THEN In(l.key, r.dec) ELSE l.alg = "none" \/ In(l.key, r.ver)
Readable(env, r) == \A i \in 1..Len(env) : Opens(env[i], r)
\* step by step, from the outside in
RECURSIVE Peel(_, _)
Peel(env, r) == IF env = <<>> THEN "loaded" ELSE IF Opens(env[1], r) THEN Peel(Tail(env), r) ELSE "refused"
Header(env, kind) == LET is == {i \in 1..Len(env) : env[i].kind = kind}
                     IN IF is = {} THEN <<>> ELSE LET l == env[CHOOSE i \in is : \A j \in is : i <= j] IN IF kind = "enc" THEN <<[alg |-> l.alg, enc |-> l.enc]>> ELSE <<[alg |-> l.alg]>>

---- (* an ID Token at its issuer: c, a: code and access token not yet packed; ch, ah: their hashes *)
Given(o) == Len(o) = 1
Fresh(exp) == [c |-> <<>>, a |-> <<>>, ch |-> <<>>, ah |-> <<>>, iat |-> <<>>, exp |-> exp]
\* hash: [v, bits]; under the algorithm none there is no hash to speak of (bits 0)
Hash(o, bits, old) == IF Given(o) THEN <<[v |-> o[1], bits |-> bits]>> ELSE old
Packed(t, bits, life, now) == [c |-> <<>>, a |-> <<>>, ch |-> Hash(t.c, bits, t.ch), ah |-> Hash(t.a, bits, t.ah), iat |-> <<now>>,
                               exp |-> IF life > 0 THEN <<now + life>> ELSE t.exp]
\* ops: [op: code | token | tick | pack, v, n, bits]
Apply(s, o) == CASE o.op = "code" -> [s EXCEPT !.t.c = <<o.v>>]
                 [] o.op = "token" -> [s EXCEPT !.t.a = <<o.v>>]
                 [] o.op = "tick" -> [s EXCEPT !.now = s.now + o.n]
                 [] o.op = "pack" -> [s EXCEPT !.t = Packed(s.t, o.bits, o.n, s.now), !.out = Append(s.out, Packed(s.t, o.bits, o.n, s.now))]
                 [] OTHER -> s
RECURSIVE RunOps(_, _)
RunOps(s, ops) == IF ops = <<>> THEN s ELSE RunOps(Apply(s, ops[1]), Tail(ops))
Start(exp) == [t |-> Fresh(exp), now |-> 0, out |-> <<>>]
=============================================================================
