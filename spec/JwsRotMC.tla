---------------------------- MODULE JwsRotMC ----------------------------
(* A signed JWT is read while the issuer's published keys change.  The key jar holds     *)
(* what it read last (held); the issuer publishes `now`.  The jar is only refreshed when *)
(* none of the keys it offers suits the JWT; keys the issuer withdrew do not count from   *)
(* then on.  The same JWT is read twice, so the second read meets what the first left.   *)
(* key: [name, kid, alg (opt: the only algorithm it may be used with)], all of type RSA  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Given(o) == Len(o) = 1
K(n, i, a) == [name |-> n, kid |-> i, alg |-> a]
Pool == {K("rsa1", "r1", <<>>), K("rsa1", "r1", <<"RS512">>), K("rsa1", "r1", <<"RS256">>),
         K("rsa2", "r1", <<>>), K("rsa2", "r2", <<>>)}
Sets == {s \in SUBSET Pool : Cardinality(s) <= 2 /\ \A x, y \in s : x # y => x.kid # y.kid /\ x.name # y.name}
VARIABLES first, j, any, held, now, pc, keys, refreshed, outs
vars == <<first, j, any, held, now, pc, keys, refreshed, outs>>
\* the keys the jar offers for this JWT
Offer(s) == IF Given(j.kid) THEN {k \in s : k.kid = j.kid[1]}
            ELSE IF Cardinality(s) = 1 \/ any THEN s ELSE {}
\* those of them that may have made its signature
Suit(s) == {k \in s : (Given(k.alg) => k.alg[1] = j.alg) /\ (Given(j.kid) => j.kid[1] = k.kid)}
Init ==
  /\ j \in [alg : {"RS256", "RS512"}, kid : {<<>>, <<"r1">>, <<"r2">>}, signer : {"rsa1", "rsa2", "rsa3"}]
  /\ any \in BOOLEAN
  /\ (Given(j.kid) => ~any)
  /\ first \in Sets /\ held = first /\ now \in Sets
  /\ pc = "offer" /\ keys = {} /\ refreshed = FALSE /\ outs = <<>>
Stay == UNCHANGED <<first, j, any, now>>
End(o) == /\ outs' = Append(outs, o) /\ keys' = {} /\ refreshed' = FALSE /\ UNCHANGED held
          /\ pc' = IF Len(outs) = 0 THEN "offer" ELSE "end"
OfferStep == /\ pc = "offer" /\ Stay
             /\ IF Offer(held) = {} THEN End("refused")
                ELSE pc' = "suit" /\ keys' = Offer(held) /\ UNCHANGED <<held, refreshed, outs>>
SuitStep == /\ pc = "suit" /\ Stay
            /\ IF Suit(keys) # {}
               THEN End(IF \E k \in Suit(keys) : k.name = j.signer THEN "loaded" ELSE "refused")
               ELSE IF refreshed THEN End("refused") ELSE pc' = "refresh" /\ UNCHANGED <<held, keys, refreshed, outs>>
Refresh == /\ pc = "refresh" /\ Stay /\ held' = now /\ refreshed' = TRUE /\ pc' = "suit"
           /\ keys' = Offer(now) /\ UNCHANGED outs
Next == OfferStep \/ SuitStep \/ Refresh
Spec1 == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Signer(s) == \E k \in s : k.name = j.signer /\ (Given(k.alg) => k.alg[1] = j.alg) /\ (Given(j.kid) => k.kid = j.kid[1])
\* what is loaded was signed with a key the issuer published, for that algorithm, under that key id
Authentic == \A i \in 1..Len(outs) : outs[i] = "loaded" => Signer(first) \/ Signer(now)
\* once the jar has been refreshed a withdrawn key is worth nothing
Withdrawn == pc = "end" /\ outs[2] = "loaded" => Signer(held)
\* a JWT that an offered, suitable key has signed is never turned away
Complete == pc = "end" /\ Signer(Offer(first)) => outs[1] = "loaded"
Emit == pc = "end" => PrintT("@@" \o ToJson([j |-> j, any |-> any, first |-> first, now |-> now, outs |-> outs]))
=============================================================================
