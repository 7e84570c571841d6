------------------------------- MODULE Jws -------------------------------
(* Reading a message from a signed JWT.                                                  *)
(*   key: [name, owner, kty, kid]     the material is identified by its name             *)
(*   j:   [alg, kid (opt), iss (opt), signer (a key name), tamper]  the JWT as it arrives*)
(*        signer: the key that made the signature with the algorithm of the header;      *)
(*        tamper: "no" or what was changed after signing                                 *)
(*   e:   [hasjar, jar (sequence of keys), sigalg (opt), from (opt, issuer named by the  *)
(*        caller), nokid: [any, of, kids: opt sequence of key ids]]                                     *)
EXTENDS Integers, Sequences, FiniteSets
Given(o) == Len(o) = 1
In(x, xs) == \E i \in 1..Len(xs) : xs[i] = x
Kty(alg) == CASE alg \in {"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"} -> "RSA"
              [] alg \in {"ES256", "ES384", "ES512"} -> "EC"
              [] alg \in {"HS256", "HS384", "HS512"} -> "oct"
              [] OTHER -> "-"
Supported(alg) == Kty(alg) # "-"
\* key ids that may go without being named, for one issuer
Listed(j, e, iss) == IF iss = e.nokid.of THEN e.nokid.kids ELSE <<>>
KeysOf(e) == {e.jar[i] : i \in 1..Len(e.jar)}
Owners(e) == {k.owner : k \in KeysOf(e)}

-----------------------------------------------------------------------------
(* The property. *)
\* whose signature is called for: the issuer named in the payload, else the one the caller named, else our own
Issuer(j, e) == IF Given(j.iss) THEN j.iss[1] ELSE IF Given(e.from) THEN e.from[1] ELSE ""
\* keys a signature under this JWT's header may have been made with
OfType(j, e, owner) == {k \in KeysOf(e) : k.owner = owner /\ k.kty = Kty(j.alg)}
Right(j, e) ==
  LET own == OfType(j, e, Issuer(j, e)) IN
  IF Issuer(j, e) = "" THEN own
  ELSE (IF Given(j.kid) \/ Cardinality(own) = 1 \/ e.nokid.any THEN own
        ELSE IF Given(Listed(j, e, Issuer(j, e)))
             THEN IF e.nokid.kids[1] = <<>> THEN own ELSE {k \in own : In(k.kid, e.nokid.kids[1])}
             ELSE {})                                 \* no key id and several keys: nothing identifies the key
       \cup (IF Kty(j.alg) = "oct" THEN OfType(j, e, "") ELSE {})
KidFits(j, k) == Given(j.kid) => j.kid[1] = k.kid
AlgFits(j, e) == Given(e.sigalg) => e.sigalg[1] = j.alg
KnownIssuer(j, e) == Issuer(j, e) # "" => Issuer(j, e) \in Owners(e)
Signed(j, e) == \E k \in Right(j, e) : KidFits(j, k) /\ k.name = j.signer /\ j.tamper = "no"
MayLoad(j, e) ==
  \/ j.alg = "none"
  \/ Supported(j.alg) /\ e.hasjar /\ KnownIssuer(j, e) /\ AlgFits(j, e) /\ Signed(j, e)

-----------------------------------------------------------------------------
(* The procedure.  st: [pc, keys] *)
Start == [pc |-> "parse", keys |-> {}]
Select(j, e) ==       \* what the key jar hands out
  LET own == OfType(j, e, Issuer(j, e)) IN
  IF Issuer(j, e) = "" THEN OfType(j, e, "")
  ELSE (IF Given(j.kid) THEN {k \in own : k.kid = j.kid[1]}
        ELSE IF Cardinality(own) <= 1 \/ e.nokid.any THEN own
        ELSE IF ~Given(Listed(j, e, Issuer(j, e))) THEN {}
        ELSE {k \in own : e.nokid.kids[1] = <<>> \/ In(k.kid, e.nokid.kids[1])})
       \cup (IF Kty(j.alg) = "oct" THEN OfType(j, e, "") ELSE {})
Step(st, j, e) ==
  CASE st.pc = "parse" -> IF j.alg = "none" THEN [st EXCEPT !.pc = "loaded"]
                          ELSE IF ~Supported(j.alg) THEN [st EXCEPT !.pc = "refused"]
                          ELSE [st EXCEPT !.pc = "select"]
    [] st.pc = "select" -> IF ~e.hasjar \/ ~KnownIssuer(j, e) \/ Select(j, e) = {} THEN [st EXCEPT !.pc = "refused"]
                           ELSE [pc |-> "algorithm", keys |-> Select(j, e)]
    [] st.pc = "algorithm" -> IF ~AlgFits(j, e) THEN [st EXCEPT !.pc = "refused"]
                              ELSE [pc |-> "signature", keys |-> {k \in st.keys : KidFits(j, k)}]
    [] st.pc = "signature" -> IF \E k \in st.keys : k.name = j.signer /\ j.tamper = "no"
                              THEN [st EXCEPT !.pc = "loaded"] ELSE [st EXCEPT !.pc = "refused"]
Final(pc) == pc \in {"loaded", "refused"}
=============================================================================
