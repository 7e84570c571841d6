----------------------------- MODULE CarrierMC -----------------------------
(* Part "policy": every carrier x token x policy, one verification.                      *)
(* Part "hash": authorization responses x hashes x algorithms.                           *)
(* Part "history": sequences of put / drop / inject / verify on one message.             *)
EXTENDS Carrier, TLC, Json
CONSTANTS Part, Depth
VARIABLES c, p, e, st, hist
vars == <<c, p, e, st, hist>>
Me == "client1"
Good == [iss |-> "op", aud |-> <<Me>>, azp |-> <<>>, exp |-> 300, iat |-> 0, nonce |-> <<"n1">>]
Expect == [iss |-> <<"op">>, client |-> <<Me>>, skew |-> <<>>, storage |-> <<>>, nonce |-> <<"n1">>]
Blind == [iss |-> <<>>, client |-> <<>>, skew |-> <<>>, storage |-> <<>>, nonce |-> <<>>]
T0 == [form |-> "jws", alg |-> "RS256", signer |-> "rsa1", tamper |-> "no", t |-> Good, lacks |-> "",
       chash |-> <<>>, ahash |-> <<>>]
KeyFor(alg) == CASE alg \in {"RS256", "RS384", "RS512", "PS256"} -> "rsa1" [] alg = "ES256" -> "ec1" [] alg = "ES384" -> "ec384"
                 [] alg = "none" -> "-" [] OTHER -> "oct1"
Of(alg) == [T0 EXCEPT !.alg = alg, !.signer = KeyFor(alg)]
FullJar == {<<"op", "rsa1">>, <<"op", "ec1">>, <<"op", "ec384">>, <<"op", "oct1">>, <<"op2", "rsa3">>}
NoOp == {<<"op2", "rsa3">>}
P0 == [none |-> <<>>, sigalg |-> <<>>, allowed |-> <<>>, jar |-> FullJar]
Signing == {Of("RS256"), Of("ES256"), Of("HS256"), Of("none"),
            [Of("RS256") EXCEPT !.signer = "rsa4"],                        \* a key of nobody in the jar
            [Of("RS256") EXCEPT !.signer = "rsa3"],                        \* the other provider's key, naming op
            [Of("RS256") EXCEPT !.signer = "rsa3", !.t.iss = "op2"],       \* properly issued by the other provider
            [Of("RS256") EXCEPT !.signer = "rsa4", !.t.iss = "evil"],
            [Of("HS256") EXCEPT !.signer = "oct3"],
            [Of("none") EXCEPT !.t.iss = "evil"],
            [Of("RS256") EXCEPT !.tamper = "payload"], [Of("RS256") EXCEPT !.tamper = "sig"],
            [Of("ES256") EXCEPT !.tamper = "header"], [Of("RS256") EXCEPT !.tamper = "strip"],
            [T0 EXCEPT !.form = "garbage"], [T0 EXCEPT !.form = "jwe"], [T0 EXCEPT !.form = "json"],
            [T0 EXCEPT !.form = "object"]}
ClaimDefects == {[Good EXCEPT !.iss = "op2"], [Good EXCEPT !.aud = <<"client2">>], [Good EXCEPT !.aud = <<Me, "client2">>],
                 [Good EXCEPT !.aud = <<Me, "client2">>, !.azp = <<Me>>],
                 [Good EXCEPT !.azp = <<"client2">>], [Good EXCEPT !.exp = -1], [Good EXCEPT !.iat = -14401], [Good EXCEPT !.nonce = <<"n2">>],
                 [Good EXCEPT !.nonce = <<>>]}
SignerOf(t, alg) == IF alg = "none" THEN "-" ELSE IF t.iss = "op2" THEN "rsa3" ELSE "rsa1"
Claimed == {[Of(a) EXCEPT !.t = t, !.signer = SignerOf(t, a)] : a \in {"RS256", "none"}, t \in ClaimDefects}
Lacking == {[Of(a) EXCEPT !.lacks = x] : a \in {"RS256", "none"}, x \in {"iss", "sub", "aud", "exp", "iat"}}
M0 == [tok |-> <<>>, code |-> <<>>, at |-> <<>>, entry |-> NoEntry]
Policies == {[none |-> n, sigalg |-> s, allowed |-> a, jar |-> j] :
              n \in {<<>>, <<TRUE>>, <<FALSE>>}, s \in {<<>>, <<"none">>, <<"RS256">>, <<"ES256">>},
              a \in {<<>>, <<"RS256">>, <<"none">>, <<"HS256">>}, j \in {FullJar, NoOp, {}}}

HashAlgs == {"RS256", "RS384", "RS512", "PS256", "ES256", "ES384", "HS256", "HS384", "HS512", "none"}
OtherBits(b) == CASE b = 256 -> 512 [] b = 384 -> 256 [] OTHER -> 384
HashVals(a, v, w) == {<<>>, << <<v, Bits(a)>> >>, << <<w, Bits(a)>> >>, << <<v, OtherBits(Bits(a))>> >>, << <<"something else", 0>> >>}

Small == {Of("RS256"), [Of("ES256") EXCEPT !.t.nonce = <<>>], [Of("RS256") EXCEPT !.t.exp = -1], [Of("RS256") EXCEPT !.signer = "rsa4"]}

Init ==
  /\ c \in DOMAIN Carriers
  /\ \/ /\ Part = "policy" /\ hist = <<>>
        /\ \/ \E tok \in Signing : p \in Policies /\ e = Expect /\ st = [pc |-> "complete", m |-> [M0 EXCEPT !.tok = <<tok>>]]
           \/ \E tok \in Claimed \cup Lacking : p \in {[P0 EXCEPT !.none = n] : n \in {<<>>, <<TRUE>>}} /\ e \in {Expect, Blind}
                                     /\ st = [pc |-> "complete", m |-> [M0 EXCEPT !.tok = <<tok>>]]
           \/ p = P0 /\ e = Expect /\ st = [pc |-> "complete", m |-> M0]
     \/ /\ Part = "hash" /\ hist = <<>> /\ c \in {"authzresp", "tokenresp"}
        /\ e = Expect
        /\ \E a \in HashAlgs : \E ch \in HashVals(a, "code1", "code2"), ah \in HashVals(a, "at1", "at2"),
              co \in {<<>>, <<"code1">>}, at \in {<<>>, <<"at1">>} :
             /\ c = "tokenresp" => at # <<>> /\ a \in {"RS256", "none"}
             /\ p = [P0 EXCEPT !.none = IF a = "none" THEN <<TRUE>> ELSE <<>>]
             /\ st = [pc |-> "complete", m |-> [M0 EXCEPT !.tok = <<[Of(a) EXCEPT !.chash = ch, !.ahash = ah]>>, !.code = co, !.at = at]]
     \/ Part = "history" /\ hist = <<>> /\ p = P0 /\ e = Expect /\ st = [pc |-> "idle", m |-> M0]
H(op, tok) == [op |-> op, tok |-> tok, res |-> "", entry |-> NoEntry]
Resolve(m) == IF OK(c, m, p, e) THEN [m EXCEPT !.entry = EntryAfter(m)] ELSE [m EXCEPT !.entry = AnyEntry]
Edit ==
  /\ Part = "history" /\ Len(hist) < Depth /\ UNCHANGED <<c, p, e>>
  /\ \/ \E tok \in Small : st' = [st EXCEPT !.m.tok = <<tok>>] /\ hist' = Append(hist, H("put", <<tok>>))
     \/ Given(st.m.tok) /\ st' = [st EXCEPT !.m.tok = <<>>] /\ hist' = Append(hist, H("drop", <<>>))
     \/ \E how \in {"inject", "wire"} : st' = [st EXCEPT !.m.entry = [k |-> "injected", tok |-> <<>>]] /\ hist' = Append(hist, H(how, <<>>))
     \/ LET ok == OK(c, st.m, p, e) m1 == Resolve(st.m) IN
          /\ st' = [st EXCEPT !.m = m1]
          /\ hist' = Append(hist, [op |-> "verify", tok |-> <<>>, res |-> IF ok THEN "accepted" ELSE "refused", entry |-> m1.entry])
Next == \/ /\ Part # "history" /\ ~Final(st.pc) /\ st' = Step(st, c, p, e) /\ UNCHANGED <<c, p, e, hist>>
        \/ Edit
Spec1 == Init /\ [][Next]_vars

Agree == Final(st.pc) => (st.pc = "accepted" <=> OK(c, st.m, p, e))
EntryRule == st.pc = "accepted" => st.m.entry = EntryAfter(st.m)
\* said without mechanism: a signed token that gets through was signed by the very issuer it names
Authentic == st.pc = "accepted" /\ Given(st.m.tok) =>
  LET tok == st.m.tok[1] IN
    /\ tok.form = "jws" /\ Fits(tok.t, e)
    /\ Unsigned(tok) => UnsignedAllowed(p)
    /\ ~Unsigned(tok) => tok.tamper = "no" /\ <<tok.t.iss, tok.signer>> \in FullJar
NoInjected == (hist # <<>> /\ hist[Len(hist)].op = "verify" /\ hist[Len(hist)].res = "accepted") => st.m.entry.k # "injected"
\* what is packed verifies, and only with the very code and token
Bound == (Part = "hash" /\ st.pc = "complete" /\ c = "authzresp" /\ ~Unsigned(st.m.tok[1]) /\ OK(c, st.m, p, e)) =>
   /\ Given(st.m.code) => st.m.tok[1].chash = PackedHash(st.m.code, st.m.tok[1].alg)
   /\ Given(st.m.at) => st.m.tok[1].ahash = PackedHash(st.m.at, st.m.tok[1].alg)
   /\ ~Given(st.m.code) \/ ~OK(c, [st.m EXCEPT !.code = <<"code2">>], p, e)
EmitOne == Final(st.pc) => PrintT("@@" \o ToJson([c |-> c, m |-> [st.m EXCEPT !.entry = NoEntry], p |-> p, e |-> e,
                             res |-> IF Given(st.m.tok) /\ Open(st.m.tok[1], p) THEN "open" ELSE st.pc]))
EmitHist == Part = "history" /\ Len(hist) = Depth /\ hist[Depth].op = "verify" =>
   PrintT("@@" \o ToJson([c |-> c, hist |-> hist]))
=============================================================================
