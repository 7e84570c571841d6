------------------------------- MODULE Jwe -------------------------------
(* Reading an encrypted JWT (C27), on its own or as the request object of an              *)
(* authorization request.                                                                 *)
(*   x: [alg, enc, key, tamper, inner]     key: name of the key it was encrypted to        *)
(*      inner: [form: jws | json | jwe | text, j]   j: the signed JWT inside (Jws)         *)
(*   e: the environment of Jws plus                                                        *)
(*      dec: sequence of [name, owner] private decryption keys in the jar                  *)
(*      encalg, encenc (opt): demanded algorithms ("" demands nothing)                     *)
(*      route: message | oidc | jar | par                                                  *)
EXTENDS Jws
Client == "client1"                 \* the client_id of the request and of its object
Wants(o, v) == Given(o) /\ o[1] # "" => o[1] = v
Mine(x, e) == \E i \in 1..Len(e.dec) : e.dec[i].name = x.key /\ e.dec[i].owner = ""
Demanded(x, e) == Wants(e.encalg, x.alg) /\ Wants(e.encenc, x.enc)
IssuedBy(x, e) == e.route # "message" /\ Given(x.inner.j.iss) => x.inner.j.iss[1] = Client
InnerOK(x, e) == CASE x.inner.form = "jws" -> MayLoad(x.inner.j, e)
                   [] x.inner.form = "json" -> TRUE
                   [] OTHER -> FALSE
MayRead(x, e) == x.tamper = "no" /\ Mine(x, e) /\ Demanded(x, e) /\ InnerOK(x, e) /\ IssuedBy(x, e)
\* nothing is said about plain JSON where a signature algorithm was demanded
OpenRead(x, e) == x.inner.form = "json" /\ Given(e.sigalg)
-----------------------------------------------------------------------------
(* The procedure, from the outside in.  st: [pc, text, in]  in: where the reading of the  *)
(* signed JWT inside stands                                                               *)
Closed == [pc |-> "header", in |-> Start]
JStep(st, x, e) ==
  CASE st.pc = "header" -> IF Given(e.encalg) /\ e.encalg[1] \notin {"", x.alg} THEN [st EXCEPT !.pc = "refused"]
                           ELSE IF Given(e.encenc) /\ e.encenc[1] \notin {"", x.enc} THEN [st EXCEPT !.pc = "refused"]
                           ELSE [st EXCEPT !.pc = "decrypt"]
    [] st.pc = "decrypt" -> IF x.tamper = "no" /\ x.key \in {e.dec[i].name : i \in {k \in 1..Len(e.dec) : e.dec[k].owner = ""}}
                            THEN [st EXCEPT !.pc = "inside"] ELSE [st EXCEPT !.pc = "refused"]
    [] st.pc = "inside" -> IF x.inner.form = "json" THEN [st EXCEPT !.pc = "issuer"]
                           ELSE IF x.inner.form # "jws" THEN [st EXCEPT !.pc = "refused"]
                           ELSE IF st.in.pc = "loaded" THEN [st EXCEPT !.pc = "issuer"]
                           ELSE IF st.in.pc = "refused" THEN [st EXCEPT !.pc = "refused"]
                           ELSE [st EXCEPT !.in = Step(st.in, x.inner.j, e)]
    [] st.pc = "issuer" -> IF e.route # "message" /\ x.inner.j.iss \notin {<<>>, <<Client>>} THEN [st EXCEPT !.pc = "refused"]
                           ELSE [st EXCEPT !.pc = "loaded"]
=============================================================================
