------------------------------ MODULE PackTrace ------------------------------
(* c03 records: what was read is compared by the codec's description of messages *)
EXTENDS Pack, TraceBase
Clauses(r) ==
  CASE r.k = "env" -> << <<"what can be opened is loaded", Readable(r.env, r.r) => r.o = "loaded">>, <<"what cannot be opened is refused", ~Readable(r.env, r.r) => r.o = "refused">>,
                         <<"the same message", r.o = "loaded" => r.back = r.es /\ r.bcls = r.cls>>, <<"nothing is loaded", r.o # "loaded" => r.left = 0>>,
                         <<"signature header", r.o = "loaded" => r.jws = Header(r.env, "sig")>>,
                         <<"encryption header", r.o = "loaded" => r.jwe = Header(r.env, "enc")>> >>
    [] OTHER -> LET s == RunOps(Start(r.exp), r.ops) IN << <<"packed ID Tokens", r.out = s.out>> >>
=============================================================================
