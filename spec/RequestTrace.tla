---------------------------- MODULE RequestTrace ----------------------------
EXTENDS Request, TraceBase
Norm(r) == [r EXCEPT !.e.jar = {<<r.e.jar[i][1], r.e.jar[i][2]>> : i \in 1..Len(r.e.jar)}]
Same(f, g) == Dom(f) = Dom(g) /\ \A k \in Dom(f) : f[k] = g[k]
SameOpt(f, g) == Len(f) = Len(g) /\ (Given(f) => Same(f[1], g[1]))
Clauses(x) == LET r == Norm(x.r) acc == x.o = "accepted" f == Effective(r) oidc == r.kind = "oidc" sure == acc /\ ~ByReference(r) IN
  << <<"a request that meets every rule is accepted", RequestOK(r) /\ ~OpenRequest(r) => acc>>,
     <<"there is a request object or a reference to one", acc => Present(r)>>,
     <<"the request object is validly signed", acc /\ Given(r.obj) => ObjectSigned(r.obj[1], r.e)>>,
     <<"the request object is issued by the client or the opponent", acc /\ Given(r.obj) => ObjectIssuer(r)>>,
     <<"the effective request is complete", sure => Complete(r.kind, f)>>,
     <<"the effective parameters", acc => Same(x.after.params, After(r).params)>>,
     <<"the verified copy of the request object", acc => SameOpt(x.after.request, After(r).request)>>,
     <<"the verified hint", acc => x.after.hint = After(r).hint>>,
     <<"the hint is validly signed", acc => HintOK(r)>>,
     <<"openid is in the scope", acc /\ oidc => ScopeOK(f)>>,
     <<"nonce", acc /\ oidc => NonceOK(f, r.e)>>,
     <<"offline access needs the consent prompt", acc /\ oidc => OfflineOK(f)>>,
     <<"prompt none stands alone", acc /\ oidc => PromptAlone(f)>>,
     <<"defined prompt and display values", acc /\ oidc => ValuesOK(f)>> >>
=============================================================================
