"""C15, C16 (and part of C12): authorization requests, with and without a request object."""
import json
from urllib.parse import urlencode

import jose
import vclock
from c_carrier import jar_of
from c_token import verdict
from gen import nears

NOW = vclock.NOW
LISTS = ("response_type", "scope", "prompt", "ui_locales", "acr_values", "claims_locales")
NULL = ["<null>"]
HINTNAME = "verified_id_token_hint"     # older name of the verified hint
REPLACE = {"rsa4": "rsa1", "ec2": "ec1", "oct3": "oct1"}    # keys nobody knows, pretending


def cls_of(kind):
    from oidcmsg import oauth2, oidc
    return {"oidc": oidc.AuthorizationRequest, "jar": oauth2.JWTSecuredAuthorizationRequest, "par": oauth2.PushedAuthorizationRequest}[kind]


def f(x):
    return dict(x) if x else {}         # the empty function arrives as an empty list


def plain(params, n, lists=LISTS):
    d = {}
    for i, (k, v) in enumerate(f(params).items()):
        if k in LISTS:
            d[k] = list(v) if k in lists and (n >> i) % 2 else " ".join(v)
        else:
            d[k] = None if v == NULL else v[0]
    return d


def bad_claims(n):
    bad = {"iss": "op", "sub": "mallory", "aud": ["client1"], "exp": NOW + 300, "iat": NOW}
    return [bad, json.dumps(bad), "x"][n % 3]


def sign(d, alg, signer, tamper, n):
    if alg == "none":
        return jose.jws(d, "none", None, kid="rsa1" if n % 5 == 0 else None)
    kid = REPLACE.get(signer, signer)
    if d.get("iss") == "client1" and signer == "rsa3" and n % 2:
        kid = "rsa1"                    # pretends to be the key of client1
    s = jose.jws(d, alg, signer, kid)
    return jose.tamper(s, tamper) if tamper != "no" else s


def hint_of(h, n):
    d = {"iss": h["iss"], "sub": "alice", "aud": ["client1"], "exp": NOW + 300, "iat": NOW}
    if h["form"] == "json":
        return json.dumps(d), d
    if h["form"] == "garbage":
        return ["x", "a.b.c", "e30.e30.", "eyJhbGciOiJSUzI1NiJ9"][n % 4], d
    return sign(d, h["alg"], h["signer"], h["tamper"], n), d


def names():
    from oidcmsg import verified_claim_name
    return {k: verified_claim_name(k) for k in ("request", "id_token_hint", "id_token")}


def norm(m, repl):
    d = {}
    for k in m.keys():
        v = m[k]
        v = (v.split(" ") if k in LISTS else [repl.get(v, v)]) if isinstance(v, str) else list(v) if isinstance(v, list) else NULL if v is None else [repr(v)]
        d[k] = v
    return d


def build(r, n, smuggle=()):
    """The keyword arguments of the message and what its embedded values stand for."""
    vn = names()
    repl, hint = {}, None
    lists = LISTS if r["kind"] == "oidc" else LISTS[:2]
    outer, obj = plain(r["outer"], n, lists), None
    if r["hint"]:
        tok, hint = hint_of(r["hint"][0], n)
        repl[tok] = "<hint>"
    if r["obj"]:
        o = r["obj"][0]
        obj = plain(o["params"], n >> 3, lists)
        if o["iss"]:
            obj["iss"] = o["iss"][0]
        if obj.get("id_token_hint") == "<hint>":
            obj["id_token_hint"] = tok
        for where, name in smuggle:
            if where == "object":
                obj[vn.get(name, name)] = bad_claims(n)
        s = sign(obj, o["alg"], o["signer"], o["tamper"], n)
        repl[s] = "<request>"
        if outer.get("request"):
            outer["request"] = s
    if outer.get("id_token_hint") == "<hint>":
        outer["id_token_hint"] = tok
    for where, name in smuggle:
        if where == "outer":
            outer[vn.get(name, name)] = bad_claims(n)
    return outer, obj, repl, hint


def run(r, n, smuggle=()):
    vclock.freeze(NOW, 0)
    cls, vn, e = cls_of(r["kind"]), names(), r["e"]
    outer, obj, repl, hint = build(r, n, smuggle)
    kw = {}
    kw["keyjar"] = jar_of(e["jar"])
    if e["opponent"]:
        kw["opponent_id"] = e["opponent"][0]
    if e["nonce"]:
        kw["nonce"] = e["nonce"][0]
    if e["none"]:
        kw["allow_sign_alg_none"] = True
    elif n % 3 == 0:
        kw["allow_sign_alg_none"] = False
    after = {"params": {}, "request": [], "hint": False}

    def go():
        flat = all(isinstance(v, str) for v in outer.values())
        if n % 3 == 1 and flat:
            m = cls().from_urlencoded(urlencode(outer))
        elif n % 3 == 2:
            m = cls().from_json(json.dumps(outer))
        else:
            m = cls(**outer)
        res = m.verify(**kw)
        if res is True:
            if vn["id_token"] in m and r["kind"] == "oidc":
                return "accepted with a verified ID Token"
            if vn["request"] in m:
                v = m[vn["request"]]
                if not hasattr(v, "to_dict"):
                    return "accepted with verified request %r" % (v,)
                after["request"] = [{k: x for k, x in norm(v, repl).items() if k not in vn.values() and k != HINTNAME}]
                del m[vn["request"]]
            if r["kind"] == "oidc":
                got = [m[k] for k in (vn["id_token_hint"], HINTNAME) if k in m]
                got = [x.to_dict() if hasattr(x, "to_dict") else x for x in got]
                if got and (len(got) == 1 or got != [hint, hint]):
                    return "accepted with verified hint %r" % (got,)
                after["hint"] = bool(got)
                for k in (vn["id_token_hint"], HINTNAME):
                    if k in m:
                        del m[k]
            after["params"] = {k: v for k, v in norm(m, repl).items() if k not in vn.values() and k != HINTNAME}
        return res
    o, why = verdict(go)
    return o, why, after


def same(got, want):
    return {k: got[k] for k in ("request", "hint")} == {"request": [f(x) for x in want["request"]], "hint": want["hint"]} and got["params"] == f(want["params"])


def smuggles(r, n):
    if n % 4:
        return ()
    ns = ["request", "id_token_hint", "id_token", HINTNAME] if r["kind"] == "oidc" else ["request"]
    if n // 4 % 3 == 0:     # all of them at once
        return [(where, k) for where in (("outer", "object") if n % 8 else ("outer",)) for k in ns]
    out = [("outer", ns[n // 4 % len(ns)])]
    if n % 8 == 0:
        out.append(("object", ns[n // 8 % len(ns)]))
    return out


def replay(ctx, part, share=1.0, always=None):
    rng = ctx.rng
    cases = ctx.tlc("RequestMC", 'SPECIFICATION Spec\nCONSTANT Part="%s"\nINVARIANTS Agree Authentic Overridden Emit\n' % part).prints
    ctx.extra["cases_from_model_" + part] = len(cases)
    ctx.sample(cases[0])
    for c in cases:
        if rng.random() >= share:
            continue
        n = always if always is not None else rng.randrange(100000)
        sm = smuggles(c["r"], n)
        o, why, after = run(c["r"], n, sm)
        ctx.validated += 1
        what = "%s request %s%s" % (part, json.dumps(c["r"]), " smuggling %s" % (sm,) if sm else "")
        if c["res"] != "open" and o != c["res"] or o not in ("accepted", "refused"):
            ctx.violation("%s: %s, should be %s %s" % (what, o, c["res"], why), c)
        elif o == "accepted" and c["after"] and not same(after, c["after"][0]):
            ctx.violation("%s is accepted and left as %s, should be %s" % (what, json.dumps(after), json.dumps(c["after"][0])), c)


JAR = [["client1", "rsa1"], ["client1", "ec1"], ["client1", "oct1"], ["client2", "rsa3"], ["client2", "oct2"], ["", "oct4"], ["op", "rsa2"]]
VALUES = {"client_id": [["client1"]] * 5 + [["client2"]], "response_type": [["code"], ["id_token"], ["code", "id_token"], ["id_token", "token"], ["token"], ["code", "token", "id_token"], ["token", "code", "id_token"]],
          "scope": [["openid"], ["openid", "email"], ["email", "openid", "offline_access"], ["offline_access", "openid"], ["email"], ["openid2"], ["OpenID"], ["s%d" % i for i in range(40)] + ["openid"], ["openid"] + ["s%d" % i for i in range(40)] + ["offline_access"]],
          "redirect_uri": [["https://rp.example.com/cb"], ["https://rp.example.com/cb?x=1&y=2"], ["com.example:/"]],
          "state": [["s1"], ["a b+c"], ["\u00e9\u20ac"], ["%20"]], "nonce": [["n1"], ["n1"], ["n2"], ["n1 "], NULL],
          "prompt": [["login"], ["consent"], ["none"], ["consent", "login"], ["none", "consent"], ["login", "none"], ["Login"], ["consent", "select_account"], ["nothing"], ["nothing", "consent"],
                     ["login", "consent", "none"], ["none", "login", "select_account"], ["login", "consent", "select_account"], ["login", "consent", "select_account", "nothing"], ["select_account", "login", "consent"]],
          "display": [["page"], ["wap"], ["popup"], ["touch"], ["pop"], ["Page"]], "login_hint": [["alice"], ["https://x.example.com/alice"]],
          "ui_locales": [["sv"], ["sv", "en-US"]], "acr_values": [["1"], ["urn:x", "2"]], "xtra": [["1"], ["x=y&z"]], "x#sv": [["\u00e5"]],
          "response_mode": [["query"], ["form_post"]], "aud": [["https://op.example.com"]], "jti": [["j1"]]}


def rand_params(rng, full):
    need = ["client_id", "response_type", "scope", "redirect_uri"]
    d = {k: rng.choice(VALUES[k]) for k in need if full or rng.random() < 0.85}
    for k in VALUES:
        if k not in need and rng.random() < 0.25:
            d[k] = rng.choice(VALUES[k])
    if rng.random() < 0.5:
        for k in ("prompt", "display"):
            if k in d and rng.random() < 0.8:
                d[k] = rng.choice(VALUES[k][:4])
    return d


def rand_request(rng):
    kind = rng.choice(["oidc", "oidc", "jar", "par"])
    hasobj = rng.random() < (0.5 if kind == "oidc" else 0.9)
    r = {"kind": kind, "outer": rand_params(rng, rng.random() < 0.9), "obj": [], "hint": [],
         "e": {"opponent": [], "nonce": rng.choice([[], [], ["n1"]]), "none": rng.random() < 0.3, "jar": rng.choice([JAR] * 6 + [JAR[:4], JAR[3:], []])}}
    if hasobj:
        alg, signer = rng.choice([("RS256", "rsa1"), ("ES256", "ec1"), ("HS256", "oct1")] * 4 +
                                 [("RS256", "rsa3"), ("RS256", "rsa4"), ("ES256", "ec2"), ("HS256", "oct2"), ("HS256", "oct3"), ("HS256", "oct4"), ("none", "-")])
        p = rand_params(rng, rng.random() < 0.9)
        r["obj"] = [{"alg": alg, "signer": signer, "tamper": "no" if alg == "none" else rng.choice(["no"] * 12 + ["payload", "sig", "strip", "header"]),
                     "iss": rng.choice([["client1"]] * 6 + [["client2"], ["op"], ["client3"], []]), "params": p}]
        r["outer"]["request"] = ["<request>"]
        if r["obj"][0]["iss"] and rng.random() < 0.8:
            p["client_id"] = r["obj"][0]["iss"]
        r["e"]["opponent"] = rng.choice([[]] * 6 + [r["obj"][0]["iss"], ["client1"], ["op"]])
    elif kind == "jar" and rng.random() < 0.5:
        r["outer"]["request_uri"] = ["https://rp.example.com/ro"]
    if kind == "oidc" and rng.random() < 0.25:
        r["hint"] = [{"form": rng.choice(["jws"] * 8 + ["json", "garbage"]), "alg": "RS256", "signer": rng.choice(["rsa2"] * 5 + ["rsa1", "rsa4"]),
                      "tamper": rng.choice(["no"] * 6 + ["payload", "sig"]), "iss": rng.choice(["op"] * 6 + ["client1", "nobody"])}]
        if rng.random() < 0.2:
            r["hint"][0].update(alg="none", signer="-", tamper="no")
        if rng.random() < 0.7 or not r["obj"]:
            r["outer"]["id_token_hint"] = ["<hint>"]
        if r["obj"] and rng.random() < 0.7:
            r["obj"][0]["params"]["id_token_hint"] = ["<hint>"]
    return r


def records(ctx, count, rules_only=False):
    rng = ctx.rng
    recs = []
    good = {"client_id": ["client1"], "response_type": ["code"], "scope": ["openid"], "redirect_uri": ["https://rp.example.com/cb"]}
    e0 = {"opponent": [], "nonce": [], "none": False, "jar": JAR}
    first = []
    if rules_only:      # values that resemble the defined ones
        for k, vs in (("scope", ["openid"]), ("prompt", ["none", "login", "consent", "select_account"]), ("display", ["page", "popup", "touch", "wap"])):
            for v in vs:
                for w in nears(v):
                    if " " not in w and k != "display" or k == "display":
                        first.append({"kind": "oidc", "outer": dict(good, **{k: [w]}), "obj": [], "hint": [], "e": e0})
        for w in nears("n1"):
            first.append({"kind": "oidc", "outer": dict(good, response_type=["code", "id_token"], nonce=["n1"]), "obj": [], "hint": [], "e": dict(e0, nonce=[w])})
            first.append({"kind": "oidc", "outer": dict(good, response_type=["id_token"], nonce=[w]), "obj": [], "hint": [], "e": dict(e0, nonce=["n1"])})
    else:
        for w in nears("client1"):
            for kind in ("oidc", "jar", "par"):
                o = {"alg": "RS256", "signer": "rsa1", "tamper": "no", "iss": ["client1"], "params": dict(good, client_id=[w])}
                first.append({"kind": kind, "outer": dict(good, request=["<request>"]), "obj": [o], "hint": [], "e": e0})
                first.append({"kind": kind, "outer": dict(good, request=["<request>"]), "obj": [dict(o, params=good)], "hint": [], "e": dict(e0, opponent=[w])})
    for i in range(count + len(first)):
        r = first[i] if i < len(first) else rand_request(rng)
        if rules_only and i >= len(first):
            while r["kind"] != "oidc":
                r = rand_request(rng)
        n = rng.randrange(100000)
        o, why, after = run(r, n, smuggles(r, n))
        recs.append({"r": r, "o": o, "why": why, "after": after, "n": n})
    return recs


def judge(ctx, recs):
    bad = ctx.judge("RequestTrace", recs)
    ctx.validated += len(recs)
    ctx.extra["random_accepted"] = sum(x["o"] == "accepted" for x in recs)
    for x in recs:
        if x["o"] not in ("accepted", "refused"):
            ctx.violation("request %s: %s" % (json.dumps(x["r"]), x["o"]), x)
    for i, cl in sorted(bad.items()):
        x = recs[i]
        ctx.violation("request %s: %s %s %s: %s" % (json.dumps(x["r"]), x["o"], x["why"], json.dumps(x["after"]), "; ".join(cl)), x)


def merge(ctx):
    from oidcmsg import oauth2, oidc
    rng = ctx.rng
    cases = ctx.tlc("MergeMC", "SPECIFICATION Spec\nINVARIANTS ObjectWins NothingElse Dropped Emit\n").prints
    ctx.extra["cases_from_model_merge"] = len(cases)
    for c in cases:
        n = rng.randrange(1000)
        other = ["xtra", "scope2", "scop", "scope#sv", "state#", "State", "client", "client_id ", "xtra", "state.x", "", "a.b*"][n % 12]     # names resembling the others
        c = dict(c, list=[other if k == "xtra" else k for k in c["list"]], **{d: {other if k == "xtra" else k: v for k, v in f(c[d]).items()} for d in ("outer", "obj", "res")})
        cls = [oauth2.AuthorizationRequest, oidc.AuthorizationRequest, oauth2.PushedAuthorizationRequest][n % 3]
        m = cls(**plain(c["outer"], n))
        ro = cls(**plain(c["obj"], n >> 2))
        if n % 2:
            ro = {k: ro[k] for k in ro.keys()}
        args = {"treatement": c["mode"]}
        if c["mode"] == "whitelist":
            args["whitelist"] = None if not c["list"] and n % 2 else list(c["list"])
        elif c["mode"] == "strict" and n % 3 == 0:
            args = {}
        o, why = verdict(lambda: m.merge(ro, **args) is None)
        ctx.validated += 1
        got = norm(m, {})
        if o != "accepted" or got != f(c["res"]):
            ctx.violation("merging %s: %s %s, should be %s" % (json.dumps(c), json.dumps(got), why, json.dumps(c["res"])), c)


def C15(ctx):
    ctx.assumptions += ["unsigned request objects (alg none) are allowed, OpenID Connect Core 6.1",
                        "plain parameters that do not make a complete request of their own may be refused",
                        "what a request_uri refers to is verified by whoever fetches it"]
    merge(ctx)
    replay(ctx, "override", 1.0 if ctx.thorough else 0.25)
    replay(ctx, "signer")
    replay(ctx, "kinds")
    judge(ctx, records(ctx, 40000 if ctx.thorough else 5000))


def C16(ctx):
    replay(ctx, "rules")
    if ctx.thorough:
        for n in (1, 2, 3):
            replay(ctx, "rules", always=n)
    judge(ctx, records(ctx, 40000 if ctx.thorough else 5000, rules_only=True))


def hints(ctx):
    """For C12: what is left under the verified names of a verified request."""
    replay(ctx, "hint")
    judge(ctx, records(ctx, 20000 if ctx.thorough else 2500, rules_only=True))
