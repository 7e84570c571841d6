"""C14: bearer JSON Web Tokens."""
import json

import jose
import vclock
from gen import near, nears
from c_carrier import jar_of
from c_token import verdict

NOW = vclock.NOW


def claims(t):
    d = {"sub": "alice", "jti": "j1"}
    for k in ("exp", "iat", "nbf"):
        if t[k]:
            d[k] = NOW + t[k][0]
    for k in ("aud", "iss"):
        if t[k]:
            d[k] = t[k][0]
    for k in (t.get("without") or []) + [t["lacks"]] * bool(t["lacks"]):
        del d[k]
    return d


def run(cls, t, e, skew, n):
    vclock.freeze(NOW, (0, 500_000_000, 999_999_999)[n % 3])
    kw = {k: e[k][0] for k in ("aud", "iss") if e[k]}
    if skew:
        kw["skew"] = skew[0]

    def go():
        d = claims(t)
        if "aud" in d and len(d["aud"]) == 1 and n % 2 and " " not in d["aud"][0]:
            d["aud"] = d["aud"][0]
        if n % 7 == 0 and d.get("iss", "op") in ("op", "op1", "op2"):
            m = cls().from_jwt(jose.jws(d, "HS256", "oct2", "oct2"), jose.jar([("", "oct2", "oct2", "sig"), ("op", "rsa1", "r", "sig"), ("op2", "rsa1", "r", "sig"), ("op1", "rsa1", "r", "sig")]))
        elif n % 3:
            m = cls(**d)
        else:
            m = cls().from_json(json.dumps(d))
        return m.verify(**kw)
    return verdict(go)


def C14(ctx):
    from oidcmsg.oidc import AuthnToken, JsonWebToken
    rng = ctx.rng
    cases = ctx.tlc("JwtMC", "SPECIFICATION Spec1\nINVARIANTS Agree Monotone Emit\n").prints
    ctx.extra["cases_from_model"] = len(cases)
    ctx.sample(cases[0])
    need = ("iss", "aud", "exp")
    for c in cases:
        e = c["e"]
        for cls in (JsonWebToken, AuthnToken):
            t, want = c["t"], c["res"]
            if cls is AuthnToken:
                if not all(t[k] for k in need):
                    if rng.random() < 0.9:      # incomplete ones: a sample is enough
                        continue
                    want = "refused"
            elif t["lacks"]:                    # nothing is required of a plain JWT
                continue
            n = rng.randrange(10000)
            if cls is JsonWebToken:             # every claim of it is optional
                t = dict(t, without=rng.choice([[], ["sub"], ["jti"], ["sub", "jti"]]))
            o, why = run(cls, t, e, e["skew"], n)
            ctx.validated += 1
            if o != want:
                ctx.violation("%s %s with %s: %s, should be %s %s" % (cls.__name__, json.dumps(t), json.dumps(e), o, want, why), c)
    recs = []
    for _ in range(25000 if ctx.thorough else 2500):
        span = [-NOW, -NOW, 1 - NOW, -NOW - 1, 300000000, -100000, -601, -600, -61, -60, -59, -1, 0, 1, 59, 60, 61, 600, 601, 100000]
        t = {k: [rng.choice(span)] if rng.random() < 0.6 else [] for k in ("iat", "nbf")}
        t["exp"] = [rng.choice(span + [0, 1, 60, 600, 3600] * 2)]
        t["aud"] = [rng.choice([["a"], ["b"], ["a", "b"], ["ab"], ["https://a.example.com/", "x"]])]
        t["iss"] = [rng.choice(["op", "op1"])]
        cls = rng.choice([JsonWebToken, AuthnToken])
        t["lacks"] = rng.choice([""] * 9 + ["sub", "jti"]) if cls is AuthnToken else ""
        t["without"] = rng.choice([[], ["sub"], ["jti"], ["sub", "jti"]]) if cls is JsonWebToken else []
        if cls is JsonWebToken and rng.random() < 0.3:
            t[rng.choice(["exp", "aud", "iss"])] = []
        e = {"aud": rng.choice([[], ["a"], ["b"], ["https://a.example.com/"]]), "iss": rng.choice([[], ["op"], t["iss"], t["iss"]]), "skew": []}
        if rng.random() < 0.2:
            e["aud"] = [near(rng, rng.choice((t["aud"] or [["a"]])[0]))]
        elif rng.random() < 0.2:
            t["aud"] = [[near(rng, (e["aud"] or ["a"])[0])]]
        if rng.random() < 0.1:
            e["iss"] = [near(rng, (t["iss"] or ["op"])[0])]
        if _ < 2 * len(nears("op")):
            v, w = nears("op")[_ // 2], nears("a")[_ // 2 % len(nears("a"))]
            t.update(iat=[0], nbf=[0], exp=[10], lacks="", without=[], aud=[[[w], ["x", w]][_ % 2]], iss=[v])
            e.update(aud=[["a", w][_ % 2]], iss=[[v, "op"][_ % 3 == 0]])
        skews = sorted(rng.sample([0, 1, 59, 60, 61, 599, 600, 3600, 200000], 3))
        o, why = [], ""
        for s in skews:
            v, w = run(cls, t, e, [] if s == 0 and rng.random() < 0.5 else [s], rng.randrange(10000))
            o.append(v)
            why += w
        recs.append({"cls": cls.__name__, "t": t, "e": e, "skews": skews, "o": o, "why": why})
    bad = ctx.judge("JwtTrace", recs)
    ctx.validated += len(recs)
    ctx.extra["random_accepted"] = sum(x["o"].count("accepted") for x in recs)
    ctx.sample(recs[0])
    for i, cl in sorted(bad.items()):
        x = recs[i]
        ctx.violation("%s: %s" % (json.dumps(x), "; ".join(cl)), x)
