"""C13: logout tokens, back-channel logout requests, end-session requests."""
import json

import jose
import vclock
from c_carrier import _enc_key, expectations, jar_of, mint as mint_id, policy
from c_token import verdict
from gen import near, nears
from vlib import observe

NOW = vclock.NOW
EVENT = "http://schemas.openid.net/event/backchannel-logout"
EVENTS = {"exact": {EVENT: {}}, "none": {}, "other": {"http://schemas.openid.net/event/frontchannel-logout": {}},
          "two": {EVENT: {}, "http://schemas.openid.net/event/x": {}}, "content": {EVENT: {"sid": "1"}}, "list": {EVENT: []},
          "null": {EVENT: None}, "text": {EVENT: ""}, "similar": {EVENT + "/": {}}, "notobject": [EVENT]}


def claims(t, n):
    d = {"iss": t["iss"], "aud": t["aud"] if len(t["aud"]) > 1 or n % 2 or " " in t["aud"][0] else t["aud"][0], "iat": NOW + t["iat"], "jti": "j%d" % n,
         "events": EVENTS[t["events"]]}
    if t["nonce"]:
        d["nonce"] = "n"
    if t["sub"]:
        d["sub"] = "alice"
    if t["sid"]:
        d["sid"] = "s1"
    for k in ("sub", "sid"):            # null is no value
        if not t[k] and (n >> (k == "sid")) % 5 == 0:
            d[k] = None
    d.pop(t["lacks"], None)
    if n % 4 == 0:
        d["xtra"] = 1
    return d


def kwargs(e):
    names = {"aud": "aud", "iss": "iss", "skew": "skew", "allowed": "allowed_sign_alg"}
    return {names[k]: v[0] for k, v in e.items() if v}


KEYS = {"RS256": "rsa1", "ES256": "ec1", "HS256": "oct1", "none": None}
JAR = [["op", "rsa1"], ["op", "ec1"], ["op", "oct1"], ["op2", "rsa3"]]


def run_token(t, e, alg, n):
    from oidcmsg.oidc.session import LogoutToken
    vclock.freeze(NOW, (0, 500_000_000, 999_999_999)[n % 3])

    def go():
        d = claims(t, n)
        if alg:
            a = alg[0]
            s = jose.jws(d, a, KEYS[a], KEYS[a])
            d2 = dict(d, iss="op")
            m = LogoutToken().from_jwt(s, jar_of(JAR)) if d.get("iss") == "op" else \
                LogoutToken().from_jwt(jose.jws(d, a, KEYS[a], KEYS[a]), jar_of(JAR), iss="op")
        elif n % 2:
            m = LogoutToken().from_json(json.dumps(d))
        else:
            m = LogoutToken(**d)
        return m.verify(**kwargs(e))
    return verdict(go)


def mint(r, t, n):
    d = claims(t, n)
    if r["form"] == "json":
        return json.dumps(d)
    if r["form"] == "garbage":
        return ["x", "a.b.c", "e30.e30.", "eyJhbGciOiJSUzI1NiJ9"][n % 4]
    if r["form"] == "jwejson":
        from cryptojwt.jwe.jwe import JWE
        return JWE(json.dumps(d), alg="RSA-OAEP", enc="A128CBC-HS256").encrypt(keys=[_enc_key()], kid="enc")
    signer = None if r["alg"] == "none" else r["signer"]
    kid = {"rsa4": "rsa1", "rsa3": "rsa1" if n % 2 and t["iss"] == "op" else "rsa3", "oct3": "oct1"}.get(signer, signer)
    s = jose.jws(d, r["alg"], signer, kid)
    return jose.tamper(s, r["tamper"]) if r["tamper"] != "no" else s


def run_request(r, t, p, e, n):
    from oidcmsg import verified_claim_name
    from oidcmsg.oidc.session import BackChannelLogoutRequest
    vclock.freeze(NOW, (0, 999_999_999)[n % 2])

    def go():
        d = {"logout_token": mint(r, t, n)}
        if n % 3 == 0:
            d[verified_claim_name("logout_token")] = {"sub": "mallory"}
        if n % 2 and n % 3:
            from urllib.parse import urlencode
            m = BackChannelLogoutRequest().from_urlencoded(urlencode(d))
        else:
            m = BackChannelLogoutRequest(**d)
        res = m.verify(**dict(policy(p, n), **kwargs(e)))
        if res is True:
            want = claims(t, n)
            if isinstance(want["aud"], str):
                want["aud"] = [want["aud"]]
            got = m[verified_claim_name("logout_token")]
            got = {k: got[k] for k in got.keys()}
            if got != want:
                return "accepted with verified entry %r" % got
        return res
    return verdict(go)


def run_end(x, p, e, n):
    from oidcmsg.oidc.session import EndSessionRequest
    vclock.freeze(NOW, 0)

    def go():
        d = {"state": "s"} if n % 2 else {}
        if x["uri"]:
            d["post_logout_redirect_uri"] = "https://rp.example.com/"
        if x["hint"]:
            d["id_token_hint"] = mint_id(x["hint"][0], n)[0]
        return EndSessionRequest(**d).verify(**dict(policy(p, n), **expectations(e)))
    return verdict(go)


def C13(ctx):
    rng = ctx.rng
    ctx.assumptions += ["encrypted logout tokens that contain a properly signed one may be accepted or refused"]
    model = lambda part: ctx.tlc("LogoutMC", 'SPECIFICATION Spec1\nCONSTANT Part="%s"\nINVARIANTS Agree Monotone Authentic Emit\n' % part).prints
    for part in ("token", "request", "endsession"):
        cases = model(part)
        ctx.extra["cases_from_model_" + part] = len(cases)
        ctx.sample(cases[0])
        for c in cases:
            for _ in range({"token": 1, "request": 1, "endsession": 6}[part]):
                n = rng.randrange(10000)
                if part == "token":
                    o, why = run_token(c["t"], c["e"], c["alg"], n)
                elif part == "request":
                    o, why = run_request(c["r"], c["t"], c["p"], c["e"], n)
                else:
                    o, why = run_end(c["x"], c["p"], c["e"], n)
                ctx.validated += 1
                if c["res"] == "open" and o in ("accepted", "refused"):
                    continue
                if o != c["res"]:
                    ctx.violation("logout %s %s: %s, should be %s %s" % (part, json.dumps(c), o, c["res"], why), c)
    recs = []
    good = {"lacks": "", "nonce": False, "events": "exact", "sub": True, "sid": False, "aud": ["client1"], "iss": "op", "iat": 0}
    exp = {"aud": ["client1"], "iss": ["op"], "skew": [], "allowed": []}
    for v in nears("client1"):
        for t, e in ((dict(good, aud=[v]), exp), (dict(good, aud=["x", v]), exp), (good, dict(exp, aud=[v])), (dict(good, aud=[v]), dict(exp, aud=[v]))):
            recs.append({"k": "token", "t": t, "e": e, "alg": []})
    for v in nears("op"):
        recs += [{"k": "token", "t": dict(good, iss=v), "e": exp, "alg": []}, {"k": "token", "t": good, "e": dict(exp, iss=[v]), "alg": []},
                 {"k": "token", "t": dict(good, iss=v), "e": dict(exp, iss=[v]), "alg": []}]
    for x in recs:
        x["o"], x["why"] = run_token(x["t"], x["e"], [], rng.randrange(10000))
    for _ in range(40000 if ctx.thorough else 4000):
        n = rng.randrange(10000)
        rnd = rng.random
        t = {"lacks": rng.choice([""] * 12 + ["iss", "aud", "iat", "jti", "events"]), "nonce": rnd() < 0.07,
             "events": rng.choice(["exact"] * 14 + sorted(EVENTS)), "sub": rnd() < 0.7, "sid": rnd() < 0.6,
             "aud": rng.choice([["client1"], ["client1"], ["client2"], ["client12"], ["a", "client1"], ["client", "x", "y"]]),
             "iss": rng.choice(["op", "op", "op", "op2"]), "iat": rng.choice([0, -5, 1, 5, 10, 11, 60, 61, -100000, 100000])}
        e = {"aud": rng.choice([[], ["client1"], ["client1"], ["client"]]), "iss": rng.choice([[], [t["iss"]], ["op"]]),
             "skew": rng.choice([[], [0], [5], [10], [60]]), "allowed": rng.choice([[], [], [], ["RS256"], ["ES256"], ["none"]])}
        if rnd() < 0.15:
            e["aud"] = [near(rng, rng.choice(t["aud"]))]
        elif rnd() < 0.15:
            t["aud"] = [near(rng, (e["aud"] or ["client1"])[0])]
        if rnd() < 0.07:
            e["iss"] = [near(rng, t["iss"])]
        if rnd() < 0.5:
            rec = {"k": "token", "t": t, "e": e, "alg": rng.choice([[], ["RS256"], ["ES256"], ["none"]])}
            if rec["alg"] and rec["alg"] != ["none"]:
                t["iss"] = "op"
                if t["lacks"] == "iss":
                    t["lacks"] = ""
            rec["o"], rec["why"] = run_token(t, e, rec["alg"], n)
        else:
            alg = rng.choice(["RS256", "RS256", "ES256", "HS256", "none"])
            r = {"form": rng.choice(["jws"] * 10 + ["garbage", "json", "jwejson"]), "alg": alg,
                 "signer": rng.choice({"RS256": ["rsa1", "rsa1", "rsa1", "rsa4", "rsa3"], "ES256": ["ec1", "ec1", "ec2"], "HS256": ["oct1", "oct1", "oct3"], "none": ["-"]}[alg]),
                 "tamper": "no" if alg == "none" else rng.choice(["no"] * 8 + ["payload", "header", "sig", "strip"])}
            if t["iss"] == "op2" and alg == "RS256" and rnd() < 0.8:
                r["signer"] = "rsa3"
            p = {"none": rng.choice([[], [True], [False]]), "sigalg": rng.choice([[], [], [alg], ["RS256"], ["none"]]), "allowed": [],
                 "jar": rng.choice([JAR, JAR, JAR, [["op2", "rsa3"]], []])}
            rec = {"k": "request", "r": r, "t": t, "p": p, "e": e, "alg": [alg]}
            rec["o"], rec["why"] = run_request(r, t, p, e, n)
        recs.append(rec)
    bad = ctx.judge("LogoutTrace", recs)
    ctx.validated += len(recs)
    ctx.extra["random_accepted"] = sum(x["o"] == "accepted" for x in recs)
    for i, cl in sorted(bad.items()):
        x = recs[i]
        ctx.violation("%s: %s %s: %s" % (json.dumps({k: v for k, v in x.items() if k not in ("o", "why")}), x["o"], x["why"], "; ".join(cl)), x)
