"""C28: request objects made by clients and taken by providers."""
import base64
import json
from urllib.parse import urlencode

import jose
import vclock
from c_carrier import jar_of
from c_request import LISTS, VALUES, cls_of, f
from c_token import verdict
from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.key_bundle import KeyBundle
from cryptojwt.key_jar import KeyJar
from vlib import observe

NOW = vclock.NOW
CLAIMS = [{"userinfo": {"email": {"essential": True}, "picture": None}, "id_token": {"auth_time": {"essential": True}, "acr": {"values": ["urn:a", "urn:b"]}}},
          {"id_token": {"sub": {"value": "alice"}}}, {"userinfo": {"given_name": None}}]


def client_jar(keys):
    kj = KeyJar()
    kj.add_kb("", KeyBundle())
    for k in keys:
        kb = KeyBundle()
        kb.append(key_from_jwk_dict(dict(jose.MATERIAL[k["name"]], kid=k["name"], use="sig"), private=k["kty"] != "oct"))
        kj.add_kb(k["owner"], kb)
    return kj


# values that are not text: what the client holds, how it looks next to the object
TYPED = {"<zero>": (0, "0"), "<false>": (False, "false"), "<obj>": ({}, "{}"), "<list>": ([0, None, ""], "x"), "<tree>": ({"a": {"b": [1, {"c": False}]}}, "{}"),
         "<big>": (2 ** 60, "7"), "<num>": (-1.5, "1")}


def plain(params, n, claims, text=False):
    d = {}
    for i, (k, v) in enumerate(f(params).items()):
        d[k] = claims if v == ["<claims>"] else TYPED[v[0]][text] if v and v[0] in TYPED else list(v) if k in LISTS and (n >> i) % 2 else " ".join(v) if k in LISTS else v[0]
    return d


def norm(d, claims, now, tok):
    """Values as sequences of strings; times relative to the start."""
    out, jti = {}, None
    for k, v in d.items():
        if hasattr(v, "to_dict"):
            v = v.to_dict()
        if k in ("iat", "exp") and type(v) is int:
            v = str(v - NOW)
        elif k == "jti" and isinstance(v, str) and v:
            jti, v = v, "<jti>"
        elif k == "claims" and v in (claims, json.dumps(claims)):
            v = "<claims>"
        elif k == "claims" and isinstance(v, str) and v[:1] == "{" and json.loads(v) == claims:
            v = "<claims>"
        elif k == "request" and v == tok:
            v = "<request>"
        else:
            v = next((t for t, x in TYPED.items() if repr(x[0]) == repr(v)), v)
        out[k] = (v.split(" ") if k in LISTS else [v]) if isinstance(v, str) else v if isinstance(v, list) else [repr(v)]
    return out, jti


def who_signed(tok, keys):
    h, p, s = tok.split(".")
    head = json.loads(base64.urlsafe_b64decode(h + "=" * (-len(h) % 4)))
    alg = head.get("alg")
    if alg == "none":
        return alg, "-" if s == "" else "a signature all the same"
    for k in keys:
        if jose.MATERIAL[k]["kty"] == {"R": "RSA", "P": "RSA", "E": "EC", "H": "oct"}[alg[0]]:
            key = jose.key(k)
            raw = key.key if jose.MATERIAL[k]["kty"] == "oct" else key.public_key()
            try:
                if jose.SIGNER_ALGS[alg].verify((h + "." + p).encode(), base64.urlsafe_b64decode(s + "=" * (-len(s) % 4)), raw):
                    return alg, k
            except Exception:
                pass
    return alg, "nobody"


NAMES = ["rsa1", "rsa2", "rsa3", "rsa4", "ec1", "ec2", "ec384", "oct1", "oct2", "oct3"]


def run(m, p, n, seen):
    from oidcmsg import oauth2, oidc, verified_claim_name
    rec = {"made": False, "alg": "", "signer": "", "claims": {}, "fresh": True, "o": "unmade", "after": {}, "why": ""}
    claims = CLAIMS[n % 3]
    vclock.freeze(NOW + m["now"], [0, 1, 999_999_999][n % 3])
    try:
        src = [oidc.AuthorizationRequest, oidc.OpenIDRequest][n % 2] if m["kind"] == "oidc" else oauth2.AuthorizationRequest
        arq = src(**plain(m["params"], n, claims))
        before = arq.to_dict()
        args = {}
        if m["jti"] or n % 3 == 0:
            args["with_jti"] = m["jti"]
        if m["life"] or n % 3 == 1:
            args["lifetime"] = m["life"]
        o = observe(lambda: oidc.make_openid_request(arq, client_jar(m["jar"]), m["iss"], m["alg"], m["recv"][0] if m["recv"] else "", **args))
        if arq.to_dict() != before:
            rec.update(made=True, o="the request itself was changed")
            return rec
        if o[0] != "ok":
            rec["why"] = "%s: %s" % o[1:3]
            if o[1] == "Hang":
                rec["made"] = True
            return rec
        tok = o[1] if isinstance(o[1], str) else o[1].decode()
        rec["made"] = True
        rec["alg"], rec["signer"] = who_signed(tok, NAMES)
        body = tok.split(".")[1]
        rec["claims"], jti = norm(json.loads(base64.urlsafe_b64decode(body + "=" * (-len(body) % 4))), claims, m["now"], tok)
        rec["fresh"] = jti is None or jti not in seen
        seen.add(jti)
        cls = cls_of(m["kind"])
        outer = plain(p["outer"], 0, json.dumps(claims), True)
        outer["request"] = tok
        kw = {"keyjar": jar_of(p["jar"])}
        if p["opponent"]:
            kw["opponent_id"] = p["opponent"][0]
        got = {}

        def go():
            msg = cls().from_urlencoded(urlencode(outer)) if n % 2 else cls(**outer)
            res = msg.verify(**kw)
            if res is True:
                got.update({k: msg[k] for k in msg.keys() if k != verified_claim_name("request")})
            return res
        rec["o"], rec["why"] = verdict(go)
        if rec["o"] == "accepted":
            rec["after"], _ = norm(got, claims, m["now"], tok)
        return rec
    finally:
        vclock.off()


def rand(rng):
    kind = rng.choice(["oidc", "oidc", "jar", "par"])
    params = {k: rng.choice(VALUES[k]) for k in ("client_id", "response_type", "scope", "redirect_uri") if rng.random() < 0.95}
    for k in VALUES:
        if k not in params and k not in ("client_id", "response_type", "scope", "redirect_uri", "aud", "jti") and rng.random() < 0.25:
            params[k] = rng.choice(VALUES[k][:4])
    for k in ("xt", "xu#en"):
        if rng.random() < 0.3:
            params[k] = [rng.choice(sorted(TYPED))]
    if kind == "oidc" and rng.random() < 0.3:
        params["max_age"] = [rng.choice(["<zero>", "<zero>", "<big>"])]
    if kind == "oidc" and rng.random() < 0.4:
        params["claims"] = ["<claims>"]
    if rng.random() < 0.7:
        params["scope"] = ["openid", "email"]
        params["client_id"] = ["client1"]
        params["nonce"] = ["n1"]
        params.pop("prompt", None), params.pop("display", None)
    if rng.random() < 0.08:
        params[rng.choice(["iss", "aud", "jti"])] = [rng.choice(["client2", "x"])]
    kt = lambda x: {"RSA": "RSA", "oct": "oct", "EC": "EC384" if x == "ec384" else "EC"}[jose.MATERIAL[x]["kty"]]
    own = rng.choice([["rsa1", "ec1", "oct1", "ec384"]] * 3 + [["ec1"], ["rsa1"], []])
    jar = [{"owner": "client1", "name": x, "kty": kt(x)} for x in own]
    if rng.random() < 0.3:
        jar += [{"owner": "op", "name": x, "kty": kt(x)} for x in ("rsa2", "oct2", "ec2")]
    if rng.random() < 0.2:
        jar += [{"owner": "", "name": x, "kty": kt(x)} for x in rng.choice([["rsa3"], ["oct3"], ["rsa3", "oct3"]])]
    rng.shuffle(jar)
    m = {"kind": kind, "params": params, "alg": rng.choice(["RS256", "RS384", "RS512", "PS256", "PS512", "ES256", "ES384", "HS256", "HS512", "none"]), "iss": "client1",
         "jar": jar, "recv": rng.choice([["op"], ["https://op.example.com/x"], [], [""]]), "jti": rng.random() < 0.5, "life": rng.choice([0, 0, 1, 600, 86400]), "now": rng.choice([0, 0, 5, 86400 * 400])}
    good = [["client1", k["name"]] for k in jar if k["owner"] in ("client1", "")] + [["op", "rsa2"]]
    p = {"jar": rng.choice([good] * 5 + [[["client2", k["name"]] for k in jar] + [["client1", "rsa4"]]]), "opponent": rng.choice([[]] * 5 + [["client1"], ["client2"], ["op"]])}
    outer = dict(params)
    if rng.random() < 0.5:
        for k in list(outer):
            if k not in ("client_id", "response_type", "scope", "redirect_uri") and rng.random() < 0.5:
                del outer[k]
            elif k not in ("client_id", "claims") and rng.random() < 0.3 and k in VALUES:
                outer[k] = rng.choice(VALUES[k][:3])
    p["outer"] = outer
    return m, p


def C28(ctx):
    rng = ctx.rng
    ctx.assumptions += ["whether the provider looks at the audience and the expiry of a request object is not decided here",
                        "parameters that go by the name of a claim of the token itself (iss, aud, iat, exp, jti) are replaced by it"]
    cases = ctx.tlc("MakeMC", "SPECIFICATION Spec\nINVARIANTS AsAsked Agree Works Emit\n").prints
    ctx.extra["cases_from_model"] = len(cases)
    ctx.sample(cases[0])
    if not ctx.thorough:
        good = [c for c in cases if c["res"] == "accepted"]
        rest = [c for c in cases if c["res"] != "accepted"]
        cases = rng.sample(good, min(len(good), 2000)) + rng.sample(rest, min(len(rest), 2000))
    seen = set()
    for c in cases:
        m, p = c["m"], c["p"]
        r = run(m, p, rng.randrange(1000), seen)
        ctx.validated += 1
        what = "request object %s taken by %s" % (json.dumps(m), json.dumps(p))
        if r["made"] != (c["res"] != "unmade"):
            ctx.violation("%s: %s %s" % (what, "made" if r["made"] else "not made", r["why"]), c)
        elif not r["made"]:
            continue
        elif r["claims"] != f(c["claims"]) or not r["fresh"]:
            ctx.violation("%s says %s, should be %s" % (what, json.dumps(r["claims"]), json.dumps(c["claims"])), c)
        elif r["alg"] != m["alg"] or r["signer"] not in [k["name"] for k in m["jar"] if k["owner"] in (m["iss"], "")] + ["-"]:
            ctx.violation("%s is signed by %s with %s" % (what, r["signer"], r["alg"]), c)
        elif r["signer"] != c["signer"]:
            continue        # another of the keys it may be signed with
        elif c["res"] != "open" and r["o"] != c["res"] or r["o"] not in ("accepted", "refused"):
            ctx.violation("%s: %s, should be %s %s" % (what, r["o"], c["res"], r["why"]), c)
        elif r["o"] == "accepted" and c["after"] and r["after"] != f(c["after"][0]):
            ctx.violation("%s is taken as %s, should be %s" % (what, json.dumps(r["after"]), json.dumps(c["after"][0])), c)
    recs = []
    for _ in range(20000 if ctx.thorough else 2500):
        m, p = rand(rng)
        recs.append(dict(run(m, p, rng.randrange(1000), seen), m=m, p=p))
    ctx.extra["random_accepted"] = sum(r["o"] == "accepted" for r in recs)
    ctx.extra["random_unmade"] = sum(not r["made"] for r in recs)
    bad = ctx.judge("MakeTrace", recs)
    ctx.validated += len(recs)
    for i, cl in sorted(bad.items()):
        x = recs[i]
        ctx.violation("request object %s taken by %s: %s; %s" % (json.dumps(x["m"]), json.dumps(x["p"]), "; ".join(cl), json.dumps({k: x[k] for k in x if k not in "mp"})), x)
