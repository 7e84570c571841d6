"""C10, C11, C12: messages carrying an ID Token."""
import base64
import hashlib
import json

import jose
import vclock
from c_token import kwargs as expectations, verdict
from vlib import observe

NOW = vclock.NOW
CARRIERS = {"tokenresp": ("oidc", "AccessTokenResponse", "id_token"), "authzresp": ("oidc", "AuthorizationResponse", "id_token"),
            "plain": ("oidc", "MessageWithIdToken", "id_token"), "refreshreq": ("oidc.session", "RefreshSessionRequest", "id_token"),
            "refreshresp": ("oidc.session", "RefreshSessionResponse", "id_token"), "check": ("oidc.session", "CheckSessionRequest", "id_token"),
            "endsession": ("oidc.session", "EndSessionRequest", "id_token_hint")}
FILL = {"tokenresp": {"access_token": "at0", "token_type": "bearer"}, "refreshreq": {"redirect_url": "https://rp.example.com/", "state": "s"},
        "refreshresp": {"state": "s"}}


def cls_of(c):
    import importlib
    mod, name, _ = CARRIERS[c]
    return getattr(importlib.import_module("oidcmsg." + mod), name)


def left_hash(val, bits):
    h = hashlib.new("sha%d" % bits, val.encode()).digest()
    return base64.urlsafe_b64encode(h[:len(h) // 2]).rstrip(b"=").decode()


def payload(tok, n):
    t = tok["t"]
    d = {"iss": t["iss"], "sub": "alice", "aud": list(t["aud"]), "exp": NOW + t["exp"], "iat": NOW + t["iat"]}
    for k in ("azp", "nonce"):
        if t[k]:
            d[k] = t[k][0]
    for k, h in (("c_hash", tok["chash"]), ("at_hash", tok["ahash"])):
        if h:
            what, bits = h[0]
            d[k] = left_hash(what, bits) if bits else what
    d.pop(tok["lacks"], None)
    if n % 3 == 0:
        d["acr"] = "urn:x"
    return d


def mint(tok, n):
    """The embedded value and the claims it stands for."""
    d = payload(tok, n)
    form = tok["form"]
    if form == "object":
        return d, d
    if form == "json":
        return json.dumps(d), d
    if form == "garbage":
        good = jose.jws(d, "RS256", "rsa1", "rsa1")
        return ["abc.def.ghi", "x", "e30.e30", good + ".x", good.split(".", 1)[1], ".." + good, "eyJhbGciOiJSUzI1NiJ9." + "!!.!!"][n % 7], d
    alg, signer = tok["alg"], tok["signer"]
    kid = signer if signer in ("rsa1", "rsa3", "ec1", "ec384", "oct1") else ("rsa1" if signer[:3] == "rsa" else "oct1")
    if signer == "rsa3" and n % 2:
        kid = "rsa1"        # pretends to be op's key
        if tok["t"]["iss"] != "op":
            kid = "rsa3"
    if alg == "none":
        s = jose.jws(d, "none", None)
        if n % 4 == 3:
            s = jose.jws(d, "none", None, kid="rsa1")
    else:
        s = jose.jws(d, alg, signer, kid)
    if tok["tamper"] != "no":
        s = jose.tamper(s, tok["tamper"])
    if form == "jwe":
        from cryptojwt.jwe.jwe import JWE
        s = JWE(s, alg="RSA-OAEP", enc="A128CBC-HS256", cty="JWT").encrypt(keys=[_enc_key()], kid="enc")
    return s, d


def _enc_key():
    from cryptojwt.jwk.jwk import key_from_jwk_dict
    return key_from_jwk_dict(dict(jose.MATERIAL["rsa5"], kid="enc", use="enc"), private=True)


_jars = {}


def jar_of(pairs):
    k = tuple(sorted(tuple(x) for x in pairs))
    if k not in _jars:
        kj = jose.jar([(o, n, n, "sig") for o, n in k] + [("", "rsa5", "enc", "enc")], private=("",))
        _jars[k] = kj
    return _jars[k]


def policy(p, n):
    kw = {}
    if p["none"]:
        kw["allow_sign_alg_none"] = p["none"][0]
    if p["sigalg"]:
        kw["sigalg"] = p["sigalg"][0]
    if p["allowed"]:
        kw["allowed_sign_alg"] = p["allowed"][0]
    if p["jar"]:
        kw["keyjar"] = jar_of(p["jar"])
    elif n % 2:
        kw["keyjar"] = jose.KeyJar()
    return kw


def injected(n):
    from oidcmsg.oidc import IdToken
    bad = {"iss": "op", "sub": "mallory", "aud": ["client1"], "exp": NOW + 300, "iat": NOW}
    return [bad, IdToken(**bad), json.dumps(bad), "x"][n % 4]


def entry_of(msg, claim, want):
    """none / tok (the claims in want) / other."""
    from oidcmsg import verified_claim_name
    name = verified_claim_name(claim)
    if name not in msg:
        return "none"
    v = msg[name]
    try:
        v = v.to_dict() if hasattr(v, "to_dict") else v
    except Exception as exc:
        return "other: %r" % exc
    if want is not None and v == want:
        return "tok"
    return "other: %r" % (v,)


def build(c, m, n, inject=False):
    """The received message and the claims of its token."""
    from oidcmsg import verified_claim_name
    claim = CARRIERS[c][2]
    d = dict(FILL.get(c, {}))
    want = None
    if m["tok"]:
        d[claim], want = mint(m["tok"][0], n)
    if m["code"]:
        d["code"] = m["code"][0]
    if m["at"]:
        d["access_token"] = m["at"][0]
        d["token_type"] = "bearer"
    vn = verified_claim_name(claim)
    cls = cls_of(c)
    route = n % 5
    if inject:
        v = injected(n)
        d[vn] = v
        if not isinstance(v, (str, dict)):
            return cls(**d), want
    if route == 0 or isinstance(d.get(claim), dict):
        return cls(**d), want
    if route == 1:
        return cls().from_json(json.dumps(d)), want
    if route == 2:
        return cls().from_dict(d), want
    if route == 3 and not any(isinstance(v, dict) for v in d.values()):
        from urllib.parse import urlencode
        if d:
            return cls().from_urlencoded(urlencode(d)), want
    x = cls()
    for k, v in d.items():
        x[k] = v
    return x, want


def run(case, n, inject=False):
    """(verdict, why, entry after acceptance)"""
    vclock.freeze(NOW, (0, 400_000_000, 999_000_000)[n % 3])
    o = observe(build, case["c"], case["m"], n, inject)
    if o[0] == "err":
        return "refused", "%s: %s" % (o[1], o[2]), ""
    msg, want = o[1]
    kw = dict(expectations(case["e"]), **policy(case["p"], n))
    v, why = verdict(lambda: msg.verify(**kw))
    return v, why, entry_of(msg, CARRIERS[case["c"]][2], want)


def show(case):
    return json.dumps({k: case[k] for k in ("c", "m", "p", "e")})


def replay(ctx, cases, inject=None):
    rng = ctx.rng
    for case in cases:
        n = rng.randrange(10000)
        o, why, entry = run(case, n, inject=bool(inject and n % 10 < inject))
        ctx.validated += 1
        if case["res"] != "open" and o != case["res"]:
            ctx.violation("%s: %s, should be %s %s" % (show(case), o, case["res"], why), case)
        elif inject and o == "accepted" and entry != ("tok" if case["m"]["tok"] else "none"):
            ctx.violation("%s: verified entry after acceptance is %s" % (show(case), entry), case)


def model(ctx, part, invs, depth=0):
    return ctx.tlc("CarrierMC", 'SPECIFICATION Spec1\nCONSTANTS Part="%s" Depth=%d\nINVARIANTS %s\n' % (part, depth, invs)).prints


ALGS = ["RS256", "RS384", "RS512", "PS256", "ES256", "ES384", "HS256", "HS384", "HS512"]
KEY = {"ES256": "ec1", "ES384": "ec384"}


def near_hash(rng, h):
    """Something that resembles the hash h."""
    vs = [h.swapcase(), h.lower(), h.upper(), h[:-1], h + "A", h + "=", h + "==", h[::-1], " " + h, h + " ", h[:8], h[:16], h + h, h[1:], h.replace("-", "+").replace("_", "/"), "*", "%s.*" % h[:4]]
    return rng.choice([v for v in vs if v != h])


def random_case(rng, focus):
    alg = rng.choice(ALGS + ["none"])
    kind = KEY.get(alg) or {"R": "rsa1", "P": "rsa1", "H": "oct1", "n": "-"}[alg[0]]
    t = {"iss": "op", "aud": ["client1"], "azp": [], "exp": rng.choice([300, 300, 0, -1, -10]), "iat": rng.choice([0, 0, 5, -14400, -14401]),
         "nonce": rng.choice([["n1"], ["n1"], [], ["n2"]])}
    if rng.random() < 0.25:
        t["aud"] = rng.choice([["client2"], ["client1", "client2"], ["client2", "client1", "client3"]])
        t["azp"] = rng.choice([[], ["client1"], ["client1"], ["client2"]])
    if rng.random() < 0.12:
        t["iss"] = rng.choice(["op2", "evil"])
    signer = kind
    if alg != "none":
        if t["iss"] == "op2" and kind == "rsa1" and rng.random() < 0.7:
            signer = "rsa3"
        elif rng.random() < 0.12:
            signer = {"rsa1": rng.choice(["rsa3", "rsa4"]), "ec1": "ec2", "ec384": "ec384", "oct1": "oct3"}[kind]
    tok = {"form": "jws", "alg": alg, "signer": signer, "tamper": "no", "t": t, "lacks": "", "chash": [], "ahash": []}
    if alg != "none" and rng.random() < 0.1:
        tok["tamper"] = rng.choice(["payload", "header", "sig", "strip"])
    if rng.random() < 0.05:
        tok["form"] = rng.choice(["garbage", "jwe", "json", "object"])
    if rng.random() < 0.05:
        tok["lacks"] = rng.choice(["iss", "sub", "aud", "exp", "iat"])
    c = rng.choice(sorted(CARRIERS) if not focus else ["authzresp"])
    m = {"tok": [tok], "code": [], "at": [], "entry": {"k": "none", "tok": []}}
    if c == "authzresp":
        bits = 256 if alg == "none" else int(alg[2:])
        for part, h, vals in (("code", "chash", ["code1", "c" * 40, "kåd"]), ("at", "ahash", ["at1", "ZZ.11", "a" * 100])):
            v = rng.choice(vals)
            if rng.random() < 0.5:
                m[part] = [v]
            if rng.random() < 0.8:
                tok[h] = [[v if rng.random() < 0.85 else rng.choice(vals), bits if rng.random() < 0.9 else rng.choice([256, 384, 512])]]
                if rng.random() < 0.12:
                    tok[h] = [[near_hash(rng, left_hash(*tok[h][0])), 0]]
    if rng.random() < 0.06 and c != "authzresp":
        m["tok"] = []
    jar = [["op", k] for k in ("rsa1", "ec1", "ec384", "oct1")] + [["op2", "rsa3"]]
    if rng.random() < 0.1:
        jar = rng.choice([[["op2", "rsa3"]], [["op", "ec1"]], []])
    p = {"none": rng.choice([[], [], [True], [False]]), "sigalg": rng.choice([[], [], [alg], ["RS256"], ["none"]]),
         "allowed": rng.choice([[], [], [alg], [alg], ["RS256"], ["none"]]), "jar": jar}
    e = {"iss": rng.choice([[], ["op"], ["op"], ["op2"]]), "client": rng.choice([[], ["client1"], ["client1"], ["client2"]]),
         "skew": rng.choice([[], [0], [10], [60]]), "storage": rng.choice([[], [], [3600]]), "nonce": rng.choice([[], ["n1"], ["n1"]])}
    return {"c": c, "m": m, "p": p, "e": e}


def judged(ctx, count, focus, inject):
    rng = ctx.rng
    recs = []
    for _ in range(count):
        case = random_case(rng, focus)
        n = rng.randrange(10000)
        case["o"], case["why"], case["entry"] = run(case, n, inject=bool(n % 10 < inject))
        if not inject:      # C12 judges the entry
            case["entry"] = "tok" if case["m"]["tok"] else "none"
        recs.append(case)
    bad = ctx.judge("CarrierTrace", recs)
    ctx.validated += len(recs)
    ctx.extra["random_accepted"] = sum(x["o"] == "accepted" for x in recs)
    ctx.sample(recs[0])
    for i, cl in sorted(bad.items()):
        x = recs[i]
        ctx.violation("%s: %s %s (entry %s): %s" % (show(x), x["o"], x["why"], x["entry"], "; ".join(cl)), x)


def C10(ctx):
    cases = model(ctx, "policy", "Agree EntryRule Authentic EmitOne")
    ctx.extra["cases_from_model"] = len(cases)
    ctx.sample(cases[0])
    replay(ctx, cases)
    judged(ctx, 30000 if ctx.thorough else 4000, None, 0)


def C11(ctx):
    cases = model(ctx, "hash", "Agree EntryRule Authentic Bound EmitOne")
    ctx.extra["cases_from_model"] = len(cases)
    ctx.sample(cases[0])
    for _ in range(3):
        replay(ctx, cases)
    packed(ctx)
    judged(ctx, 30000 if ctx.thorough else 4000, True, 0)


def packed(ctx):
    """The issuer packs a token with code and access token: exactly its hashes bind."""
    from oidcmsg.oidc import AuthorizationResponse, IdToken
    rng = ctx.rng
    jar = jar_of([["op", "rsa1"], ["op", "ec1"], ["op", "ec384"], ["op", "oct1"]])
    vals = ["code1", "x", "a" * 200, "å-ü", "p.q_r~s", "0"]
    for alg in ALGS:
        name = KEY.get(alg) or ("oct1" if alg[0] == "H" else "rsa1")
        bits = int(alg[2:])
        from cryptojwt.jwk.jwk import key_from_jwk_dict
        k = key_from_jwk_dict(dict(jose.MATERIAL[name], kid=name, use="sig"), private=True)
        for code in [None] + vals:
            for at in [None] + vals:
                for life in (0, 600):
                    vclock.freeze(NOW, rng.choice([0, 999_999_999]))
                    d = {"iss": "op", "sub": "alice", "aud": ["client1"], "exp": NOW + 77, "iat": NOW - 5}
                    if code:
                        d["code"] = code
                    if at:
                        d["access_token"] = at
                    def case():
                        tok = IdToken(**d).to_jwt([k], alg, lifetime=life)
                        claims = json.loads(base64.urlsafe_b64decode(tok.split(".")[1] + "=="))
                        want = {"iss": "op", "sub": "alice", "aud": ["client1"], "iat": NOW, "exp": NOW + (life or 77)}
                        if code:
                            want["c_hash"] = left_hash(code, bits)
                        if at:
                            want["at_hash"] = left_hash(at, bits)
                        if claims != want:
                            return "packed claims %r, should be %r" % (claims, want)
                        r = {"id_token": tok}
                        if code:
                            r["code"] = code
                        if at:
                            r.update(access_token=at, token_type="bearer")
                        kw = dict(keyjar=jar, iss="op", client_id="client1")
                        if AuthorizationResponse(**r).verify(**kw) is not True:
                            return "packed token does not verify"
                        for part in ("code", "access_token"):
                            if part not in r:
                                bad = dict(r, **{part: "other"})
                                if part == "access_token":
                                    bad["token_type"] = "bearer"
                            else:
                                bad = dict(r, **{part: r[part] + "x"})
                            if verdict(lambda: AuthorizationResponse(**bad).verify(**kw))[0] != "refused":
                                return "accepted with another %s" % part
                        return ""
                    o = observe(case)
                    ctx.validated += 1
                    res = o[1] if o[0] == "ok" else "%s: %s" % (o[1], o[2])
                    if res:
                        ctx.violation("packing %s under %s (lifetime %s): %s" % (json.dumps(d), alg, life, res), d)


def C12(ctx):
    rng = ctx.rng
    cases = [c for c in model(ctx, "policy", "EntryRule EmitOne") + model(ctx, "hash", "EntryRule EmitOne") if c["res"] == "accepted"]
    ctx.extra["accepting_cases_from_model"] = len(cases)
    for _ in range(4):
        replay(ctx, cases, inject=8)
    hists = model(ctx, "history", "NoInjected EmitHist", 5 if ctx.thorough else 4)
    ctx.extra["histories_from_model"] = len(hists)
    ctx.sample(hists[0])
    for h in hists:
        history(ctx, h, rng.randrange(10000))
    judged(ctx, 20000 if ctx.thorough else 2500, None, 8)
    import c_request
    c_request.hints(ctx)


EXP = {"iss": ["op"], "client": ["client1"], "skew": [], "storage": [], "nonce": ["n1"]}
POL = {"none": [], "sigalg": [], "allowed": [], "jar": [["op", k] for k in ("rsa1", "ec1", "ec384", "oct1")] + [["op2", "rsa3"]]}


def history(ctx, h, n):
    from oidcmsg import verified_claim_name
    c = h["c"]
    claim = CARRIERS[c][2]
    vn = verified_claim_name(claim)
    vclock.freeze(NOW, 0)
    cls = cls_of(c)
    msg = cls(**FILL.get(c, {}))
    want = None
    kw = dict(expectations(EXP), **policy(POL, 0))
    ctx.validated += 1
    for i, s in enumerate(h["hist"]):
        if s["op"] == "put":
            msg[claim], want = mint(s["tok"][0], n)
        elif s["op"] == "drop":
            del msg[claim]
            want = None
        elif s["op"] == "inject":
            msg[vn] = injected(n + i)
        elif s["op"] == "wire":
            # the message as it comes in over the wire, with the entry in it
            d = {k: msg[k] for k in msg.keys() if k != vn}
            d[vn] = {"iss": "op", "sub": "mallory"}
            msg = cls().from_json(json.dumps(d)) if n % 2 else cls(**d)
        else:
            v, why = verdict(lambda: msg.verify(**kw))
            e = entry_of(msg, claim, want)
            if v != s["res"] or (v == "accepted" and e != s["entry"]["k"]):
                ctx.violation("%s after %s: verify() %s with entry %s, should be %s with %s %s" % (
                    c, json.dumps([[x["op"]] + x["tok"] for x in h["hist"][:i]]), v, e, s["res"], s["entry"]["k"], why), h)
                return
