"""C08: content of a signed JWT is loaded only if its signature checks out."""
import json

import jose
from vlib import observe

BEFORE = {"already": "here"}


def surplus(j, n):
    """Header members that say nothing about which key is to be trusted - whatever they claim."""
    name = j["signer"].rpartition(":")[2]
    jwk = {x: y for x, y in jose.MATERIAL[name].items() if x not in ("d", "p", "q", "dp", "dq", "qi")}
    if j["kid"]:
        jwk["kid"] = j["kid"][0]
    return [{}, {}, {"typ": "JWT"}, {"jwk": jwk}, {"jwk": dict(jwk, use="sig", alg=j["alg"])}, {"jku": "https://evil.example.com/jwks.json"},
            {"iss": "op"}, {"typ": "at+jwt", "x-ext": [1]}][n % 8]


def mint(j, claims, extra=None):
    payload = dict(claims)
    if j["iss"]:
        payload["iss"] = j["iss"][0]
    kid = j["kid"][0] if j["kid"] else None
    alg = j["alg"]
    if j["signer"].startswith("public:"):
        tok = jose.hmac_with_public(payload, alg, j["signer"][7:], kid)
    elif alg not in jose.SIGNER_ALGS and alg.lower() != "none":
        # not an algorithm: signed with a real one, the header lies
        h = {"alg": alg}
        if kid:
            h["kid"] = kid
        data = jose.b64(jose.jdump(h)) + "." + jose.b64(jose.jdump(payload))
        tok = data + "." + jose.sign(j["signer"], jose.natural(j["signer"]), data.encode())
    elif alg in ("None", "NONE") or (alg == "none" and kid):
        # a signature is attached all the same
        h = {"alg": alg}
        if kid:
            h["kid"] = kid
        data = jose.b64(jose.jdump(h)) + "." + jose.b64(jose.jdump(payload))
        tok = data + "." + (jose.sign(j["signer"], jose.natural(j["signer"]), data.encode()) if kid else "")
    else:
        tok = jose.jws(payload, alg, j["signer"], kid, extra)
    if alg == "none" and j["tamper"] == "sig":
        return tok, payload
    if j["tamper"] != "no":
        tok = jose.tamper(tok, j["tamper"]) if tok.split(".")[2] or j["tamper"] != "sig" else tok
        if j["tamper"] == "payload":
            payload["sub"] = "mallory"
    return tok, payload


def kwargs(e):
    kw = {}
    if e["sigalg"]:
        kw["sigalg"] = e["sigalg"][0]
    if e["nokid"]["any"]:
        kw["allow_missing_kid"] = True
    if e["nokid"]["kids"]:
        kw["no_kid_issuer"] = {e["nokid"]["of"]: e["nokid"]["kids"][0]}
    return kw


def attempt(j, e, kj, n):
    """loaded / refused / something in between."""
    from oidcmsg import oauth2, oidc
    from oidcmsg.message import Message
    cls = (Message, oidc.JsonWebToken, oidc.IdToken, oauth2.ErrorResponse if hasattr(oauth2, "ErrorResponse") else Message)[n % 4]
    tok, payload = mint(j, {"sub": "alice", "n%d" % (n % 7): "v"}, surplus(j, n // 20))
    msg = cls(set_defaults=False, **BEFORE)
    kw = kwargs(e)
    if e["from"]:
        kw["iss" if n % 2 else "issuer"] = e["from"][0]
    if n % 3 == 1:
        kw["verify"] = True
    if n % 5 == 1:
        o = observe(lambda: msg.deserialize(tok, "jwt", keyjar=kj, **kw))
    else:
        o = observe(lambda: msg.from_jwt(tok, kj, **kw))
    held = json.loads(json.dumps({k: msg[k] for k in msg.keys()}, default=str))
    if o[0] == "ok":
        return ("loaded" if held == dict(BEFORE, **payload) else "loaded something else: %r" % held), ""
    why = "%s: %s" % (o[1], o[2])
    if o[1] == "Hang":
        return "hang", why
    return ("refused" if held == BEFORE else "refused but holds %r" % held), why


def entries(keys):
    return [(k["owner"], k["name"], k["kid"], "sig") for k in keys]


def rotations(ctx):
    """The issuer's published keys change under a JWT that is read twice."""
    import os
    import shutil
    import tempfile
    from oidcmsg.message import Message
    r = ctx.tlc("JwsRotMC", "SPECIFICATION Spec1\nINVARIANTS Authentic Withdrawn Complete Emit\n")
    cases = sorted((p for p in r.prints if "outs" in p), key=lambda p: json.dumps(p, sort_keys=True))
    root = tempfile.mkdtemp(prefix="c08-")
    pub = {}

    def publish(path, keys, when):
        for k in keys:
            if k["name"] not in pub:
                pub[k["name"]] = {x: y for x, y in jose.MATERIAL[k["name"]].items() if x in ("kty", "n", "e")}
        with open(path, "w") as fp:
            json.dump({"keys": [dict(pub[k["name"]], kid=k["kid"], use="sig", **({"alg": k["alg"][0]} if k["alg"] else {}))
                                for k in keys]}, fp)
        os.utime(path, (when, when))

    try:
        for n, c in enumerate(cases):
            path = os.path.join(root, "jwks-%d.json" % (n % 50))
            publish(path, c["first"], 1000000000 + 4 * n)
            kj = jose.KeyJar()
            kb = jose.KeyBundle(source="file://" + path, fileformat="jwks")
            kb.get("rsa")
            kj.add_kb("op", kb)
            publish(path, c["now"], 4000000000 + n)      # newer than what was read, whatever the clock
            j = {"alg": c["j"]["alg"], "kid": c["j"]["kid"], "iss": ["op"], "signer": c["j"]["signer"], "tamper": "no"}
            tok, payload = mint(j, {"sub": "alice"})
            got = []
            for _ in 1, 2:
                msg = Message(**BEFORE)
                o = observe(lambda: msg.from_jwt(tok, kj, **({"allow_missing_kid": True} if c["any"] else {})))
                held = msg.to_dict()
                got.append("loaded" if o[0] == "ok" and held == dict(BEFORE, **payload) else
                           "refused" if o[0] != "ok" and held == BEFORE else "%r, holding %r" % (o, held))
            ctx.validated += 1
            if got != c["outs"]:
                ctx.violation("published keys going from %s to %s, the JWT %s read twice (allow_missing_kid %s): %s, should be %s" % (
                    json.dumps(c["first"]), json.dumps(c["now"]), json.dumps(c["j"]), c["any"], got, c["outs"]), c)
        ctx.extra["key_rotations"] = len(cases)
        ctx.sample(cases[-1])
    finally:
        shutil.rmtree(root)


def C08(ctx):
    rng = ctx.rng
    ctx.assumptions += ["RSA/ECDSA/HMAC of the installed cryptography library are sound",
                        "keys come from the key jar only (no jku downloads: no network)",
                        "verification switched off (verify=False) and plain JSON text are outside the property"]
    r = ctx.tlc("JwsMC", "SPECIFICATION Spec1\nINVARIANTS Agree Authentic Tables Emit\n")
    tables = [p["jars"] for p in r.prints if "jars" in p][0]
    cases = [p for p in r.prints if "j" in p]
    jars = {n: jose.jar(entries(k), private=("",)) for n, k in tables.items()}
    jars["nojar"], jars["empty"] = None, jose.KeyJar()
    for c in cases:
        o, why = attempt(c["j"], c["e"], jars[c["jar"]], rng.randrange(1000))
        ctx.validated += 1
        want = "loaded" if c["ok"] else "refused"
        if o != want:
            ctx.violation("JWT %s read with jar %s and %s: %s, should be %s %s" % (
                json.dumps(c["j"]), c["jar"], json.dumps(c["e"]), o, want, why), c)
    ctx.extra["cases_from_model"] = len(cases)
    ctx.extra["cases_loaded"] = sum(c["ok"] for c in cases)
    ctx.sample(cases[0])
    rotations(ctx)
    recs = []
    names = sorted(x for x in jose.MATERIAL if not x.startswith("aes"))
    owners = ["", "op", "op2", "https://op.example.com"]
    for n in range(40000 if ctx.thorough else 4000):
        if n % 8 == 0:
            keys = []
            for nm in rng.sample(names, rng.randrange(1, 8)):
                kids = [x + str(i) for x in "ab" for i in (1, 2)]
                k = {"name": nm, "owner": rng.choice(owners), "kty": jose.MATERIAL[nm]["kty"], "kid": rng.choice(kids)}
                if not any(x["owner"] == k["owner"] and x["kid"] == k["kid"] and x["kty"] == k["kty"] for x in keys):
                    keys.append(k)
            kj = jose.jar(entries(keys), private=("",) if rng.random() < 0.5 else ())
        signer = rng.choice(keys)["name"] if rng.random() < 0.85 else rng.choice(names)
        kty = jose.MATERIAL[signer]["kty"]
        alg = rng.choice({"RSA": ["RS256", "RS384", "RS512", "PS256", "PS384", "PS512"],
                          "EC": {"P-384": ["ES384"], "P-521": ["ES512"]}.get(jose.MATERIAL[signer].get("crv"), ["ES256"]), "oct": ["HS256", "HS384", "HS512"]}[kty])
        k = [x for x in keys if x["name"] == signer]
        iss = rng.choice(owners[1:] + ["nobody"]) if not k or rng.random() < 0.3 else k[0]["owner"]
        kid = rng.choice(["a1", "b2", "zz"]) if not k or rng.random() < 0.2 else k[0]["kid"]
        if rng.random() < 0.04:
            alg = rng.choice(["none", "NONE", "nonE", "HS1", "RS", "rs256", "A128KW", "XX"])
        j = {"alg": alg, "kid": [kid] if rng.random() < 0.6 else [], "iss": [iss] if iss and rng.random() < 0.9 else [],
             "signer": signer, "tamper": rng.choice(["no"] * 6 + ["payload", "header", "sig", "strip"])}
        e = {"hasjar": True, "jar": keys, "sigalg": rng.choice([[]] * 5 + [[alg]] * 3 + [["RS256"], ["HS256"]]),
             "from": rng.choice([[], [], [], ["op"], ["op2"]]),
             "nokid": {"any": rng.random() < 0.25, "of": rng.choice(["op", "op2"]), "kids": rng.choice([[], [], [], [["a1", "b1"]], [[]]])}}
        if alg.lower() == "none" and j["tamper"] == "sig":
            j["tamper"] = "no"
        o, why = attempt(j, e, kj, rng.randrange(1000))
        recs.append({"j": j, "e": e, "o": o, "why": why})
    bad = ctx.judge("JwsTrace", recs)
    ctx.validated += len(recs)
    ctx.extra["random_loaded"] = sum(x["o"] == "loaded" for x in recs)
    ctx.sample(recs[0])
    for i, cl in sorted(bad.items()):
        x = recs[i]
        ctx.violation("JWT %s read with %s: %s %s: %s" % (
            json.dumps(x["j"]), json.dumps(x["e"]), x["o"], x["why"], "; ".join(cl)), x)
