"""C27: encrypted JWTs, on their own and as request objects."""
import json

import jose
import vclock
from c_jws import BEFORE, mint
from c_pack import damage, the_key
from cryptojwt.jwe.jwe import JWE
from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.key_bundle import KeyBundle
from cryptojwt.key_jar import KeyJar
from vlib import observe

REQUEST = {"client_id": "client1", "response_type": "code", "scope": "openid", "redirect_uri": "https://rp.example.com/cb", "state": "s1"}


def jar_for(e, jar):
    kj = KeyJar()
    kj.add_kb("", KeyBundle())
    for k in jar:
        kb = KeyBundle()
        d = dict(jose.MATERIAL[k["name"]], kid=k["kid"], use="sig")
        if k["kty"] != "oct":
            d = {a: b for a, b in d.items() if a not in ("d", "p", "q", "dp", "dq", "qi")}
        kb.append(key_from_jwk_dict(d))
        kj.add_kb(k["owner"], kb)
    for d in e["dec"]:
        kb = KeyBundle()
        kb.append(the_key(d["name"], "enc"))
        kj.add_kb(d["owner"], kb)
    return kj


def seal(x, claims, n):
    j = x["inner"]["j"]
    key = the_key(x["key"], "enc", False)
    layer = {"tamper": x["tamper"]}
    cty = {"cty": "JWT"} if n % 2 else {}
    tok, payload = mint(j, claims)
    if x["inner"]["form"] == "json":
        tok = json.dumps(payload)
    elif x["inner"]["form"] == "jwe":
        tok = JWE(json.dumps(payload).encode(), alg=x["alg"], enc=x["enc"]).encrypt([key])
    elif x["inner"]["form"] == "text":
        tok = ["hello", "[1, 2]", "null", '"x"', "a.b.c", "{'a': 1}"][n % 6]
    tok = JWE(tok if isinstance(tok, bytes) else tok.encode(), alg=x["alg"], enc=x["enc"], **cty).encrypt([key])
    tok = tok if isinstance(tok, str) else tok.decode()
    return damage(tok, layer), payload


def attempt(x, e, jar, n):
    from oidcmsg import oauth2, oidc, verified_claim_name
    from oidcmsg.message import Message
    vclock.freeze(vclock.NOW, 0)
    try:
        kj = jar_for(e, jar)
        kw = {k: e[k][0] for k in ("encalg", "encenc", "sigalg") if e[k]}
        if e["route"] == "message":
            tok, payload = seal(x, {"sub": "alice", "n%d" % (n % 7): "v"}, n)
            msg = (Message, oidc.JsonWebToken, oidc.IdToken)[n % 3](set_defaults=False, **BEFORE)
            if n % 5 == 1:
                o = observe(lambda: msg.deserialize(tok, "jwt", keyjar=kj, **kw))
            else:
                o = observe(lambda: msg.from_jwt(tok, kj, **kw))
            held, before = {k: msg[k] for k in msg.keys()}, BEFORE
            after = dict(BEFORE, **payload)
        else:
            cls = {"oidc": oidc.AuthorizationRequest, "jar": oauth2.JWTSecuredAuthorizationRequest, "par": oauth2.PushedAuthorizationRequest}[e["route"]]
            tok, payload = seal(x, dict(REQUEST, state="s2"), n)
            outer = dict(REQUEST, request=tok)
            msg = cls(**outer)
            before = {k: msg[k] for k in msg.keys()}
            o = observe(lambda: msg.verify(keyjar=kj, **kw))
            held = {k: msg[k] for k in msg.keys() if k != verified_claim_name("request")}
            if o[0] == "ok" and o[1] is not True:
                return "verify returned %r" % (o[1],), ""
            vr = msg.get(verified_claim_name("request"))
            if o[0] == "ok" and (vr is None or vr.to_dict() != payload):
                return "loaded another request object: %s" % (vr,), ""
            after = dict(payload, **({"request": tok} if e["route"] == "par" else {}))
            after = {k: v.split(" ") if k in ("response_type", "scope") else v for k, v in after.items()}
        if o[0] == "ok":
            return ("loaded" if held == after else "loaded something else: %r, not %r" % (held, after)), ""
        why = "%s: %s" % (o[1], o[2])
        if o[1] == "Hang":
            return "hang", why
        return ("refused" if held == before else "refused but holds %r" % held), why
    finally:
        vclock.off()


ALGS = {"RSA-OAEP": "R", "RSA-OAEP-256": "R", "RSA1_5": "R", "A128KW": "aes128", "A192KW": "aes192", "A256KW": "aes256",
        "ECDH-ES": "E", "ECDH-ES+A128KW": "E", "ECDH-ES+A192KW": "E", "ECDH-ES+A256KW": "E"}
ENCS = ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512", "A128GCM", "A192GCM", "A256GCM"]
KEYS = {"R": ["rsa4", "rsa5"], "E": ["ec2", "ec3"]}
SIGS = [("RS256", "rsa1"), ("RS512", "rsa1"), ("PS256", "rsa1"), ("HS256", "oct1"), ("HS512", "oct1"), ("RS256", "rsa3"), ("ES256", "ec1"), ("HS256", "oct2")]


def rand(rng, jar):
    alg = rng.choice(list(ALGS))
    fam = ALGS[alg]
    keys = KEYS.get(fam) or [fam + "a", fam + "b"]
    allk = KEYS["R"] + KEYS["E"] + ["aes128a", "aes192a", "aes256a"]
    enc = rng.choice(ENCS)
    dec, seen = [], set()
    for k in rng.sample(allk, rng.randrange(4)) + ([keys[0]] if rng.random() < 0.85 else []):
        if k not in seen:
            seen.add(k)
            dec.append({"name": k, "owner": rng.choice([""] * 8 + ["client1", "op2"])})
    rng.shuffle(dec)
    salg, signer = rng.choice(SIGS) if rng.random() < 0.9 else ("none", "rsa1")
    own = [k for k in jar if k["name"] == signer][0]
    iss = own["owner"] if rng.random() < 0.8 else rng.choice(["client1", "op2", "nobody"])
    kid = [own["kid"]] if rng.random() < 0.7 else rng.choice([[], [], ["zz"]])
    j = {"alg": salg, "kid": kid, "iss": [iss] if iss and rng.random() < 0.95 else [], "signer": signer,
         "tamper": rng.choice(["no"] * 8 + ["payload", "sig", "strip", "header"]) if salg != "none" else "no"}
    form = rng.choice(["jws"] * 8 + ["json", "json", "jwe", "text"])
    if form != "jws":
        j = {"alg": "none", "kid": [], "iss": rng.choice([[], ["client1"], ["op2"]]), "signer": "rsa1", "tamper": "no"}
    tm = rng.choice(["no"] * 8 + ["header", "iv", "text", "tag"] + ([] if alg == "ECDH-ES" else ["key"]))
    route = rng.choice(["message", "message", "oidc", "jar", "par"])
    e = {"hasjar": True, "jar": jar, "sigalg": rng.choice([[], [], [salg], ["RS256"]]) if route == "message" else [], "from": [],
         "nokid": {"any": False, "of": "op", "kids": []}, "dec": dec, "route": route,
         "encalg": rng.choice([[]] * 4 + [[alg]] * 3 + [[""], [rng.choice(list(ALGS))]]),
         "encenc": rng.choice([[]] * 4 + [[enc]] * 3 + [[""], [rng.choice(ENCS)]])}
    return {"alg": alg, "enc": enc, "key": keys[0], "tamper": tm, "inner": {"form": form, "j": j}}, e


def C27(ctx):
    rng = ctx.rng
    ctx.assumptions += ["the algorithms of the installed cryptography library are sound",
                        "plain JSON inside an encrypted JWT is not signed; where a signature algorithm was demanded nothing is said about it"]
    r = ctx.tlc("JweMC", "SPECIFICATION Spec\nINVARIANTS Agree Confidential StillSigned Tables Emit\n")
    jar = [p["jar"] for p in r.prints if "jar" in p][0]
    cases = [p for p in r.prints if "x" in p]
    ctx.extra["cases_from_model"] = len(cases)
    ctx.sample(cases[0])
    if not ctx.thorough:
        good = [c for c in cases if c["res"] == "loaded"]
        bad = [c for c in cases if c["res"] != "loaded"]
        cases = rng.sample(good, min(len(good), 1500)) + rng.sample(bad, min(len(bad), 5000))
    for c in cases:
        o, why = attempt(c["x"], c["e"], jar, rng.randrange(1000))
        ctx.validated += 1
        if c["res"] != "open" and o != c["res"] or o not in ("loaded", "refused"):
            ctx.violation("encrypted JWT %s read with %s: %s, should be %s %s" % (json.dumps(c["x"]), json.dumps(c["e"]), o, c["res"], why), c)
    ctx.extra["cases_replayed"] = len(cases)
    recs = []
    for _ in range(25000 if ctx.thorough else 2500):
        x, e = rand(rng, jar)
        o, why = attempt(x, e, jar, rng.randrange(1000))
        recs.append({"x": x, "e": e, "o": o, "why": why})
    ctx.extra["random_loaded"] = sum(x["o"] == "loaded" for x in recs)
    bad = ctx.judge("JweTrace", recs)
    ctx.validated += len(recs)
    for i, cl in sorted(bad.items()):
        x = recs[i]
        ctx.violation("encrypted JWT %s read with %s: %s %s: %s" % (json.dumps(x["x"]), json.dumps(x["e"]), x["o"], x["why"], "; ".join(cl)), x)
