"""C03: messages inside signed and encrypted JWTs; ID Tokens packed by their issuer."""
import base64
import json

import gen
import jose
import vclock
from c_carrier import left_hash
from cryptojwt.jwe.jwe import JWE
from cryptojwt.jwk.jwk import key_from_jwk_dict
from trees import cls_of, entries, name_of, realise
from vclock import NOW
from vlib import observe

DROP = ("d", "p", "q", "dp", "dq", "qi")


def the_key(name, use, private=True):
    d = dict(jose.MATERIAL[name], kid="id-" + name, use=use)
    if not private and d["kty"] != "oct":
        d = {k: v for k, v in d.items() if k not in DROP}
    return key_from_jwk_dict(d, private=private and d["kty"] != "oct")


def jar(reader, iss):
    from cryptojwt.key_bundle import KeyBundle
    from cryptojwt.key_jar import KeyJar
    kj = KeyJar()
    kj.add_kb("", KeyBundle())
    for owner, names, use, private in (("", reader["dec"], "enc", True), (iss, reader["ver"], "sig", False)):
        for n in [x for x in names if x != "-"]:
            kb = KeyBundle()
            kb.append(the_key(n, use, private))
            kj.add_kb(owner, kb)
    return kj


def dec(part):
    return base64.urlsafe_b64decode(part + "=" * (-len(part) % 4))


def flip(part):
    raw = bytearray(dec(part))
    raw[len(raw) // 2] ^= 1
    return jose.b64(bytes(raw))


def header_with(part, **kw):
    return jose.b64(jose.jdump(dict(json.loads(dec(part)), **kw)))


def damage(tok, layer):
    if layer["tamper"] == "no":
        return tok
    p = tok.split(".")
    if layer["tamper"] == "header":
        p[0] = header_with(p[0], x="y")
    else:
        i = {"payload": 1, "signature": 2, "key": 1, "iv": 2, "text": 3, "tag": 4}[layer["tamper"]]
        if layer["tamper"] == "payload":
            p[1] = jose.b64(jose.jdump(dict(json.loads(dec(p[1])), zz="forged")))
        else:
            p[i] = flip(p[i])
    return ".".join(p)


def seal(msg, env):
    """Put a message in its envelope."""
    tok = None
    for layer in reversed(env):
        keys = [the_key(layer["key"], layer["kind"])] if layer["key"] != "-" else []
        if layer["kind"] == "sig":
            tok = msg.to_jwt(keys, layer["alg"])
        elif tok is None:
            tok = msg.to_jwe(keys, layer["enc"], layer["alg"])
        else:
            tok = JWE(tok.encode(), alg=layer["alg"], enc=layer["enc"], cty="JWT").encrypt(keys)
        tok = damage(tok if isinstance(tok, str) else tok.decode(), layer)
    return tok


def run_env(cname, d, env, reader, n):
    rec = {"k": "env", "cls": cname, "env": env, "r": reader, "es": [], "back": [], "bcls": "", "o": "refused", "why": "", "left": 0, "jws": [], "jwe": [], "n": n}
    cls = cls_of(cname)
    iss = ""
    if "iss" in d:
        d = dict(d, iss="https://op.example.com")
    vclock.freeze(NOW, 0)
    try:
        o = observe(lambda: cls(set_defaults=False).from_dict(realise(d)))
        if o[0] != "ok":
            rec["why"] = "cannot be made: %s" % o[2]
            rec["o"] = "no message"
            return rec
        msg = o[1]
        if isinstance(msg.get("iss"), str):
            iss = msg["iss"]
        if "IdToken" in [c.__name__ for c in cls.__mro__] and env[-1]["kind"] == "sig":
            d = dict(d, iat=NOW)
            d.pop("exp" if n % 2 and False else "", None)
        rec["es"] = entries(realise(d)) if not hasattr(d, "items") else entries(d)
        o = observe(seal, msg, env)
        if o[0] != "ok":
            rec["why"] = "cannot be sealed: %s %s" % o[1:3]
            rec["o"] = "not sealed"
            return rec
        tok = o[1]
        back = cls(set_defaults=False)
        kj = jar(reader, iss)
        if len(env) == 1 and env[0]["kind"] == "enc" and n % 3:
            keys = [the_key(k, "enc") for k in reader["dec"]]
            o = observe(back.from_jwe, tok, keys)
            rec["jwe"] = [{"alg": env[0]["alg"], "enc": env[0]["enc"]}]
        elif n % 2:
            o = observe(back.from_jwt, tok, kj)
        else:
            o = observe(lambda: back.deserialize(tok, "jwt", keyjar=kj))
        rec["left"] = len(back)
        if o[0] != "ok":
            rec["why"] = "%s: %s" % o[1:3]
            return rec
        res = o[1]
        rec.update(o="loaded", back=entries(res), bcls=name_of(type(res)))
        if back is not res and len(back) != len(res):
            rec["bcls"] = "the message itself holds something else"
        if len(env) == 1 and env[0]["kind"] == "sig" and n % 2:
            # the header is the one of the token read last
            again = cls(set_defaults=False)
            first = observe(lambda: again.from_jwt(msg.copy().to_jwt([], "none"), kj))
            if first[0] == "ok" and observe(again.from_jwt, tok, kj)[0] == "ok":
                res = again
        hj, he = getattr(res, "jws_header", None), getattr(res, "jwe_header", None)
        if env[-1]["kind"] == "sig":
            rec["jws"] = [{"alg": hj.get("alg")}] if hj else []
            if len(env) == 1 and hj != json.loads(dec(tok.split(".")[0])):
                rec["jws"] = [{"alg": "header %r" % hj}]
            elif hj and env[-1]["key"] != "-" and hj.get("kid") != "id-" + env[-1]["key"]:
                rec["jws"] = [{"alg": "header %r" % hj}]
        elif hj:
            rec["jws"] = [{"alg": "header %r" % hj}]
        if not rec["jwe"] and he:
            rec["jwe"] = [{"alg": he.get("alg"), "enc": he.get("enc")}]
    finally:
        vclock.off()
    return rec


VALS = [["code1", "code2", "tok3", "x"], ["a" * 300, "\u00e5-\u00fc", "0", "p.q_r~s"], ["SplxlOBeZQQYbYS6WxSbIA", "splxlOBeZQQYbYS6WxSbIA", "jHkWEdUXMU1BwAsC4vtUsZwnNvTIxEl0z9K3vx5KF0Y", " "]]
BITS = {256: ["RS256", "PS256", "ES256", "HS256"], 384: ["RS384", "PS384", "ES384", "HS384"], 512: ["RS512", "PS512", "ES512", "HS512"], 0: ["none"]}
KEYFOR = {"R": "rsa1", "P": "rsa1", "H": "oct1"}


def name_hash(h, vals):
    if h is None:
        return [{"v": 0, "bits": 0}]
    for i, v in enumerate(vals, 1):
        for bits in (256, 384, 512):
            if left_hash(v, bits) == h:
                return [{"v": i, "bits": bits}]
    return [{"v": "unknown hash %s" % h, "bits": 0}]


def run_issue(exp, ops, n, rng):
    """The claims of every token packed, in the words of the model."""
    from oidcmsg.oidc import IdToken
    vals = VALS[n % len(VALS)]
    d = {"iss": "op", "sub": "alice", "aud": ["client1"], "nonce": "n-0S6_WzA2Mj", "x_y": ["z"]}
    out, now = [], NOW
    if exp:
        d["exp"] = NOW + exp[0]
    m = IdToken(**d)
    try:
        for o in ops:
            if o["op"] in ("code", "token"):
                m["code" if o["op"] == "code" else "access_token"] = vals[o["v"] - 1]
            elif o["op"] == "tick":
                now += o["n"]
            else:
                alg = rng.choice(BITS[o["bits"]])
                vclock.freeze(now, rng.choice([0, 1, 999_999_999]))
                key = {"ES256": "ec1", "ES384": "ec384", "ES512": "ec521"}.get(alg) or KEYFOR.get(alg[0])
                keys = [the_key(key, "sig")] if key else []
                tok = m.to_jwt(keys, alg, lifetime=o["n"]) if o["n"] or n % 2 else m.to_jwt(keys, alg)
                c = json.loads(dec(tok.split(".")[1]))
                t = {"c": [], "a": [], "ch": [], "ah": [], "iat": [], "exp": []}
                for raw, k in (("code", "c"), ("access_token", "a")):
                    if raw in c:
                        t[k] = [vals.index(c[raw]) + 1 if c[raw] in vals else c[raw]]
                for v in list(c.values()) + list(c):
                    if isinstance(v, str) and len(v) > 4 and v in vals:
                        t["c"] = ["raw value under some name"]
                for h, k in (("c_hash", "ch"), ("at_hash", "ah")):
                    if h in c:
                        t[k] = name_hash(c[h], vals)
                for k in ("iat", "exp"):
                    if k in c:
                        t[k] = [c[k] - NOW] if type(c[k]) is int else ["%r" % c[k]]
                if {k: c.get(k) for k in ("iss", "sub", "aud", "nonce", "x_y")} != {k: d[k] for k in ("iss", "sub", "aud", "nonce", "x_y")} or set(c) - set(d) - {"iat", "exp", "c_hash", "at_hash", "code", "access_token"}:
                    t["c"] = ["other claims %r" % c]
                out.append(t)
    finally:
        vclock.off()
    return out


def loosen(out):
    """Without a hash function there is no hash to compare."""
    return [dict(t, **{k: [{"v": 0, "bits": 0}] if t[k] and t[k][0]["bits"] == 0 and not isinstance(t[k][0]["v"], str) else t[k] for k in ("ch", "ah")}) for t in out]


def C03(ctx):
    rng = ctx.rng
    ctx.assumptions += ["the algorithms of the installed cryptography library are sound", "the hashes in an unsigned ID Token are not decided"]
    tlc = lambda part: ctx.tlc("PackMC", 'SPECIFICATION Spec\nCONSTANT Part="%s"\nINVARIANTS Sealed NothingRaw Emit\nPROPERTY IssuedNow\n' % part).prints
    names = sorted(gen.SCHEMAS)
    recs, n = [], 0
    for part in ("sig", "enc", "nest"):
        cases = tlc(part)
        ctx.extra["%s_cases_from_model" % part] = len(cases)
        ctx.sample(cases[0])
        if part == "nest" and not ctx.thorough:
            cases = rng.sample(cases, 700)
        for c in cases:
            cname = rng.choice(names)
            d = gen.rparams(rng, cname, want=rng.choice([None, 3, 1000]))
            r = run_env(cname, d, c["x"]["env"], c["x"]["r"], rng.randrange(6))
            if r["o"] != "no message":
                recs.append(r)
            if r["o"] in ("loaded", "refused") and r["o"] != c["res"]:
                ctx.violation("%s in %s read with %s: %s, should be %s %s" % (cname, json.dumps(c["x"]["env"]), json.dumps(c["x"]["r"]), r["o"], c["res"], r["why"]), [c, d])
            if r["o"] == "not sealed":
                ctx.violation("%s in %s %s" % (cname, json.dumps(c["x"]["env"]), r["why"]), [c, str(d)])
                recs.pop()
    # every message type under some algorithm
    sigs = ["RS256", "PS512", "ES256", "HS384", "none"]
    for cname in names:
        for k in range(12 if ctx.thorough else 4):
            d = gen.rparams(rng, cname, want=None if k else 1000)
            if rng.random() < 0.6:
                a = rng.choice(sigs)
                key = {"E": "ec1", "n": "-", "H": "oct1"}.get(a[0], "rsa1")
                env = [{"kind": "sig", "alg": a, "enc": "", "key": key, "tamper": "no"}]
                reader = {"dec": [], "ver": [key] if key != "-" else []}
            else:
                a, key = rng.choice([("RSA-OAEP", "rsa3"), ("A128KW", "aes128a"), ("ECDH-ES", "ec1")])
                env = [{"kind": "enc", "alg": a, "enc": rng.choice(["A128GCM", "A256CBC-HS512"]), "key": key, "tamper": "no"}]
                reader = {"dec": [key], "ver": []}
            r = run_env(cname, d, env, reader, rng.randrange(6))
            if r["o"] == "not sealed":
                ctx.violation("%s in %s %s" % (cname, json.dumps(env), r["why"]), [env, str(d)])
            elif r["o"] != "no message":
                recs.append(r)
    ctx.extra["messages_read_back"] = sum(r["o"] == "loaded" for r in recs)
    cases = tlc("issue")
    ctx.extra["issuing_histories_from_model"] = len(cases)
    ctx.sample(cases[-1])
    for c in cases if ctx.thorough else [c for c in cases if len(c["x"]["ops"]) < 4] + rng.sample([c for c in cases if len(c["x"]["ops"]) == 4], 1500):
        o = observe(run_issue, c["x"]["exp"], c["x"]["ops"], rng.randrange(6), rng)
        vclock.off()
        ctx.validated += 1
        if o[0] != "ok" or loosen(o[1]) != loosen(c["out"]):
            ctx.violation("ID Token: %s gives %s, should be %s" % (json.dumps(c["x"]), o[1:3], json.dumps(c["out"])), c)
    for _ in range(1500 if ctx.thorough else 200):
        ops = [{"op": rng.choice(["code", "token", "tick", "pack", "pack"]), "v": rng.randrange(1, 5), "n": rng.choice([0, 0, 1, 600, 86400]), "bits": rng.choice([256, 384, 512])} for _ in range(rng.randrange(2, 9))]
        exp = rng.choice([[], [77]])
        o = observe(run_issue, exp, ops, rng.randrange(6), rng)
        if o[0] != "ok":
            ctx.violation("ID Token: %s gives %s" % (json.dumps(ops), o[1:3]), ops)
        else:
            recs.append({"k": "issue", "exp": exp, "ops": ops, "out": o[1]})
    bad = ctx.judge("PackTrace", recs)
    ctx.validated += len(recs)
    for i, cl in sorted(bad.items()):
        ctx.violation("%s: %s" % ("; ".join(cl), json.dumps(recs[i], default=str)), recs[i])
