"""C18: provider metadata, client registration requests, birthdates."""
import json

from c_token import verdict


def url(x, n):
    u = x["scheme"] + "://" + ["op.example.com", "op.example.com/", "op.example.com/a/b", "op.example.com:8443", "[::1]/x"][n % 5]
    if x["query"]:
        u += ["?a=1", "?x", "?a=b&c=d"][n % 3]
    if x["fragment"]:
        u += ["#x", "#a=b", "#/?"][n % 3]
    return u


def run_provider(x, n):
    from oidcmsg.oidc import ProviderConfigurationResponse

    def go():
        d = {"issuer": url(x, n), "authorization_endpoint": "https://op.example.com/a", "jwks_uri": "https://op.example.com/j",
             "response_types_supported": x["types"], "subject_types_supported": ["public"], "id_token_signing_alg_values_supported": x["algs"]}
        if x["token"]:
            d["token_endpoint"] = "https://op.example.com/t"
        elif n % 3 == 0:
            d["token_endpoint"] = None      # null is no value
        if x["scopes"]:
            d["scopes_supported"] = ["".join(map(chr, s)) for s in x["scopes"][0]]
        if n % 4 == 0:
            d["x_ext"] = {"a": [1]}
        m = ProviderConfigurationResponse().from_json(json.dumps(d)) if n % 2 else ProviderConfigurationResponse(**d)
        return m.verify(**({"allow_http": x["http"][0]} if x["http"] else {}))
    return verdict(go)


PAIRS = (("ro", "request_object_encryption"), ("idt", "id_token_encrypted_response"), ("ui", "userinfo_encrypted_response"))


def run_client(x, n):
    from oidcmsg.oidc import RegistrationRequest
    enc = []

    def go():
        d = {"redirect_uris": ["https://rp.example.com/cb"]}
        if x["login"]:
            d["initiate_login_uri"] = x["login"][0] + ["://rp.example.com/login", ":x", "://https://"][n % 3]
        if x["authalg"]:
            d["token_endpoint_auth_signing_alg"] = x["authalg"][0]
        for k, name in PAIRS:
            if x[k] in ("alg", "both"):
                d[name + "_alg"] = ["RSA-OAEP", "ECDH-ES"][n % 2]
            if x[k] in ("enc", "both"):
                d[name + "_enc"] = "A256GCM"
            if n % 3 == 0:                      # null is no value
                d.setdefault(name + "_alg", None)
            if n % 5 == 0:
                d.setdefault(name + "_enc", None)
        m = RegistrationRequest().from_json(json.dumps(d)) if n % 2 else RegistrationRequest(**d)
        res = m.verify()
        enc.extend([[m[name + "_enc"]] if m.get(name + "_enc") is not None else [] for _, name in PAIRS])
        if res is True:
            alg = {name: m.get(name + "_alg") for _, name in PAIRS}
            if any(alg[name] != d.get(name + "_alg") for _, name in PAIRS):
                return "accepted and algorithms changed to %r" % alg
        return res
    o, why = verdict(go)
    return o, why, enc


def birth(x):
    return "%04d" % x["y"] if x["form"] == "year" else "%04d-%02d-%02d" % (x["y"], x["m"], x["d"])


def run_birth(text, n):
    from oidcmsg.oidc import IdToken, OpenIDSchema

    def go():
        if n % 2:
            m = OpenIDSchema(sub="alice", birthdate=text)
        else:
            m = IdToken(iss="op", sub="alice", aud=["c"], exp=4000000000, iat=4000000000, birthdate=text)
        return m.verify()
    return verdict(go)


def C18(ctx):
    from oidcmsg.oidc import ProviderConfigurationResponse
    rng = ctx.rng
    ctx.assumptions += ["dates written without leading zeros, URLs with an empty query or fragment or an upper case scheme are not decided"]
    tlc = lambda part: ctx.tlc("MetadataMC", 'SPECIFICATION Spec\nCONSTANT Part="%s"\nINVARIANTS Agree NeverAlone Emit\n' % part).prints
    cases = tlc("provider")
    ctx.extra["provider_cases_from_model"] = len(cases)
    ctx.sample(cases[0])
    for c in cases:
        o, why = run_provider(c["x"], rng.randrange(1000))
        ctx.validated += 1
        if o != c["res"]:
            ctx.violation("provider metadata %s: %s, should be %s %s" % (json.dumps(c["x"]), o, c["res"], why), c)
    cases = tlc("client")
    ctx.extra["client_cases_from_model"] = len(cases)
    for c in cases:
        for _ in range(2):
            o, why, enc = run_client(c["x"], rng.randrange(1000))
            ctx.validated += 1
            if o != c["res"] or (o == "accepted" and enc != c["enc"]):
                ctx.violation("registration request %s: %s with methods %s, should be %s with %s %s" % (json.dumps(c["x"]), o, enc, c["res"], c["enc"], why), c)
    cases = tlc("birth")
    ctx.extra["birthdates_from_model"] = len(cases)
    for c in cases:
        for n in ((0, 1) if c["x"]["form"] == "date" or ctx.thorough else (rng.randrange(2),)):
            o, why = run_birth(birth(c["x"]), n)
            ctx.validated += 1
            if o != c["res"]:
                ctx.violation("birthdate %s: %s, should be %s %s" % (birth(c["x"]), o, c["res"], why), c)
    for t in ["19990101", "1999-01", "99-01-01", "1999/01/01", "1999-01-01T00:00:00Z", "x", "1999-01-01 ", " 1999-01-01", "-1999", "99", "12345", "01-01", "--01-01",
              "1999-01-01-01", "1999-01-", "1999-", "12345-01-01", "01-01-1999", "1999-Jan-01", "unknown", "1999-02-29", "19990-1-01", "00000-01-01", "0000-", "0000-01",
              "2000-0000-01-01", "0000-01-01x", "1999.01.01", "0000-00-00", "20000000-01-01"]:
        for n in (0, 1):
            o, why = run_birth(t, n)
            ctx.validated += 1
            if o != "refused":
                ctx.violation("birthdate %r: %s" % (t, o), t)
    legal = set(tlc("chars")[0]["x"])
    good = {"issuer": "https://op.example.com", "authorization_endpoint": "https://op.example.com/a", "jwks_uri": "https://op.example.com/j",
            "response_types_supported": ["id_token"], "subject_types_supported": ["public"], "id_token_signing_alg_values_supported": ["RS256"]}
    for cp in list(range(0x110000 if ctx.thorough else 0x800)) + [0x2028, 0xFEFF, 0xFFFF, 0x1F600, 0x10FFFF]:
        o, why = verdict(lambda: ProviderConfigurationResponse(scopes_supported=["openid", "a" + chr(cp), "b"], **good).verify())
        ctx.validated += 1
        if (o == "accepted") != (cp in legal):
            ctx.violation("scope with character U+%04X: %s %s" % (cp, o, why), cp)
    recs = []
    codes = lambda s: [ord(ch) for ch in s]
    for _ in range(30000 if ctx.thorough else 4000):
        n = rng.randrange(100000)
        if rng.random() < 0.6:
            sc = [codes(s) for s in rng.sample(["email", "profile", "a!b", "urn:x:y", "https://x.example.com/scope", "OPENID", "openid2", "xopenid", "~", "[x]"], rng.randrange(4))]
            if rng.random() < 0.85:
                sc.insert(rng.randrange(len(sc) + 1), codes("openid"))
            if rng.random() < 0.1:
                sc += [codes("s%d" % i) for i in range(rng.choice([5, 40]))]
            if rng.random() < 0.15:
                sc.insert(rng.randrange(len(sc) + 1), codes("a" * rng.choice([1, 1, 500]) + rng.choice(['"', "\\", " ", "\x7f", "\u00e9", "\x1f", "\n"])))
            types = rng.sample(["code", "id_token", "token", "id_token token", "code id_token", "code token", "code id_token token", "id_token code", "token code", "token id_token",
                                "id_token code token", "token id_token code"], rng.choice([1, 1, 2, 3]))
            x = {"scheme": rng.choice(["https"] * 8 + ["http", "http", "ftp", "urn", "httpsx", "xhttps"]), "query": rng.random() < 0.1, "fragment": rng.random() < 0.1,
                 "http": rng.choice([[], [], [True], [False]]), "algs": rng.sample(["RS256", "ES256", "RS384", "none", "PS256", "HS256"], rng.choice([1, 3, 5])),
                 "scopes": [sc] if sc and rng.random() < 0.8 else [], "types": types, "token": rng.random() < 0.8}
            o, why = run_provider(x, n)
            recs.append({"k": "provider", "x": x, "o": o, "why": why})
        elif rng.random() < 0.6:
            x = {"login": rng.choice([[], ["https"], ["https"], ["http"], ["httpsx"], ["xhttps"], ["com.example"]]),
                 "authalg": rng.choice([[], ["RS256"], ["ES384"], ["none"], ["None"], ["nonesuch"]])}
            x.update({k: rng.choice(["none", "alg", "both", "both", "enc"]) for k, _ in PAIRS})
            o, why, enc = run_client(x, n)
            recs.append({"k": "client", "x": x, "o": o, "why": why, "enc": enc if o == "accepted" else []})
        else:
            x = {"form": "date", "y": rng.choice([0, rng.randrange(1, 10000), rng.randrange(1900, 2100)]), "m": rng.randrange(0, 14), "d": rng.randrange(0, 33)}
            o, why = run_birth(birth(x), n)
            recs.append({"k": "birth", "x": x, "o": o, "why": why})
    bad = ctx.judge("MetadataTrace", recs)
    ctx.validated += len(recs)
    ctx.extra["random_accepted"] = sum(x["o"] == "accepted" for x in recs)
    for i, cl in sorted(bad.items()):
        ctx.violation("%s: %s" % (json.dumps(recs[i]), "; ".join(cl)), recs[i])
