"""C17: issuer, client, audience and error rules of responses."""
import json
from urllib.parse import urlencode

from c_token import verdict
from gen import nears

FILL = {"code": "c", "access_token": "at", "token_type": "Bearer", "client_id": "client1", "redirect_uris": ["https://rp.example.com/cb"],
        "sub": "alice", "iss": "https://op.example.com", "aud": ["client1"], "exp": 4000000000, "iat": 1700000000, "issuer": "https://op.example.com",
        "authorization_endpoint": "https://op.example.com/a", "jwks_uri": "https://op.example.com/j", "response_types_supported": ["id_token"],
        "subject_types_supported": ["public"], "id_token_signing_alg_values_supported": ["RS256"], "state": "s", "links": [{"rel": "a"}],
        "grant_types_supported": ["implicit"], "active": True, "device_code": "d"}


def classes():
    import inspect
    from oidcmsg import oauth2, oidc
    from oidcmsg.oauth2 import device_authorization
    from oidcmsg.oidc import identity_assurance, session
    out = {}
    for mod in (oauth2, oidc, session, identity_assurance, device_authorization):
        for name, c in inspect.getmembers(mod, inspect.isclass):
            if issubclass(c, oauth2.ResponseMessage) and c.__module__ == mod.__name__:
                out[mod.__name__.split(".", 1)[1] + "." + name] = c
    return out


def base_of(c):
    """Something this type accepts."""
    d = {k: FILL[k] for k, spec in c.c_param.items() if spec[1] and k in FILL}
    try:
        return d if c(**d).verify(nonce_storage_time=10 ** 10) in (True, None) else None
    except Exception:
        return None


def run_response(r, n):
    from oidcmsg import oauth2, oidc
    cls = oidc.AuthorizationResponse if r["oidc"] else oauth2.AuthorizationResponse

    def go():
        d = {"code": "c1", "state": "s"}
        if r["desc"]:
            d.update(error="access_denied", error_description="".join(map(chr, r["desc"][0])))
        for k, name in (("iss", "iss"), ("client", "client_id")):
            if r[k]:
                d[name] = r[k][0]
        kw = {name: r["e"][k][0] for k, name in (("iss", "iss"), ("client", "client_id")) if r["e"][k]}
        if r["aud"]:
            d["aud"] = r["aud"][0][0] if len(r["aud"][0]) == 1 and n % 2 else r["aud"][0]
        if n % 3 == 0:
            m = cls().from_urlencoded(urlencode(d, doseq=True))
        elif n % 3 == 1:
            m = cls(**d)
        else:
            m = cls().from_json(json.dumps(d))
        return m.verify(**kw)
    return verdict(go)


def run_description(c, base, text):
    d = dict(base, error_description=text)
    if "error" in c.c_param:
        d["error"] = c.c_allowed_values.get("error", ["invalid_request"])[0]

    def go():
        m = c(**d)
        return m.verify(nonce_storage_time=10 ** 10) and True
    return verdict(go)


def run_registration(uri, token, n):
    from oidcmsg.oidc import RegistrationResponse

    def go():
        d = {"client_id": "client1", "redirect_uris": ["https://rp.example.com/cb"]}
        if uri:
            d["registration_client_uri"] = "https://op.example.com/reg?client_id=client1"
        if token:
            d["registration_access_token"] = "t0ken"
        if n % 5 == 0:                  # null is no value
            d.setdefault("registration_client_uri", None)
        if n % 7 == 0:
            d.setdefault("registration_access_token", None)
        if n % 2:
            d["client_secret"] = "hemligt"
        m = RegistrationResponse().from_json(json.dumps(d)) if n % 3 else RegistrationResponse(**d)
        return m.verify()
    return verdict(go)


def C17(ctx):
    from oidcmsg import oauth2
    rng = ctx.rng
    tlc = lambda part: ctx.tlc("ResponseMC", 'SPECIFICATION Spec\nCONSTANT Part="%s"\nINVARIANTS Agree NoExpectation Emit\n' % part).prints
    cases = tlc("response")
    ctx.extra["cases_from_model"] = len(cases)
    ctx.sample(cases[0])
    for c in cases:
        for n in range(6) if ctx.thorough else rng.sample(range(6), 3):
            o, why = run_response(c["r"], n)
            ctx.validated += 1
            if o != c["res"]:
                ctx.violation("authorization response %s: %s, should be %s %s" % (json.dumps(c["r"]), o, c["res"], why), c)
    for c in tlc("registration"):
        for n in range(6):
            o, why = run_registration(c["r"]["uri"], c["r"]["token"], n)
            ctx.validated += 1
            if o != c["res"]:
                ctx.violation("registration response %s: %s, should be %s %s" % (json.dumps(c["r"]), o, c["res"], why), c)
    # every character there is
    legal = {x for x in tlc("chars")[0]["r"]}
    top = 0x110000 if ctx.thorough else 0x3000
    for cp in list(range(top)) + ([] if ctx.thorough else [0xD7FF, 0xE000, 0xFEFF, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF]):
        o, why = run_description(oauth2.ResponseMessage, {}, "a" + chr(cp) + "b")
        ctx.validated += 1
        if (o == "accepted") != (cp in legal):
            ctx.violation("error description with character U+%04X: %s %s" % (cp, o, why), cp)
    recs = []
    cls = {k: (c, base_of(c)) for k, c in classes().items()}
    ctx.extra["response_types"] = sorted(k for k, v in cls.items() if v[1] is not None)
    for k, (c, base) in sorted(cls.items()):
        if base is None or "error_description" not in c.c_param:
            continue
        for desc in [[], [111, 107], [34], [92], [127], [31], [126], [32, 33, 35, 91, 93], [97] * 50 + [10], [10] + [97] * 50, [228], [0x2028]]:
            if not desc:
                o, why = verdict(lambda: c(**base).verify(nonce_storage_time=10 ** 10) and True)
                recs.append({"k": "description", "cls": k, "desc": [], "o": o, "why": why})
                continue
            o, why = run_description(c, base, "".join(map(chr, desc)))
            recs.append({"k": "description", "cls": k, "desc": [desc], "o": o, "why": why})
    for _ in range(20000 if ctx.thorough else 2500):
        desc = [rng.choice([32, 33, 35, 91, 93, 126, 65, 97, 48]) for _ in range(rng.choice([1, 5, 30, 200, 3000]))]
        if rng.random() < 0.5:
            desc[rng.choice([0, -1, rng.randrange(len(desc))])] = rng.choice([34, 92, 31, 127, 9, 10, 13, 160, 0x7f, 0, 228, 0x3b1, 0x1F600])
        k = rng.choice([k for k, v in cls.items() if v[1] is not None and "error_description" in v[0].c_param])
        o, why = run_description(cls[k][0], cls[k][1], "".join(map(chr, desc)))
        recs.append({"k": "description", "cls": k, "desc": [desc], "o": o, "why": why})
    for _ in range(3000):
        pool = ["error", "error_description", "error_uri", "Error", "error#sv", "state", "code", "xerror"]
        names = rng.sample(pool, rng.randrange(len(pool)))
        c = cls[rng.choice(sorted(cls))][0]
        m = c(set_defaults=False, **{k: "invalid_request" for k in names}) if rng.random() < 0.7 else {k: "invalid_request" for k in names}
        recs.append({"k": "error", "cls": c.__name__, "names": names, "o": oauth2.is_error_message(m)})
    for i in range(20000 if ctx.thorough else 3000):
        ids, ops = ["client1", "client2"] + nears("client1"), ["https://op.example.com"] + nears("https://op.example.com")
        good_c, good_i = [rng.choice(ids)], [rng.choice(ops)]
        pick = lambda good, pool: rng.choice([[], good, good, good, [rng.choice(pool)]])
        r = {"oidc": rng.random() < 0.6, "iss": pick(good_i, ops), "client": pick(good_c, ids),
             "aud": rng.choice([[], [good_c], [[rng.choice(ids)]], [[rng.choice(ids), good_c[0]]], [[rng.choice(ids), rng.choice(ids)]]]),
             "desc": rng.choice([[], [], [[111, 107]], [[34]]]), "e": {"iss": pick(good_i, ops), "client": pick(good_c, ids)}}
        o, why = run_response(r, i)
        recs.append({"k": "response", "r": r, "o": o, "why": why})
    bad = ctx.judge("ResponseTrace", recs)
    ctx.validated += len(recs)
    for i, cl in sorted(bad.items()):
        ctx.violation("%s: %s" % (json.dumps(recs[i]), "; ".join(cl)), recs[i])
