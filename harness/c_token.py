"""C09: ID Token claims against the expectations of the receiver."""
import json

import vclock
from gen import near, nears
from vlib import observe

NOW = vclock.NOW
FRACTIONS = (0, 500_000_000, 999_999_999)


def opt(o):
    return {} if not o else {"v": o[0]}


def verdict(f):
    """accepted / refused (an error or False); anything else is neither."""
    o = observe(f)
    if o[0] == "ok":
        return ("accepted" if o[1] is True else "refused" if o[1] is False else "value %r" % (o[1],)), ""
    if o[1] == "Hang":
        return "hang", o[2]
    return "refused", "%s: %s" % (o[1], o[2])


def id_token(t, extra, rng, via):
    from oidcmsg.oidc import IdToken
    d = {"iss": t["iss"], "sub": "subject", "aud": t["aud"], "exp": NOW + t["exp"], "iat": NOW + t["iat"]}
    if len(t["aud"]) == 1 and via % 2 and " " not in t["aud"][0]:
        d["aud"] = t["aud"][0]
    for k in ("azp", "nonce"):
        if t[k]:
            d[k] = t[k][0]
    d.update(extra)
    items = list(d.items())
    rng.shuffle(items)
    d = dict(items)
    if via >= 2:
        return IdToken().from_json(json.dumps(d))
    return IdToken(**d)


def kwargs(e):
    names = {"iss": "iss", "client": "client_id", "skew": "skew", "storage": "nonce_storage_time", "nonce": "nonce"}
    return {names[k]: v[0] for k, v in e.items() if v}


def run(t, e, rng, n):
    vclock.freeze(NOW, FRACTIONS[n % 3])
    extra = {}
    if n % 5 == 0:
        extra = {"acr": "1", "auth_time": NOW - 50, "amr": ["pwd"], "xextra": "y"}
    return verdict(lambda: id_token(t, extra, rng, (n // 3) % 4).verify(**kwargs(e)))


def C09(ctx):
    rng = ctx.rng
    ctx.assumptions += ["signature checking is outside this property (C08, C10)",
                        "a nonce is compared only if the token has one"]
    r = ctx.tlc("IdTokenMC", "SPECIFICATION Spec1\nINVARIANTS Agree Monotone Weaker Emit\n")
    for n, c in enumerate(r.prints):
        o, why = run(c["t"], c["e"], rng, rng.randrange(1000))
        ctx.validated += 1
        want = "accepted" if c["ok"] else "refused"
        if o != want:
            ctx.violation("ID Token %s with expectations %s: %s, should be %s %s" % (
                json.dumps(c["t"]), json.dumps(c["e"]), o, want, why), c)
    ctx.extra["cases_from_model"] = len(r.prints)
    ctx.sample(r.prints[0])
    recs = []
    good = {"iss": "op1", "aud": ["client1"], "azp": [], "exp": 10, "iat": 0, "nonce": ["n-1"]}
    exp = {"iss": ["op1"], "client": ["client1"], "skew": [], "storage": [], "nonce": ["n-1"]}
    pairs = []
    for v in nears("client1"):
        pairs += [(dict(good, aud=[v]), exp), (dict(good, aud=["client1", "x"], azp=[v]), exp), (good, dict(exp, client=[v])),
                  (dict(good, azp=["client1"]), dict(exp, client=[v])), (dict(good, aud=[v]), dict(exp, client=[v])), (dict(good, azp=[v]), exp),
                  (dict(good, aud=["client1", "x"], azp=[v]), dict(exp, client=[])), (dict(good, aud=[v, "x"], azp=["client1"]), dict(exp, client=[]))]
    for v in nears("op1"):
        pairs += [(dict(good, iss=v), exp), (good, dict(exp, iss=[v])), (dict(good, iss=v), dict(exp, iss=[v]))]
    for v in list(nears("n-1")) + [""]:
        if v == "":     # an empty text is an expectation like any other (a token cannot hold one)
            pairs += [(good, dict(exp, nonce=[""])), (good, dict(exp, iss=[""])), (good, dict(exp, client=[""])), (dict(good, azp=["client1"]), dict(exp, client=[""]))]
            continue
        pairs += [(dict(good, nonce=[v]), exp), (good, dict(exp, nonce=[v])), (dict(good, nonce=[v]), dict(exp, nonce=[v]))]
    for t, e in pairs:
        o, why = run(t, e, rng, rng.randrange(1000))
        recs.append({"t": t, "e": e, "o": o, "why": why})
    ids = ["client1", "client2", "client", "client11", "c", "", "https://client.example.com/x"]
    for n in range(60000 if ctx.thorough else 6000):
        t = {"iss": rng.choice(["op1", "https://op.example.com", "https://op.example.com/", "op"]),
             "aud": [rng.choice(ids[:5] + ids[6:]) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4, 12, 40]))],
             "azp": [], "exp": rng.choice([-600, -11, -10, -9, -1, 0, 1, 9, 3600]) + rng.choice([0, 0, -1, 1, 2 ** 20]),
             "iat": rng.choice([0, 0, -10, -14399, -14400, -14401, -14500, 100, -100]) + rng.choice([0, 0, 1, -1, -86400]),
             "nonce": rng.choice([[], ["n1"], ["n"]])}
        if rng.random() < 0.6:
            t["azp"] = [rng.choice(t["aud"] + ids[:3])]
        e = {"iss": rng.choice([[], [t["iss"]], [t["iss"]], ["op1"], ["https://op.example.com"]]),
             "client": rng.choice([[], [rng.choice(t["aud"])], [rng.choice(t["aud"])], [rng.choice(ids)]]),
             "skew": rng.choice([[], [0], [9], [10], [11], [600], [86400]]),
             "storage": rng.choice([[], [], [0], [10], [100], [14400], [20000]]),
             "nonce": rng.choice([[], t["nonce"], t["nonce"], ["n1"], ["n11"]])}
        if rng.random() < 0.3:
            k = rng.choice(["client", "client", "iss", "nonce", "aud", "azp"])
            if k == "client":
                e[k] = [near(rng, rng.choice(t["aud"]))]
            elif k == "iss":
                e[k] = [near(rng, t["iss"])]
            elif k == "nonce" and t[k]:
                e[k] = [near(rng, t[k][0])]
            elif k == "aud" and e["client"]:
                t["aud"] = [near(rng, e["client"][0] or "c") for _ in range(rng.choice([1, 2]))]
            elif k == "azp" and t["azp"]:
                t["azp"] = [near(rng, rng.choice(t["aud"]))]
        o, why = run(t, e, rng, rng.randrange(1000))
        recs.append({"t": t, "e": e, "o": o, "why": why})
    bad = ctx.judge("IdTokenTrace", recs)
    ctx.validated += len(recs)
    ctx.extra["random_accepted"] = sum(x["o"] == "accepted" for x in recs)
    ctx.sample(recs[0])
    for i, cl in sorted(bad.items()):
        r = recs[i]
        ctx.violation("ID Token %s with expectations %s: %s %s: %s" % (
            json.dumps(r["t"]), json.dumps(r["e"]), r["o"], r["why"], "; ".join(cl)), r)
