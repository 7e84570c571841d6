"""C20: whole protocol runs with somebody on the way."""
import base64
import json

import jose
import vclock
from c_carrier import left_hash
from c_token import verdict

T0 = vclock.NOW
TICK = 1000
OPS = {1: "https://op1.example.com", 2: "https://op2.example.com/"}
CLIENTS = {1: "client1", 2: "client2"}
KEYS = {1: ("rsa1", "RS256"), 2: ("ec1", "ES256")}
ATTACKER = {1: "rsa4", 2: "ec2"}
NAME = {"k1": 1, "k2": 2}
EVENT = "http://schemas.openid.net/event/backchannel-logout"
OTHER = {1: "https://op1.example.com/", 2: "https://op2.example.com"}
_jars = {}


def kid(p, same):
    return "k" if same else "k%d" % p


def jar(same):
    if same not in _jars:
        _jars[same] = jose.jar([(OPS[p], KEYS[p][0], kid(p, same), "sig") for p in (1, 2)])
    return _jars[same]


def claims(t):
    d = {"iss": OPS[t["op"]], "sub": "alice", "aud": [CLIENTS[t["aud"]]], "iat": T0 + t["iat"] * TICK}
    if t["typ"] == "id":
        d["exp"] = T0 + t["exp"] * TICK + TICK // 2
        bits = 256
        if t["code"]:
            d["c_hash"] = left_hash("code%d" % t["code"], bits)
        if t["at"]:
            d["at_hash"] = left_hash("at%d" % t["at"], bits)
        if t["nonce"]:
            d["nonce"] = "nonce%d" % t["nonce"]
    elif t["typ"] == "logout":
        d.update(jti="j", events={EVENT: {}})
    else:
        d.update(name="Alice", email="alice@example.com")
    return d


def library(t, name, alg, k):
    """The token as the library itself packs it for the provider."""
    from cryptojwt.jwk.jwk import key_from_jwk_dict
    from oidcmsg.oidc import IdToken
    d = {"iss": OPS[t["op"]], "sub": "alice", "aud": [CLIENTS[t["aud"]]]}
    for x, y in (("code", "code%d"), ("at", "at%d"), ("nonce", "nonce%d")):
        if t[x]:
            d["access_token" if x == "at" else x] = y % t[x]
    vclock.freeze(T0 + t["iat"] * TICK, 0)
    key = key_from_jwk_dict(dict(jose.MATERIAL[name], kid=k, use="sig"), private=True)
    return IdToken(**d).to_jwt([key], alg, lifetime=(t["exp"] - t["iat"]) * TICK + TICK // 2)


_made = {}


def mint(t, n):
    same = n % 2
    key = (json.dumps(t, sort_keys=True), n % 4, same)
    if key not in _made:
        if len(_made) > 50000:
            _made.clear()
        _made[key] = _mint(t, n, same)
    return _made[key]


def _mint(t, n, same):
    d = claims(t)
    p = t["op"]
    name, alg = KEYS[p]
    k = kid(p, same)
    s = t["signer"]
    if s == "none":
        return jose.jws(d, "none", None, k if n % 4 > 1 else None)
    if s == "confused":
        return jose.hmac_with_public(d, "HS256", name, k)
    if s == "mallory":
        who = ATTACKER[p]
        head = {}
        if n % 4 > 1:
            pub = {x: v for x, v in jose.MATERIAL[who].items() if x in ("kty", "n", "e", "crv", "x", "y")}
            head["jwk"] = pub
        return jose.jws(d, alg, who, k, head)
    if NAME[s] != p:        # another provider's key, under its own name or under the name of this one's
        name2, alg2 = KEYS[NAME[s]]
        return jose.jws(d, alg2, name2, k if n % 4 > 1 else kid(NAME[s], same))
    if t["tamper"] == "payload":
        # header and signature of a genuine token, other content
        h, _, sig = jose.jws(dict(d, nonce="nonce0", jti="old", sub="bob"), alg, name, k).split(".")
        return ".".join((h, jose.b64(jose.jdump(d)), sig))
    if t["tamper"] == "strip":
        return jose.tamper(jose.jws(d, alg, name, k), "strip")
    if t["typ"] == "id" and n % 4 > 1:
        return library(t, name, alg, k)
    return jose.jws(d, alg, name, k)


def build(ep, m, n):
    from oidcmsg.oidc import AccessTokenResponse, AuthorizationResponse
    from oidcmsg.oidc.session import BackChannelLogoutRequest, CheckSessionRequest, EndSessionRequest, RefreshSessionRequest
    tok = mint(m["tok"][0], n) if m["tok"] else None
    d = {}
    if ep == "authz":
        cls = AuthorizationResponse
        d["state"] = "s"
        if m["code"]:
            d["code"] = "code%d" % m["code"]
        if m["iss"]:
            d["iss"] = OPS[m["iss"]]
        if m["client"]:
            d["client_id"] = CLIENTS[m["client"]]
        if m["at"]:
            d.update(access_token="at%d" % m["at"], token_type="bearer")
    elif ep == "token":
        cls = AccessTokenResponse
        d.update(access_token="at%d" % m["at"], token_type="bearer")
    elif ep == "hint":
        cls = (EndSessionRequest, RefreshSessionRequest, CheckSessionRequest)[n // 4 % 3]
        if cls is RefreshSessionRequest:
            d.update(redirect_url="https://rp.example.com/", state="s")
        elif cls is EndSessionRequest:
            d.update(post_logout_redirect_uri="https://rp.example.com/")
    else:
        cls = BackChannelLogoutRequest
    if tok is not None:
        d["logout_token" if ep == "logout" else "id_token_hint" if cls.__name__ == "EndSessionRequest" else "id_token"] = tok
    if n // 48 % 3 == 0:        # somebody else's idea of what has been verified
        d["__verified_" + [x for x in ("logout_token", "id_token_hint", "id_token") if x in d or x == "id_token"][0]] = {"iss": OPS[1], "sub": "mallory"}
    route = n // 16 % 3
    if route == 0:
        return cls(**d)
    if route == 1:
        return cls().from_json(json.dumps(d))
    from urllib.parse import urlencode
    return cls().from_urlencoded(urlencode({k: json.dumps(v) if isinstance(v, dict) else v for k, v in d.items()}))


def deliver(runs, ep, r, m, now, n, msg=None):
    """What the client (or provider) of run r says to the message at the moment now."""
    run = runs[r - 1]
    vclock.freeze(T0 + now * TICK, (0, 999_999_999)[n % 2])
    kw = {"iss": OPS[run["op"]], "keyjar": jar(n % 2)}
    box = [msg]

    def go():
        if box[0] is None:
            box[0] = build(ep, m, n)
        vclock.freeze(T0 + now * TICK, (0, 999_999_999)[n % 2])
        if ep == "logout":
            kw["aud"] = CLIENTS[run["client"]]
        else:
            kw["client_id"] = CLIENTS[run["client"]]
            if ep != "hint":
                kw["nonce"] = "nonce%d" % r
        res = box[0].verify(**kw)
        if res is True:
            want = claims(m["tok"][0]) if m["tok"] else None
            got = [box[0][x] for x in box[0].keys() if x.startswith("__verified_")]
            got = [{x: g[x] for x in g.keys()} for g in got]
            if got != ([want] if want else []):
                return "accepted, but held as verified: %r" % got
        return res
    o, why = verdict(go)
    return o, why, box[0]


def C20(ctx):
    rng = ctx.rng
    depth = 9 if ctx.thorough else 7
    for corrupt in ("{}", "{2}"):
        ctx.tlc("FlowMC", "SPECIFICATION Spec\nCONSTANTS MaxEvents=%d MaxNow=2 Corrupt=%s\nINVARIANTS Agreement Usable\n" % (
            depth if corrupt == "{2}" else depth - 1, corrupt), timeout=3000)
    cases = ctx.tlc("FlowMC", "SPECIFICATION SpecFull\nCONSTANTS MaxEvents=0 MaxNow=2 Corrupt={2}\nINVARIANTS Agreement Usable EmitAll\n").prints
    ctx.extra["deliveries_from_model"] = len(cases)
    ctx.sample(cases[0])
    acc = 0
    for c in cases:
        for _ in range(3 if ctx.thorough else 1):
            n = rng.randrange(4800)
            o, why, _m = deliver(c["runs"], c["ep"], 1, c["m"], c["now"], n)
            ctx.validated += 1
            acc += o == "accepted"
            if (o == "accepted") != c["ok"] or o not in ("accepted", "refused"):
                ctx.violation("%s in run 1 of %s at %d: %s %s, by the rules %s" % (
                    c["ep"], json.dumps(c["runs"]), c["now"], json.dumps(c["m"]), o + " " + why, "accepted" if c["ok"] else "refused"), dict(c, n=n))
    ctx.extra["deliveries_accepted"] = acc
    recs = [history(rng) for _ in range(6000 if ctx.thorough else 500)]
    bad = ctx.judge("FlowTrace", recs)
    ctx.validated += len(recs)
    ctx.extra["random_deliveries"] = sum(len(r["seen"]) for r in recs)
    ctx.extra["random_accepted"] = sum(s["o"] == "accepted" for r in recs for s in r["seen"])
    for i, cl in sorted(bad.items()):
        ctx.violation("%s: %s" % ("; ".join(cl), json.dumps(recs[i])), recs[i])


def issue(runs, r, what, now):
    run = runs[r - 1]
    return {"typ": {"logout": "logout", "info": "info"}.get(what, "id"), "op": run["op"], "aud": run["client"],
            "nonce": r if what in ("authz", "token") else 0, "iat": now, "exp": now + 1, "run": r,
            "code": r if what == "authz" else 0, "at": r if what == "authz" else 0, "signer": "k%d" % run["op"], "tamper": "no"}


def forge(rng, runs, now, corrupt):
    r = rng.randint(1, len(runs))
    t = issue(runs, r, rng.choice(["authz", "logout"]), now)
    t["run"] = 0
    if rng.random() < 0.5:          # mixed at will
        t.update(aud=rng.choice([1, 2]), nonce=rng.choice([0, t["nonce"], rng.randint(1, len(runs))]))
        if t["typ"] == "id":
            t["code"] = t["at"] = rng.randint(0, len(runs))
        else:
            t["nonce"] = 0
    t.update(rng.choice([{"signer": "none"}, {"signer": "mallory"}, {"signer": "confused"}, {"tamper": "payload"}, {"tamper": "strip"},
                         {"signer": "k%d" % (3 - t["op"])}]))
    if corrupt and t["op"] in corrupt and rng.random() < 0.5:      # a provider that says what it likes
        t.update(signer="k%d" % t["op"], tamper="no")
    return t


def history(rng):
    """Everybody acts in some order; whoever is on the way prefers what nearly fits."""
    nruns = rng.randint(1, 4)
    runs = [{"op": rng.choice([1, 2]), "client": rng.choice([1, 2])} for _ in range(nruns)]
    corrupt = rng.choice([[], [], [1], [2]])
    issued, seen, msgs = [], [], []
    now = 0
    pick = lambda xs: rng.choice(xs)
    for _ in range(rng.randint(8, 30)):
        k = rng.random()
        if k < 0.3 or not issued:
            t = issue(runs, rng.randint(1, nruns), pick(["authz", "authz", "token", "refresh", "logout", "info"]), now)
            if t not in issued:
                issued.append(t)
            continue
        if k < 0.38:
            now += 1
            continue
        if k < 0.45 and msgs:
            ep, m, n, box = pick(msgs)          # the same message once more, to somebody else or later
            r = rng.randint(1, nruns)
            o, _, _x = deliver(runs, ep, r, m, now, n, box if rng.random() < 0.5 else None)
            seen.append({"ep": ep, "r": r, "m": m, "now": now, "o": o})
            continue
        tok = pick(issued[-3:] + issued) if k < 0.8 else forge(rng, runs, now, corrupt)
        ep = "logout" if tok["typ"] == "logout" and rng.random() < 0.9 else pick(["authz", "authz", "token", "hint", "logout"])
        r = tok["run"] if tok["run"] and rng.random() < 0.6 else rng.randint(1, nruns)
        m = {"tok": [tok], "code": 0, "at": 0, "iss": 0, "client": 0}
        if ep == "authz":
            known = [0] + sorted({i["code"] for i in issued} - {0})
            own = r if r in known else 0
            m.update(code=pick([own, own, pick(known)]), at=pick([own, own, pick(known)]))
            if rng.random() < 0.2:
                m["tok"] = []
            if rng.random() < 0.4:
                m.update(iss=pick([0, runs[r - 1]["op"], runs[r - 1]["op"], 1, 2]), client=pick([0, runs[r - 1]["client"], 1, 2]))
        elif ep == "token":
            m["at"] = pick([r, 0])
        n = rng.randrange(4800)
        o, _, box = deliver(runs, ep, r, m, now, n)
        msgs.append((ep, m, n, box))
        seen.append({"ep": ep, "r": r, "m": m, "now": now, "o": o})
    return {"runs": runs, "issued": issued, "corrupt": corrupt, "seen": seen}
