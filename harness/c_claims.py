"""C19: matching of claim requests, verified-claims requests, identity evidence, the claims builder."""
import json

from c_token import verdict
from vlib import observe

# values numbered by equality: equal values have the same number
POOLS = [["a", "ab", "A", "b"], [1, "1", [1], 2], [True, "true", "True", False], [["a", "b"], ["b", "a"], "a", ["a"]],
         [{"a": "b"}, {"a": "c"}, "{'a': 'b'}", {}], ["", " ", [], "\u00e9"], ["e\u0301", "\u00e9", "e", "E\u0301"], [0, "0", "", [0]],
         ["a b", "a", "b", ["a", "b"]], [None, "None", "null", ""], [1.5, "1.5", 15, 2]]


def claim_spec(q, pool, n):
    if not q:
        return None
    q = q[0]
    d = {}
    if q["ess"]:
        d["essential"] = {"true": True, "false": False, "null": None}[q["ess"][0]]
    if q["value"]:
        d["value"] = pool[q["value"][0] - 1]
    if q["values"]:
        d["values"] = [pool[i - 1] for i in q["values"][0]]
    items = list(d.items())
    if n % 2:
        items.reverse()
    if n % 3 == 0 and len(items) == 3:
        items = items[1:] + items[:1]
    return dict(items)


def run_match(x, n):
    from oidcmsg.oidc import claims_match
    pool = POOLS[n % len(POOLS)]
    o = observe(claims_match, pool[x["v"] - 1], claim_spec(x["q"], pool, n))
    return o[1] if o[0] == "ok" else "%s: %s" % o[1:3]


VALUES = {"str": ["x", "", "de_aml", "\u00fc", "0"], "int": [0, 1, -5, 63113852], "bool": [True, False], "null": [None],
          "list": [[], ["x"], [1], [True]], "dict": [{}, {"value": "x"}]}
GOOD = "To send you best wishes on your birthday, ~!#[]{}|^`'"
BAD = ['"', "\\", "\n", "\x7f", "\u00e9", "\x1f", "\t", "\u2028", "\U0001f600"]


def pick(xs, rng):
    return xs[rng.randrange(len(xs))]


def purpose(p, rng):
    if p["kind"] == "null":
        return None
    if p["kind"] == "other":
        return pick([5, ["a", "b", "c"], {"abc": 1, "d": 2, "e": 3}, True, 1000, 0, False, [], {}], rng)
    s = (GOOD * 8)[rng.randrange(10):][:p["len"]]
    if not p["legal"] and s:
        k = pick([0, len(s) - 1, rng.randrange(len(s))], rng)
        s = s[:k] + pick(BAD, rng) + s[k + 1:]
    return s


def individual(ic, rng):
    if not ic:
        return None
    ic = ic[0]
    d = {}
    if ic["ess"]:
        d["essential"] = pick({"true": [True], "false": [False], "null": [None],
                               "other": ["true", 1, 0, "yes", "", [], {}, 1.0, "False"]}[ic["ess"][0]], rng)
    if ic["value"]:
        d["value"] = pick(VALUES[ic["value"][0]], rng)
    if ic["values"]:
        d["values"] = [pick(VALUES[t], rng) for t in ic["values"][0]]
    if ic["purpose"]:
        d["purpose"] = purpose(ic["purpose"][0], rng)
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


OWN = None


def own_class():
    """A made-up structure of claims, the checker works from the declaration of any type."""
    global OWN
    if OWN is None:
        from oidcmsg.message import Message, SINGLE_OPTIONAL_STRING
        from oidcmsg.oidc import SINGLE_OPTIONAL_BOOLEAN, SINGLE_OPTIONAL_INT

        class Inner(Message):
            c_param = {"name": SINGLE_OPTIONAL_STRING, "number": SINGLE_OPTIONAL_INT, "flag": SINGLE_OPTIONAL_BOOLEAN}

        class Item(Message):
            c_param = {"inner": (Inner, False, None, None, True)}

        class Own(Message):
            c_param = {"one": (Inner, False, None, None, True), "other": (Inner, False, None, None, True), "names": ([str], False, None, None, True), "numbers": ([int], False, None, None, True), "flags": ([bool], False, None, None, True),
                       "deep": ([Item], False, None, None, True)}
        OWN = Own
    return OWN


def own_doc(x, rng):
    doc = {}
    for k in ("one", "other", "names", "deep"):      # structures may be given as null
        if rng.random() < 0.3 and not any(r["at"][1] == k for r in x):
            doc[k] = None
    for r in x:
        at, val = r["at"], individual(r["ic"], rng)
        if at[1] == "one":
            doc.setdefault("one", {})[at[2]] = val
            continue
        xs, n = doc.setdefault(at[1], []), int(at[2])
        while len(xs) < n:
            xs.append({"inner": None} if len(at) > 3 and rng.random() < 0.5 else None)
        if len(at) == 3:
            xs[n - 1] = val
        else:
            if not xs[n - 1] or not xs[n - 1]["inner"]:
                xs[n - 1] = {"inner": {}}
            xs[n - 1]["inner"][at[4]] = val
    return doc


def request_doc(x, rng):
    doc = {}
    for r in x:
        at, val = r["at"], individual(r["ic"], rng)
        if at[1] == "evidence":
            ev = doc.setdefault("verification", {}).setdefault("evidence", [])
            while len(ev) < int(at[2]):
                ev.append(pick([{}, None, {"method": None}, {"type": None}], rng) if len(ev) < int(at[2]) - 1 else {})
            if not ev[int(at[2]) - 1]:
                ev[int(at[2]) - 1] = {}
            ev[int(at[2]) - 1][at[3]] = val
            continue
        d = doc
        for k in at[:-1]:
            if not d.get(k):
                d[k] = {}
            d = d[k]
        d[at[-1]] = val
    if "verification" not in doc and rng.random() < 0.4:
        doc = dict({"verification": None}, **doc)
    return doc


def run_request(x, rng):
    from oidcmsg.message import Message
    from oidcmsg.oidc.identity_assurance import IDAClaimsRequest, VerifiedClaimsRequest, verify_claims_request
    if x and x[0]["at"][0] == "own":
        doc = own_doc(x, rng)
        o, why = verdict(lambda: verify_claims_request(doc if rng.random() < 0.5 else Message(**doc), own_class()()) is not False)
        return o, why, doc, "verify_claims_request"
    doc = request_doc(x, rng)
    via = rng.randrange(6)

    def go():
        if via == 0:
            m = VerifiedClaimsRequest(**doc)
        elif via == 1:
            m = VerifiedClaimsRequest().from_json(json.dumps(doc))
        elif via == 2:
            m = VerifiedClaimsRequest().from_dict(doc)
        elif via == 3:
            m = IDAClaimsRequest(verified_claims=doc)
        elif via == 4:
            m = IDAClaimsRequest().from_json(json.dumps({"verified_claims": doc, "x": 1}))
        else:
            m = VerifiedClaimsRequest(**{k: Message(**v) if isinstance(v, dict) else v for k, v in doc.items()})
        res = m.verify()
        if via in (3, 4) and doc and not isinstance(m["verified_claims"], VerifiedClaimsRequest):
            return "left as %s" % type(m["verified_claims"]).__name__
        return res
    o, why = verdict(go)
    return o, why, doc, via


MEMBERS = {"method": ["pipp", "sripp"], "verifier": [{"organization": "Deutsche Post", "txn": "1aa05779"}], "time": ["2019-12-01T08:00:00+0100"],
           "document": [{"type": "idcard", "number": "5", "issuer": {"name": "Stadt Augsburg", "country": "DE"},
                         "date_of_issuance": "2012-04-23T00:00:00+0000", "date_of_expiry": "2022-04-22T00:00:00+0000"}],
           "provider": [{"name": "Stadtwerke", "street_address": "Energiestrasse 33"}, {"name": "x"}], "date": ["2013-01-31T00:00:00+0000"],
           "issuer": ["https://qes.example.com"], "serial_number": ["000001"], "created_at": ["2019-12-01T08:00:00+0100"]}


def run_evidence(x, rng):
    import oidcmsg.oidc.identity_assurance as ida
    cls = {"Evidence": ida.Evidence, "id_document": ida.IdDocument, "utility_bill": ida.UtilityBill, "qes": ida.QES}[x["class"]]
    names = list(x["has"])
    rng.shuffle(names)
    d = {k: pick(MEMBERS[k], rng) for k in names}
    if x["type"]:
        d["type"] = x["type"][0]
    if x["type"] and rng.random() < 0.3:        # absent members given as empty strings
        for k in ("method", "serial_number"):
            if k not in d and k in cls.c_param:
                d[k] = ""
    if rng.random() < 0.3:
        d["x_extra"] = pick([1, "y", {"a": [1]}], rng)
    after = []

    def go():
        m = cls().from_json(json.dumps(d)) if rng.random() < 0.5 else cls(**d)
        res = m.verify()
        after.append(m.get("type", ""))
        return res
    o, why = verdict(go)
    return o, why, (after or [""])[0]


BASE = None


def base_class():
    """A message type with a claim of every kind."""
    global BASE
    if BASE is None:
        from oidcmsg.message import Message
        from oidcmsg.oidc import SINGLE_OPTIONAL_BOOLEAN, SINGLE_OPTIONAL_INT
        from oidcmsg.oidc.identity_assurance import OPTIONAL_ADDRESS, SINGLE_OPTIONAL_STRING

        class Base(Message):
            c_param = {"given_name": SINGLE_OPTIONAL_STRING, "updated_at": SINGLE_OPTIONAL_INT, "email_verified": SINGLE_OPTIONAL_BOOLEAN,
                       "address": OPTIONAL_ADDRESS}
        BASE = Base
    return BASE


def build_value(v, rng):
    import oidcmsg.oidc.identity_assurance as ida
    k, n = v["kind"], v["n"]
    if k in ("AddressClaim", "Provider", "Verifier"):
        how = rng.randrange(3)
        base = [getattr(ida, k), getattr(ida, k)(), "oidcmsg.oidc.identity_assurance." + k][how]
        c = ida.ClaimsConstructor(base)
        c["country" if k != "Verifier" else "organization"] = "DE%d" % n
        c["x_free"] = [n]
        return c, {"country" if k != "Verifier" else "organization": "DE%d" % n, "x_free": [n]}
    val = {"null": None, "str": ["", "x", "y"][n % 3], "int": n, "bool": n % 2 == 1, "dict": {"essential": True, "n": n}, "list": ["a", n]}[k]
    return val, val


def run_builder(x, rng):
    import oidcmsg.oidc.identity_assurance as ida
    base = [base_class(), base_class()(), __name__ + ".BASE"][rng.randrange(3)]
    c = ida.ClaimsConstructor(base)
    ok, plain = [], []
    for op in x:
        v, p = build_value(op["v"], rng)
        o = observe(c.__setitem__, op["key"], v)
        ok.append(o[0] == "ok")
        plain.append(p)
    res = c.to_dict()
    js = json.loads(c.to_json())
    outer = ida.ClaimsConstructor()
    outer["claims"] = c
    has = []
    for k, v in res.items():
        i = [i for i, op in enumerate(x) if op["key"] == k and repr(plain[i]) == repr(v)]
        has.append({"key": k, "v": x[i[-1]]["v"] if i else {"kind": "something else", "n": 0}})
    if repr(js) != repr(res) or repr(json.loads(outer.to_json())) != repr({"claims": res}):
        has.append({"key": "to_json", "v": {"kind": "differs from to_dict", "n": 0}})
    return ok, has


def C19(ctx):
    rng = ctx.rng
    ctx.assumptions += ["members of a request that are not null or an object, a claim spec without members, and evidence that is complete for two types are not decided"]
    tlc = lambda part: ctx.tlc("ClaimsReqMC", 'SPECIFICATION Spec\nCONSTANT Part="%s"\nINVARIANTS WalkAgrees LastWins Null Emit\n' % part).prints
    cases = tlc("match")
    ctx.extra["match_cases_from_model"] = len(cases)
    ctx.sample(cases[0])
    for c in cases:
        for n in range(len(POOLS)):
            got = run_match(c["x"], n + len(POOLS) * rng.randrange(6))
            ctx.validated += 1
            if got is not c["res"]:
                pool = POOLS[n]
                ctx.violation("claims_match(%r, %r) gives %r" % (pool[c["x"]["v"] - 1], claim_spec(c["x"]["q"], pool, 0), got), c)
    cases = tlc("request")
    ctx.extra["claims_requests_from_model"] = len(cases)
    ctx.sample(cases[-1])
    for c in cases:
        for _ in range(4 if ctx.thorough else 1):
            o, why, doc, via = run_request(c["x"], rng)
            ctx.validated += 1
            if o != c["res"]:
                ctx.violation("verified claims request %s: %s, should be %s %s" % (json.dumps(doc), o, c["res"], why), [c, doc, via])
    cases = tlc("evidence")
    ctx.extra["evidence_from_model"] = len(cases)
    for c in cases:
        o, why, typ = run_evidence(c["x"], rng)
        ctx.validated += 1
        if c["res"] != "open" and (o != c["res"] or (o == "accepted" and typ != c["type"])):
            ctx.violation("evidence %s: %s as %r, should be %s as %r %s" % (json.dumps(c["x"]), o, typ, c["res"], c["type"], why), c)
    cases = tlc("builder")
    ctx.extra["builder_histories_from_model"] = len(cases)
    canon = lambda has: sorted(json.dumps(h, sort_keys=True) for h in has)
    if not ctx.thorough:
        cases = [c for c in cases if len(c["x"]) < 3] + rng.sample([c for c in cases if len(c["x"]) == 3], 6000)
    for c in cases:
        ok, has = run_builder(c["x"], rng)
        ctx.validated += 1
        if ok != c["ok"] or canon(has) != canon(c["has"]):
            ctx.violation("builder %s: accepted %s, holds %s instead of %s, %s" % (json.dumps(c["x"]), ok, has, c["ok"], c["has"]), c)
    recs = []
    strs = ["name", "given_name", "email", "birthdate", "title", "nationalities", "locale", "birth_family_name", "sub", "phone_number", "zoneinfo"]
    for _ in range(40000 if ctx.thorough else 6000):
        n = rng.randrange(10 ** 6)
        kind = rng.random()
        if kind < 0.15:
            few = rng.sample([1, 2, 3, 4], rng.choice([1, 2, 4]))
            x = {"v": rng.randrange(1, 5), "q": [{"ess": rng.choice([[], ["true"], ["false"]]), "value": rng.choice([[], [rng.randrange(1, 5)]]),
                                                  "values": [[rng.choice(few) for _ in range(rng.choice([0, 1, 2, 3, 12, 40]))] + [rng.randrange(1, 5)] * rng.randrange(2)]}]}
            o = run_match(x, n)
            recs.append({"k": "match", "x": x, "o": o, "pool": n % len(POOLS)})
            if o is not True and o is not False:
                ctx.violation("claims_match: %s" % o, recs.pop())
        elif kind < 0.7:
            x, seen = [], set()
            for _ in range(rng.randrange(1, 7)):
                at = rng.choice([["claims", rng.choice(strs)], ["claims", rng.choice(["updated_at", "email_verified", "phone_number_verified"])], ["claims", "address", rng.choice(["region", "country", "formatted"])],
                                 ["claims", "x_" + rng.choice("ab")], ["verification", rng.choice(["trust_framework", "time", "verification_process", "date"])],
                                 ["verification", "evidence", rng.choice("123"), rng.choice(["type", "type", "method"])]])
                if tuple(at) in seen:
                    continue
                seen.add(tuple(at))
                t = {"updated_at": "int", "email_verified": "bool", "phone_number_verified": "bool"}.get(at[-1], "str")
                bad = rng.random() < 0.12
                opt = lambda p, f: [f()] if rng.random() < p else []
                ic = {"ess": opt(0.5, lambda: rng.choice(["true", "false"] + ["null", "other"] * bad)), "value": opt(0.4, lambda: rng.choice([t] + list(VALUES) * bad)),
                      "values": opt(0.4, lambda: [rng.choice([t, t] + list(VALUES) * bad) for _ in range(rng.randrange(4))]),
                      "purpose": opt(0.5, lambda: {"kind": rng.choice(["str"] * 5 + ["null", "other"] * bad), "len": rng.choice([3, 4, 50, 299, 300] + [0, 1, 2, 301, 400] * bad), "legal": not bad or rng.random() < 0.5})}
                for p in ic["purpose"]:
                    if p["len"] == 0:
                        p["legal"] = True
                x.append({"at": at, "ic": rng.choice([[], [ic], [ic], [ic]])})
            o, why, doc, via = run_request(x, rng)
            recs.append({"k": "request", "x": x, "o": o, "why": why, "doc": json.dumps(doc), "via": via})
        elif kind < 0.85:
            c = rng.choice(["Evidence"] * 3 + ["id_document", "utility_bill", "qes"])
            names = set(rng.choice([["method", "verifier", "time", "document"], ["provider", "date"], ["issuer", "serial_number", "created_at"]]))
            if rng.random() < 0.4:
                names.discard(rng.choice(sorted(names)))
            if rng.random() < 0.4:
                names.add(rng.choice(sorted(MEMBERS)))
            x = {"class": c, "type": [c] if c != "Evidence" else rng.choice([[], [], ["id_document"], ["utility_bill"], ["qes"], ["QES"]]), "has": sorted(names)}
            o, why, typ = run_evidence(x, rng)
            recs.append({"k": "evidence", "x": x, "o": o, "why": why, "type": typ})
        else:
            x = [{"key": rng.choice(["given_name", "updated_at", "email_verified", "address", "x_other", "x_b"]),
                  "v": {"kind": rng.choice(["null", "str", "int", "bool", "dict", "list", "AddressClaim", "Provider", "Verifier"]), "n": rng.randrange(3)}} for _ in range(rng.randrange(1, 9))]
            x = [dict(op, v={"kind": op["v"]["kind"], "n": {"null": 0, "bool": op["v"]["n"] % 2}.get(op["v"]["kind"], op["v"]["n"])}) for op in x]
            ok, has = run_builder(x, rng)
            recs.append({"k": "builder", "x": x, "ok": ok, "has": has})
    bad = ctx.judge("ClaimsReqTrace", recs)
    ctx.validated += len(recs)
    ctx.extra["random_requests_accepted"] = sum(r.get("o") == "accepted" for r in recs)
    for i, cl in sorted(bad.items()):
        ctx.violation("%s: %s" % (json.dumps(recs[i]), "; ".join(cl)), recs[i])
