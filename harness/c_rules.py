"""C05, C06: completeness, enumerated values and what reaches the wire."""
import json
from urllib.parse import unquote_plus, urlencode

import gen
from trees import Nest, build, cls_of, entries, esc, realise
from vlib import observe


def build_msg(cname, d, via):
    cls = cls_of(cname)
    vals = realise(d)
    if via == "update":
        m = cls(set_defaults=False)
        m.update(vals)
    elif via == "dict":
        m = cls(set_defaults=False).from_dict(vals)
    else:
        m = cls(set_defaults=False).from_json(json.dumps(vals))
    return m


def has_nest(v):
    if isinstance(v, Nest):
        return True
    if isinstance(v, dict):
        return any(has_nest(x) for x in v.values())
    if isinstance(v, list):
        return any(has_nest(x) for x in v)
    return False


def verdict(f):
    from oidcmsg.exception import MissingAttribute, MissingRequiredAttribute, NotAllowedValue
    o = observe(f)
    if o[0] == "ok":
        return "true" if o[1] is True else "false" if o[1] is False else "value %r" % (o[1],), ""
    exc = o[3] if len(o) > 3 else None
    txt = "%s %s" % (o[1], o[2])
    if isinstance(exc, (MissingRequiredAttribute, MissingAttribute)):
        return "missing", txt
    if isinstance(exc, NotAllowedValue):
        return "notallowed", txt
    return "other", txt


def verify_record(cname, d, good, via):
    rec = {"k": "verify", "cls": cname, "es": entries(d), "good": good, "o": "", "why": ""}
    o = observe(build_msg, cname, d, via)
    if o[0] == "err":
        rec["o"], rec["why"] = "unbuilt", "%s %s" % (o[1], o[2])
        return rec
    rec["o"], rec["why"] = verdict(lambda: o[1].verify())
    return rec


def cases(ctx):
    r = ctx.tlc("CompleteMC", "SPECIFICATION Spec1\nINVARIANTS WalkOK GoodOK Emit\n")
    return r.prints


def mutate(rng, cname, d):
    """A random subset of defects in the message d."""
    sch = gen.SCHEMAS[cname]
    via = "dict"
    for p, (kind, req, _) in sch.items():
        x = rng.random()
        if p in d and x < 0.12:
            del d[p]
        elif x < 0.2:
            d[p] = rng.choice([None, "", [], {}])
            via = "update"
        elif p in d and kind == "str" and x < 0.24:
            d[p] = rng.choice(["public", "web", "none", "page", "zz", "invalid_request", "login_required"])
        elif p in d and kind == "splist" and x < 0.24:
            d[p] = [rng.choice(["login", "none", "zz", "consent", "openid"]) for _ in range(rng.choice([1, 2, 3, 9]))]
    return via


def C05(ctx):
    rng = ctx.rng
    recs = []
    cs = cases(ctx)
    rng.shuffle(cs)
    for c in cs:
        d = {e[0]: build(e[2]) for e in c["es"]}
        vias = ["update"] if c["defect"] in ("empty",) else ["dict", "update"]
        if c["defect"] == "none" and not has_nest(d):
            vias.append("json")
        for via in vias:
            recs.append(verify_record(c["cls"], d, c["good"], via))
    ctx.extra["cases_from_model"] = len(cs)
    for cname in sorted(gen.SCHEMAS):
        o = observe(lambda: [esc(str(p)) for p in cls_of(cname)().required_parameters()])
        if cname == "device.AccessTokenRequest":        # who it is for, and in which way it may be missing
            for dc in ("d", None, "", "absent"):
                for cid in ("client1", None, "", "absent"):
                    d = {"grant_type": "x", "code": "c", "redirect_uri": "https://rp.example.com/cb", "device_code": dc, "client_id": cid}
                    d = {k: v for k, v in d.items() if v != "absent"}
                    for via in ("update", "dict", "json"):
                        if via == "update" or "" not in (dc, cid):
                            recs.append(verify_record(cname, d, False, via))
        recs.append({"k": "req", "cls": cname, "names": o[1] if o[0] == "ok" else ["?"]})
        for p, (kind, _, _) in gen.SCHEMAS[cname].items():      # one undefined value, anywhere in a list of defined ones
            defined = cls_of(cname).c_allowed_values.get(p)
            if kind in ("list", "splist") and defined:
                for size in (2, 3, 4, 9):
                    for at in range(size):
                        d = gen.rparams(rng, cname, depth=1, want=1000)
                        d.pop("request", None)
                        d[p] = [("zz" if i == at else rng.choice(defined)) for i in range(size)]
                        recs.append(verify_record(cname, d, False, "dict"))
        for _ in range(60 if ctx.thorough else 8):
            d = gen.rparams(rng, cname, depth=1, want=1000 if rng.random() < 0.7 else None)
            d.pop("request", None)      # its content would become the message
            via = mutate(rng, cname, d) if rng.random() < 0.8 else "dict"
            d.pop("request", None)
            recs.append(verify_record(cname, d, False, via))
    ctx.sample(recs[0])
    ctx.sample(recs[-1])
    bad = ctx.judge("CompleteTrace", recs)
    ctx.validated += len(recs)
    for i, cl in sorted(bad.items()):
        r = recs[i]
        ctx.violation("%s.verify(): %s: got %s %s for %s" % (r["cls"], "; ".join(cl), r.get("o"), r.get("why"), json.dumps(r.get("es", r.get("names")))[:400]), r)


def fits(cname, k, v):
    """An empty value is of the declared type."""
    kind = gen.SCHEMAS[cname].get(k, ("str",))[0]
    if v == "" or isinstance(v, Nest) and not v.d or v == {}:
        return isinstance(v, {"str": str, "dict": dict, "json": dict, "msg": Nest}.get(kind, int))
    return True


def url_record(cname, d, lax, via):
    from oidcmsg.exception import MissingRequiredAttribute
    rec = {"k": "url", "cls": cname, "es": entries(d), "lax": lax, "o": {"r": "err"}, "why": ""}

    def run():
        m = build_msg(cname, d, via)
        m.lax = lax
        return m.to_urlencoded()
    o = observe(run)
    if o[0] == "ok":
        rec["o"] = {"r": "ok", "names": [esc(unquote_plus(p.split("=", 1)[0])) for p in o[1].split("&")] if o[1] else []}
    else:
        rec["why"] = "%s %s" % (o[1], o[2])
        if len(o) > 3 and isinstance(o[3], MissingRequiredAttribute):
            rec["o"] = {"r": "missing"}
    return rec


def blank_record(rng, cname, ch):
    sch = gen.SCHEMAS[cname]
    names = list(sch)
    rng.shuffle(names)
    d = {}
    for p in names[:6] + ["xa", "xb"]:
        kind = sch.get(p, ("str",))[0]
        if rng.random() < 0.3 and p in sch:
            p += "#fr"
        if rng.random() < 0.6:
            d[p] = "" if ch == "url" or rng.random() < 0.6 else [""]
        elif kind in ("str", "splist", "list"):
            d[p] = "v"
    d["zz"] = "1"
    rec = {"k": "blank", "cls": cname, "es": entries(d), "held": []}

    def run():
        cls = cls_of(cname)
        m = cls(set_defaults=False)
        if ch == "url":
            m.from_urlencoded(urlencode(list(d.items())))
        elif ch == "json":
            m.from_json(json.dumps(d))
        else:
            m.from_dict(d)
        return [esc(str(k)) for k in m.keys()]
    o = observe(run)
    rec["held"] = o[1] if o[0] == "ok" else ["error " + o[1]]
    rec["ch"] = ch
    return rec


def C06(ctx):
    rng = ctx.rng
    recs = []
    cs = [c for c in cases(ctx) if c["defect"] in ("none", "extra", "absent") or
          (c["defect"] == "empty" and rng.random() < 0.2)]
    for c in cs:
        d = {e[0]: build(e[2]) for e in c["es"] if build(e[2]) != []}
        if c["defect"] == "empty" and not all(fits(c["cls"], k, v) for k, v in d.items()):
            continue
        for lax in (False, True):
            recs.append(url_record(c["cls"], d, lax, "update" if c["defect"] == "empty" else "dict"))
        # one optional parameter without a value
        opt = [k for k in d if k in gen.SCHEMAS[c["cls"]] and not gen.SCHEMAS[c["cls"]][k][1]] + ["xnull", "state#de"]
        if c["defect"] in ("none", "extra"):
            for k in opt:
                recs.append(url_record(c["cls"], dict(d, **{k: None}), bool(rng.random() < 0.3), "update"))
    ctx.extra["cases_from_model"] = len(cs)
    for cname in sorted(gen.SCHEMAS):
        for _ in range(60 if ctx.thorough else 8):
            d = gen.rparams(rng, cname, url=True, want=rng.choice([1000, 1000, None]))
            d = {k: v for k, v in d.items() if not has_nest(v)}     # nested ones may be incomplete themselves
            for p, (kind, req, nested) in gen.SCHEMAS[cname].items():
                if req and p not in d and kind not in ("msg", "msglist") and rng.random() < 0.8:
                    d[p] = gen.rvalue(rng, kind, nested, 1)
            for p in list(d):
                if rng.random() < 0.1:
                    d[p] = None
            recs.append(url_record(cname, d, rng.random() < 0.3, "update"))
        for ch in ("dict", "url", "json"):
            for _ in range(10 if ctx.thorough else 2):
                recs.append(blank_record(rng, cname, ch))
    ctx.sample(recs[0])
    ctx.sample(recs[-1])
    bad = ctx.judge("CompleteTrace", recs)
    ctx.validated += len(recs)
    for i, cl in sorted(bad.items()):
        r = recs[i]
        ctx.violation("%s: %s: got %s %s for %s" % (r["cls"], "; ".join(cl), r.get("o", r.get("held")), r.get("why"), json.dumps(r["es"])[:400]), r)
