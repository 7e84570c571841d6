"""C01, C02: the wire forms of messages."""
import json
from urllib.parse import unquote_plus

import gen
from trees import Nest, base, build, cls_of, entries, entries_js, esc, name_of, realise, tree_js
from vlib import observe


def tlc_cases(ctx):
    r = ctx.tlc("CodecMC", "SPECIFICATION Spec1\nINVARIANTS Lossless UrlLossless Consistent Emit\n")
    return r.prints


def json_record(cname, d, defaults=False):
    """Serialise and deserialise a message holding d; returns the log record."""
    rec = {"k": "json", "cls": cname, "es": [], "wire": [], "back": [], "backd": [], "bcls": "", "err": ""}

    def run():
        cls = cls_of(cname)
        msg = cls(set_defaults=defaults).from_dict(realise(d))
        want = dict(d)
        if defaults:
            for k, v in cls(set_defaults=True).items():
                want.setdefault(k, v)
        rec["es"] = entries(want)
        txt = msg.to_json()
        rec["wire"] = entries_js(json.loads(txt))
        back = cls(set_defaults=False).from_json(txt)
        rec["back"] = entries(back)
        rec["bcls"] = name_of(type(back))
        rec["backd"] = entries(cls(set_defaults=False).from_dict(msg.to_dict()))

    o = observe(run)
    if o[0] == "err":
        rec["err"] = "%s: %s" % (o[1], o[2])
    return rec


def parse_pairs(txt):
    res = []
    for part in txt.split("&") if txt else []:
        k, _, v = part.partition("=")
        n = unquote_plus(k, errors="strict")
        s = unquote_plus(v, errors="strict")
        p = {"n": esc(n), "b": esc(base(n)), "s": esc(s)}
        t = tree_js(s)
        if "js" in t:
            p["js"] = t["js"]
        res.append(p)
    return res


def url_record(cname, d):
    rec = {"k": "url", "cls": cname, "es": [], "pairs": [], "back": [], "bcls": "", "err": ""}

    def run():
        cls = cls_of(cname)
        msg = cls(set_defaults=False).from_dict(realise(d))
        msg.lax = True
        rec["es"] = entries(d)
        txt = msg.to_urlencoded()
        rec["pairs"] = parse_pairs(txt)
        back = cls(set_defaults=False).from_urlencoded(txt)
        rec["back"] = entries(back)
        rec["bcls"] = name_of(type(back))

    o = observe(run)
    if o[0] == "err":
        rec["err"] = "%s: %s" % (o[1], o[2])
    return rec


def judge(ctx, recs, inputs):
    bad = ctx.judge("CodecTrace", recs)
    ctx.validated += len(recs)
    for i, clauses in sorted(bad.items()):
        r = recs[i]
        ctx.violation("%s: %s: %s %s" % (r["cls"], "; ".join(clauses), r["err"], json.dumps(inputs[i], default=str)[:300]),
                      {"input": inputs[i], "record": r})


def C01(ctx):
    recs, inputs = [], []
    cases = tlc_cases(ctx)
    for c in cases:
        d = {e[0]: build(e[2]) for e in c["es"]}
        recs.append(json_record(c["cls"], d))
        inputs.append(d)
    ctx.extra["cases_from_model"] = len(cases)
    n = 40 if ctx.thorough else 6
    for cname in sorted(gen.SCHEMAS):
        for k in range(n):
            d = gen.rparams(ctx.rng, cname, want=None if k else 1000, loose=True)
            recs.append(json_record(cname, d, defaults=bool(k % 2)))
            inputs.append(d)
    for cname in ("message.Message", "oidc.AuthorizationRequest", "oidc.IdToken"):
        d = gen.big(ctx.rng)
        recs.append(json_record(cname, d))
        inputs.append(d)
    ctx.sample({"cls": recs[-5]["cls"], "es": recs[-1]["es"]})
    ctx.sample(recs[5])
    judge(ctx, recs, inputs)


def C02(ctx):
    recs, inputs = [], []
    cases = [c for c in tlc_cases(ctx) if c["url"]]
    for c in cases:
        d = {e[0]: build(e[2]) for e in c["es"]}
        recs.append(url_record(c["cls"], d))
        inputs.append(d)
    ctx.extra["cases_from_model"] = len(cases)
    n = 40 if ctx.thorough else 6
    for cname in sorted(gen.SCHEMAS):
        for k in range(n):
            d = gen.rparams(ctx.rng, cname, url=True, want=None if k else 1000)
            if not d:
                continue
            recs.append(url_record(cname, d))
            inputs.append(d)
            # a request URL
            loc = ctx.rng.choice(["https://example.com/authz", "https://example.com/authz?a=b", "http://x/?", "custom:cb",
                                  "https://example.com/a%20b?x=%26"])
            frag = ctx.rng.random() < 0.4
            rec = {"k": "req", "cls": cname, "loc": esc(loc), "q": "?" in loc, "frag": frag, "enc": "", "url": "", "err": ""}

            def run():
                msg = cls_of(cname)(set_defaults=False).from_dict(realise(d))
                msg.lax = True
                rec["enc"] = esc(msg.to_urlencoded())
                rec["url"] = esc(msg.request(loc, fragment_enc=frag))
            o = observe(run)
            if o[0] == "err":
                rec["err"] = "%s: %s" % (o[1], o[2])
            recs.append(rec)
            inputs.append([loc, frag, d])
        # second values on the wire
        for p, (kind, _, _) in gen.SCHEMAS[cname].items():
            for tag in ("", "#de"):
                rec = {"k": "dup", "cls": cname, "name": esc(p + tag), "base": esc(p), "err": ""}
                v = "1" if kind == "int" else "true" if kind == "bool" else "{}" if kind in ("dict", "json") else "x=1"
                from urllib.parse import urlencode
                wire = urlencode([(p + tag, v), ("zz", "1"), (p + tag, v)])
                o = observe(lambda: cls_of(cname)(set_defaults=False).from_urlencoded(wire))
                if o[0] == "err":
                    rec["err"] = o[1]
                recs.append(rec)
                inputs.append(wire)
    for cname in ("message.Message", "oidc.AuthorizationRequest", "oauth2.AccessTokenRequest"):
        d = gen.big(ctx.rng, url=True)
        recs.append(url_record(cname, d))
        inputs.append(d)
    ctx.sample(recs[7])
    ctx.sample(recs[-4])
    judge(ctx, recs, inputs)
