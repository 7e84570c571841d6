"""C04: the type of the values a message holds."""
import json
import re
from urllib.parse import urlencode

import gen
from trees import Nest, build, cls_of, esc, realise, tree, tree_js
from vlib import observe


def annotate(t):
    if t["t"] == "str":
        t.setdefault("num", t["v"] if re.fullmatch(r"-?(0|[1-9][0-9]*)", t["v"]) and t["v"] != "-0" else "")
        # no integer in any reading: int() is lenient about blanks, signs, underscores and the digits of other scripts
        t.setdefault("nonnum", not re.fullmatch(r"\s*[+-]?\d+(_\d+)*\s*", t["v"]) and "\\" not in t["v"])
    return t


def record(cname, name, val, ch, prior=None):
    """The fate of val; prior: a value the parameter had before."""
    rec = {"cls": cname, "name": name, "ch": ch, "x": annotate(tree_js(val)), "o": {"r": "err"}}

    def run(prior=prior):
        cls = cls_of(cname)
        v = realise(val)
        msg = cls(set_defaults=False)
        before = None
        if prior is not None:
            try:
                msg[name] = realise(prior)
                before = tree(msg[name])
            except Exception:
                prior = None
                msg = cls(set_defaults=False)
        if ch == "dict":
            msg.from_dict({name: v})
            m2 = cls(set_defaults=False, **{name: v})
            assert prior is not None or tree(m2) == tree(msg), "construction and from_dict differ"
        elif ch == "json":
            msg.from_json(json.dumps({name: v}))
        elif ch == "url":
            # parse_qs ignores blank values and refuses an entirely blank string
            msg.from_urlencoded(urlencode([(name, v), ("zz", "1")]))
            del msg["zz"]
        else:
            msg[name] = v
        others = [k for k in msg.keys() if k != name]
        if before is not None and name in msg and tree(msg[name]) == before:      # nothing new, unless it is the same again
            again = run(None)
            return again if again["r"] == "held" and again["x"] == before else {"r": "absent"}
        if name in msg:
            return {"r": "held", "x": tree(msg[name])}
        return {"r": "absent"} if not others else {"r": "held", "x": {"t": "other", "v": "stray"}}

    o = observe(run)
    if o[0] == "ok":
        rec["o"] = o[1]
    else:
        rec["why"] = "%s %s" % (o[1], o[2])
    return rec


INTISH = ["9007199254740993", "-9007199254740993", "18446744073709551617", "100000000000000000000001", "1e3", "1E3", "1.5", "1.0", "-0.5", ".5", "5.", "0x10", "0b1", "1,5",
          "1 5", "12abc", "abc12", "1-2", "--1", "+-1", "1/2", "1j", "1L", "inf", "nan", "Infinity", "true", "10%", "1;2", "0", "-1", "7", "1753920000"]

BOOLISH = ["true", "false", "True", "False", "TRUE", "FALSE", "truex", "truth", "trues", "true ", " true", "tru", "t", "f", "falsey", "falsehood", "fals", "yes", "no", "on", "off", "0", "1",
           "None", "null", "true,false", "true false", "nottrue", "untrue", '"true"', "{true}", "true#", "false\n"]


def C04(ctx):
    r = ctx.tlc("IntakeMC", "SPECIFICATION Spec1\nINVARIANTS DesignOK Emit\n")
    recs, inputs = [], []
    for c in r.prints:
        v = build(c["x"])
        recs.append(record(c["cls"], c["name"], v, c["ch"]))
        inputs.append([c["cls"], c["name"], c["ch"], v])
    ctx.extra["cases_from_model"] = len(recs)
    rng = ctx.rng
    ints = [(c, p) for c in sorted(gen.SCHEMAS) for p in gen.SCHEMAS[c] if gen.SCHEMAS[c][p][0] == "int"]
    bools = [(c, p) for c in sorted(gen.SCHEMAS) for p in gen.SCHEMAS[c] if gen.SCHEMAS[c][p][0] == "bool"]
    allp = [(c, p) for c in sorted(gen.SCHEMAS) for p in gen.SCHEMAS[c]]
    for i, v in enumerate(BOOLISH * (20 if ctx.thorough else 4)):
        cname, p = rng.choice(bools)
        ch = ["url", "url", "dict", "json", "set"][i // len(BOOLISH) % 5] if ctx.thorough else ["url", "url", "dict", "set"][i // len(BOOLISH) % 4]
        recs.append(record(cname, p, v, ch))
        inputs.append([cname, p, ch, v])
    for cname, p in [x for x in allp if gen.SCHEMAS[x[0]][x[1]][0] == "msglist"] * (20 if ctx.thorough else 6):
        nested = gen.SCHEMAS[cname][p][2] or "message.Message"
        v, prior = gen.rvalue(rng, "msg", nested, 1), gen.rvalue(rng, "msglist", nested, 1)
        recs.append(record(cname, p, v, "set", prior))
        inputs.append([cname, p, "set", v, prior])
    for _ in range(30000 if ctx.thorough else 3000):
        cname, p = rng.choice(ints if rng.random() < 0.15 else allp)
        ch = rng.choice(["dict", "json", "url", "set"])
        if rng.random() < 0.4:
            kind, _, nested = gen.SCHEMAS[cname][p]
        else:
            _, _, nested = gen.SCHEMAS[cname][p]
            kind = rng.choice(["str", "int", "bool", "list", "splist", "dict", "msg"])
            nested = nested or "message.Message"
        if ch == "url":
            v = rng.choice([gen.rstr(rng), str(rng.randint(-99, 10 ** 12)), rng.choice(INTISH), json.dumps(gen.rjson(rng))])
        elif ch == "json":
            v = gen.rjson(rng) if kind in ("msg", "msglist") else gen.rvalue(rng, kind, nested)
        else:
            v = rng.choice([gen.rvalue(rng, kind, nested, 1), gen.rjson(rng)])
            if gen.SCHEMAS[cname][p][0] == "int" and rng.random() < 0.4:
                v = rng.choice(INTISH)
        if isinstance(v, float) and v != v:
            continue
        prior = None
        if rng.random() < 0.3:
            kind, _, nested = gen.SCHEMAS[cname][p]
            prior = gen.rvalue(rng, kind, nested or "message.Message", 1)
        recs.append(record(cname, p, v, ch, prior))
        inputs.append([cname, p, ch, v] + ([prior] if prior is not None else []))
    ctx.sample(recs[3])
    ctx.sample(recs[-1])
    bad = ctx.judge("IntakeTrace", recs)
    ctx.validated += len(recs)
    for i, cl in sorted(bad.items()):
        ctx.violation("%s: %r -> %r %s" % ("; ".join(cl), inputs[i], recs[i]["o"], recs[i].get("why", "")),
                      {"input": inputs[i], "record": recs[i]})
