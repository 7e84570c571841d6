"""C29: message types by name and their schemas. C30: configured paths and import names."""
import copy
import importlib
import json

import gen
from trees import MODS, build, cls_of, entries, esc, name_of, realise, tree
from vlib import observe

SIMPLE = ("str", "int", "bool", "list", "splist")
OTHERS = ["", "message", "authorizationrequest", "AuthorizationRequest ", " Message", "Nope", "dict", "str", "OrderedDict", "KeyJar", "datetime", "Exception", "object", "None",
          "oidc.IdToken", "oidcmsg.oidc.IdToken", "Messages", "AuthorizationReq", "Request", "logging", "factory", "*", "IdToken\n", "ID Token"]


def simple(rng, cname, url=False):
    d = gen.rparams(rng, cname, 0, url)
    sch = gen.SCHEMAS[cname]
    return {k: v for k, v in d.items() if k in sch and sch[k][0] in SIMPLE or k[0] == "x" and k.split("#")[0] not in sch and v not in (None, "", [], {})}


def made(where, name, d):
    mod = importlib.import_module("oidcmsg." + where)
    rec = {"k": "factory", "where": where, "name": esc(name), "es": entries(d), "cls": [], "back": [], "why": ""}
    o = observe(mod.factory, name, **d)
    if o[0] == "err":
        rec["cls"], rec["why"] = ["error"], "%s %s" % (o[1], o[2])
    elif o[1] is not None:
        rec["cls"] = [name_of(type(o[1]))]
        rec["back"] = entries(o[1]) if hasattr(o[1], "items") else []
    return rec


def word(t):
    return "none" if t is None else t.__name__ if t in (str, int, bool) else "list" if t == [str] else "other"


def types(cname):
    cls = cls_of(cname)
    names = sorted(gen.SCHEMAS[cname]) + ["no_such_parameter", "redirect_uri#de"]
    o = observe(lambda: {"params": [esc(p) for p in cls().parameters()], "type": cls().type(), "types": [[n, word(cls().value_type(n))] for n in names]})
    return dict({"k": "types", "cls": cname, "mod": cname.split(".")[0]}, **(o[1] if o[0] == "ok" else {"params": ["?"], "type": "", "types": []}))


def adopt(c1, d1, c2, d2):
    from oidcmsg.message import add_non_standard

    def go():
        m1, m2 = cls_of(c1)(set_defaults=False), cls_of(c2)(set_defaults=False)
        m1.update(d1)
        m2.update(d2)
        add_non_standard(m1, m2)
        return entries(m1), entries(m2)
    o = observe(go)
    return {"k": "adopt", "c1": c1, "es1": entries(d1), "c2": c2, "es2": entries(d2), "back": o[1][0] if o[0] == "ok" else [["error", "error", tree(o[2])]], "back2": o[1][1] if o[0] == "ok" else []}


def byschema(cname, d):
    from oidcmsg.message import by_schema
    o = observe(by_schema, cls_of(cname), **d)
    return {"k": "byschema", "cls": cname, "es": entries(d), "back": entries(o[1]) if o[0] == "ok" and isinstance(o[1], dict) else [["error", "error", tree(str(o[1:3]))]]}


def C29(ctx):
    from oidcmsg.message import SINGLE_OPTIONAL_STRING, Message, add_non_standard, by_schema
    rng = ctx.rng
    cases = ctx.tlc("LookupMC", 'SPECIFICATION Spec1\nCONSTANTS Part="schema" MaxLen=0\nINVARIANTS SchemaOK Emit\n').prints
    if not ctx.thorough:
        cases = rng.sample(cases, min(len(cases), 20000))
    made_up = {}

    def declaring(names):
        key = tuple(sorted(names))
        if key not in made_up:
            made_up[key] = type("T" + "".join(key), (Message,), {"c_param": {n: SINGLE_OPTIONAL_STRING for n in key}})
        return made_up[key]
    plain = lambda es: {e[0]: build(e[2]) for e in es}
    for c in cases:
        x = c["x"]
        m1, m2 = declaring(x["p1"])(**plain(x["es1"])), declaring(x["p2"])(**plain(x["es2"]))
        got = observe(by_schema, type(m1), **plain(x["es1"]))
        if got[0] != "ok" or got[1] != plain(c["by"]):
            ctx.violation("by_schema: a type declaring %s leaves %s of %s" % (x["p1"], got[1:3], plain(x["es1"])), c)
        o = observe(add_non_standard, m1, m2)
        if o[0] != "ok" or dict(m1.items()) != plain(c["res"]) or dict(m2.items()) != plain(x["es2"]):
            ctx.violation("add_non_standard: %s (declares %s) with %s (declares %s) becomes %s and %s %s" % (
                plain(x["es1"]), x["p1"], plain(x["es2"]), x["p2"], m1.to_dict(), m2.to_dict(), o[1:3]), c)
    ctx.validated += len(cases)
    ctx.sample(cases[len(cases) // 2])
    recs = []
    allnames = sorted({c.split(".")[1] for c in gen.SCHEMAS if c.split(".")[0] in ("message", "oauth2", "oidc")})
    for where in ("oauth2", "oidc"):
        for name in allnames + OTHERS:
            known = [c for c in ("oidc." + name, "oauth2." + name, "message." + name) if c in gen.SCHEMAS and not (where == "oauth2" and c[:5] == "oidc.")]
            for n in range(12 if ctx.thorough else 4):
                recs.append(made(where, name, simple(rng, known[0]) if known and n else {"xtra": "v"} if n else {}))
    names = sorted(gen.SCHEMAS)
    recs += [types(c) for c in names]
    for c in names:
        for _ in range(12 if ctx.thorough else 3):
            near = {rng.choice([n + "#en", n.upper(), n + "s", n[:-1]]): gen.rstr(rng) for n in rng.sample(sorted(gen.SCHEMAS[c]), min(3, len(gen.SCHEMAS[c])))}
            recs.append(byschema(c, dict(near, **dict(simple(rng, c), **simple(rng, rng.choice(names))))))
    for _ in range(6000 if ctx.thorough else 1200):
        c1, c2 = rng.choice(names), rng.choice(names)
        d2 = simple(rng, c2)
        for n in rng.sample(sorted(gen.SCHEMAS[c1]), min(2, len(gen.SCHEMAS[c1]))):
            if n not in gen.SCHEMAS[c2] and gen.SCHEMAS[c1][n][0] == "str":
                d2[n] = gen.rstr(rng)
        d1 = simple(rng, c1)
        shared = {k: gen.rstr(rng) for k in ("xone", "xtwo") if rng.random() < 0.5}
        d1.update(shared)
        d2.update({k: gen.rstr(rng) for k in shared})
        # tagged names of one are not judged by the other
        d1, d2 = [{k: v for k, v in d.items() if "#" not in k} for d in (d1, d2)]
        recs.append(adopt(c1, d1, c2, d2))
    ctx.sample(recs[-1])
    bad = ctx.judge("LookupTrace", recs)
    ctx.validated += len(recs)
    for i, cl in sorted(bad.items()):
        ctx.violation("%s: %s" % ("; ".join(cl), json.dumps(recs[i])[:700]), recs[i])


# ---------------------------------------------------------------- C30

def items_of(items):
    """As the library takes them."""
    return {i["s"]: None if i["how"] == "self" else list(i["attrs"]) if i["how"] == "attrs" else items_of(i["sub"]) for i in items}


def based(conf, items, base):
    from oidcmsg import add_base_path
    c = copy.deepcopy(conf)
    o = observe(add_base_path, c, items_of(items), base)
    return tree(c) if o[0] == "ok" else {"t": "err", "v": "%s %s" % (o[1], o[2])}


def modules(p):
    from oidcmsg.storage.utils import modsplit
    o = observe(modsplit, p)
    return list(o[1]) if o[0] == "ok" and isinstance(o[1], (tuple, list)) else [] if o[0] == "err" and o[1] == "ValueError" else ["?", str(o[1:3])]


def proper(p):
    from oidcmsg import proper_path
    o = observe(proper_path, p)
    return o[1] if o[0] == "ok" else "error %s" % (o[2],)


def plainly(x):
    return {e[0]: plainly(e[2]) for e in x["v"]} if x["t"] == "obj" else x["v"]


def random_conf(rng, depth):
    c = {}
    for n in rng.sample("abcdefgh", rng.randrange(6)):
        r = rng.random()
        c[n] = random_conf(rng, depth - 1) if depth and r < 0.4 else random_path(rng) if r < 0.95 else ""
    return c


def random_path(rng):
    return rng.choice(["", "", "/", "./", "../", "x/"]) + "/".join(rng.choice(["x", "keys.json", "..", ".", "a b", "-", "~", "private"]) for _ in range(rng.randrange(4))) + rng.choice(["", "", "/", "."])


def random_items(rng, conf):
    items = []
    for n in sorted(set(conf) | {"", "z"}):
        r = rng.random()
        v = conf if n == "" else conf.get(n)
        if r < 0.3:
            continue
        if isinstance(v, dict):
            texts = [k for k, x in v.items() if isinstance(x, str)] + ["z", "nothing"]
            if r < 0.7 or n == "":
                items.append({"s": n, "how": "attrs", "attrs": rng.sample(texts, rng.randrange(len(texts) + 1)), "sub": []})
            else:
                items.append({"s": n, "how": "sub", "attrs": [], "sub": random_items(rng, v)})
        elif n:
            items.append({"s": n, "how": "self", "attrs": [], "sub": []})
    # a place that is named twice is moved twice
    own = [i for i in items if i["s"] == ""]
    if own:
        items = [i for i in items if i["how"] != "self" or i["s"] not in own[0]["attrs"]]
    rng.shuffle(items)
    return items


def imports(cname, way):
    from oidcmsg.storage.utils import importer, qualified_name
    cls = cls_of(cname)
    if way == "qualified":
        o = observe(lambda: importer(qualified_name(cls)))
    else:
        o = observe(importer, MODS[cname.split(".")[0]] + way + cname.split(".")[1])
    return {"k": "import", "name": cname, "way": way, "ok": o[0] == "ok" and o[1] is cls}


def missing(name):
    from oidcmsg.storage.utils import importer
    o = observe(importer, name)
    return {"k": "import", "name": name, "way": "missing", "ok": o[0] == "err" and o[1] != "Hang"}


def C30(ctx):
    rng = ctx.rng
    n = 9 if ctx.thorough else 7
    cases = []
    for part, inv in (("path", "PathOK"), ("name", "NameOK"), ("base", "BaseOK")):
        cases += ctx.tlc("LookupMC", 'SPECIFICATION Spec1\nCONSTANTS Part="%s" MaxLen=%d\nINVARIANTS %s Emit\n' % (part, n, inv)).prints
    for c in cases:
        x = c["x"]
        if x["k"] == "path":
            got, want = proper(x["p"]), c["res"]
        elif x["k"] == "name":
            got, want = modules(x["p"]), c["res"]
        else:
            got = based(plainly(x["conf"]), x["items"], x["b"])
            got, want = plainly(got), plainly(c["res"])
        if got != want:
            ctx.violation("%s gives %s, should be %s" % (json.dumps(x)[:400], json.dumps(got)[:200], json.dumps(want)[:200]), c)
    ctx.validated += len(cases)
    ctx.sample(cases[len(cases) // 3])
    recs = []
    for _ in range(20000 if ctx.thorough else 3000):
        p = random_path(rng)
        recs.append({"k": "path", "p": p, "o": proper(p)})
        q = "".join(rng.choice(["a", "b_1", ".", ".", ":", "oidcmsg"]) for _ in range(rng.randrange(8)))
        recs.append({"k": "name", "p": q, "o": modules(q)})
        conf = random_conf(rng, 3)
        items, b = random_items(rng, conf), rng.choice(["/root", "base", "base/", "./", "/", "../up", "a b/c"])
        recs.append({"k": "base", "conf": tree(conf), "items": items, "b": b, "o": based(conf, items, b)})
    recs += [imports(c, way) for c in sorted(gen.SCHEMAS) if c[:3] != "own" for way in (".", ":", "qualified")]
    recs += [missing(m) for m in ("oidcmsg.nothing.Here", "oidcmsg.oidc.Nothing", "oidcmsg.oidc:Nothing", "nothing.at.all", "oidcmsg.oidc:IdToken:x", "IdToken")]
    ctx.sample(recs[-10])
    bad = ctx.judge("LookupTrace", recs)
    ctx.validated += len(recs)
    for i, cl in sorted(bad.items()):
        ctx.violation("%s: %s" % ("; ".join(cl), json.dumps(recs[i])[:700]), recs[i])
