"""Seeded random messages, from the parameter tables of the specification."""
import os
import re

from trees import Nest, base

SPECFILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Schemas.tla")


def load_schemas():
    """The tables of spec/Schemas.tla: {class: {param: (kind, required, nested)}}."""
    src = open(SPECFILE).read()
    ids = dict(re.findall(r'<<"([\w.]+)", (\w+)>>', src[src.index("ClassTable"):]))
    res = {}
    for cname, ident in ids.items():
        body = src[src.index("\n%s == [" % ident):]
        ps = body[body.index("params |-> "):body.index("defaults |->")]
        res[cname] = {n: (k, r == "TRUE", c) for n, k, r, c in
                      re.findall(r'<<"([^"]+)", "(\w+)", (TRUE|FALSE), "([\w.]*)">>', ps)}
    return res


SCHEMAS = load_schemas()

ALPHA = ["abcXYZ019", " ", "&=#?+%;/:@,", "\"'\\<>{}[]", "\u00e9\u00df\u0153", "\u4e2d\u6587\u3042", "\U0001f600\U00010348",
         "e\u0301A\u030a\u2126\ufb01\uac00\u1100\u1161", "-._~", "\t\n\r", "\x00\x01\x7f", "\u200b\u202e\ufeff\u00a0\u2028", "|!$^*()`"]


def rstr(rng, n=12, blank=False, space=True, extra=True):
    while True:
        k = rng.choice([1, 1, 2, 3]) if extra else 1
        al = "".join(rng.choice(ALPHA) for _ in range(k)) + "ab1"
        s = "".join(rng.choice(al) for _ in range(rng.randint(1, n)))
        if rng.random() < 0.15:
            s = rng.choice(["null", "true", "0", "1", "{}", "[]", '{"a":1}', '["a"]', "a=b", "a=b&c=d", "%20", "None",
                            "http://example.com/?x=1#y", "\\u0041", "&amp;", "-1", "1e5"])
        if not space:
            s = s.replace(" ", "_")
        if s or blank:
            return s


def rjson(rng, depth=2):
    k = rng.randint(0, 6 if depth else 4)
    if k == 0:
        return None
    if k == 1:
        return rng.choice([True, False])
    if k == 2:
        return rng.choice([0, 1, -1, 2 ** 31, 2 ** 53, 2 ** 53 + 1, 1600000000000000123, 10 ** 20, 10 ** 20 + 1, rng.randint(-10 ** 6, 10 ** 6)])
    if k == 3:
        return rng.choice([0.5, -1.25, 1e-7, 1e300])
    if k == 4:
        return rstr(rng, blank=True)
    if k == 5:
        return [rjson(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {rstr(rng, 5): rjson(rng, depth - 1) for _ in range(rng.randint(0, 3))}


def robj(rng):
    return {rstr(rng, 6): rjson(rng) for _ in range(rng.randint(0, 3))}


def repeats(rng, vs):
    """Lists are no sets: sometimes the same thing twice."""
    if rng.random() < 0.25:
        vs.insert(rng.randint(0, len(vs)), rng.choice(vs))
    return vs


def rvalue(rng, kind, nested, depth=2, url=False):
    if kind == "str":
        return rstr(rng, 20)
    if kind == "int":
        return rng.choice([0, 1, -1, 3600, 2 ** 31, 2 ** 40, 2 ** 63 + 1, rng.randint(-10 ** 9, 10 ** 12)])
    if kind == "bool":
        return rng.choice([True, False])
    if kind in ("list", "splist"):
        return repeats(rng, [rstr(rng, 8, space=(kind == "list" and not url)) for _ in range(rng.randint(1, 4))])
    if kind in ("dict", "json"):
        return robj(rng)
    if kind == "idt":
        return "%s.%s.%s" % tuple("".join(rng.choice("abcXYZ01-_") for _ in range(8)) for _ in range(3))
    if kind == "time":
        return "%04d-%02d-%02dT%02d:%02d:%02d%s" % (
            rng.randint(1971, 2037), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59),
            rng.randint(0, 59), rng.choice(["+0000", "+0100", "-0730", "+01", "Z"]))
    if kind == "msg":
        return Nest(nested, rparams(rng, nested, depth - 1, url=False))
    if kind == "msglist":
        return [Nest(nested, rparams(rng, nested, depth - 1, url=False)) for _ in range(rng.randint(1, 3))]
    raise ValueError(kind)


URLK = ("str", "int", "list", "splist", "dict", "json")


def rparams(rng, cname, depth=2, url=False, want=None, extras=True, loose=False):
    sch = SCHEMAS[cname]
    d = {}
    names = list(sch)
    if url:
        names = [n for n in names if sch[n][0] in URLK or sch[n][2] == "oidc.ClaimsRequest"]
    if names:
        k = want if want is not None else rng.choice([1, 2, 3, 5, len(names)])
        for n in rng.sample(names, min(k, len(names))):
            kind, _, nested = sch[n]
            if depth <= 0 and kind in ("msg", "msglist"):
                continue
            nm = n
            if rng.random() < 0.25:
                nm = "%s#%s" % (n, rng.choice(["en", "fr-CA", "ja-Hani-JP", "x#y"]))
            d[nm] = rvalue(rng, kind, nested, depth, url)
    if extras:
        for _ in range(rng.choice([0, 0, 1, 2]) if names else rng.choice([1, 2, 3])):
            n = "x" + rstr(rng, 6).replace("#", "_")
            if names and rng.random() < 0.2:     # resembling a declared parameter is not being one
                n = rng.choice(names)
                n = rng.choice([n.upper(), n.capitalize(), n.title(), n + "s", n.replace("_", "-"), n + " ", " " + n])
            if n in sch or base(n) in sch:
                continue
            if url:
                d[n] = rng.choice([rstr(rng), repeats(rng, [rstr(rng), rstr(rng)]), repeats(rng, [rstr(rng), rstr(rng), rstr(rng)])])
            else:
                v = rjson(rng)
                if loose and rng.random() < 0.15:      # messages under undeclared names
                    v = [Nest(c, rparams(rng, c, depth - 2)) if rng.random() < 0.7 else Nest(c, {})
                         for c in rng.sample(("message.Message", "oidc.AddressClaim", "oauth2.ResponseMessage"), rng.randint(1, 3))]
                    v = v if rng.random() < 0.6 else v[0]
                if v in ("", [""]):
                    continue
                d[n] = v
    return d


def nears(s):
    """Other identifiers that resemble s: what a sloppy comparison would take for it."""
    return [v or "x" for v in [s + " x", "x " + s, s + "/", s + ",x", "x," + s, s[:-1], s[1:], s + s, s.upper(), s.capitalize(), s + "\u200b",
                       s + "%20", "https://" + s, s + "?x", s + "#", s + ".", s.replace("l", "1"), s + "\n", s + "\x00", "[%s]" % s, '"%s"' % s,
                       "\u0430" + s[1:]] if v != s]


def near(rng, s):
    return rng.choice(nears(s))


def big(rng, url=False):
    """A large message: many parameters, a long text, a deep or wide structure."""
    d = {"x%03d" % i: rstr(rng) for i in range(130)}
    d["xlong"] = "".join(rstr(rng, 40) for _ in range(4000))
    d["xlist"] = [rstr(rng) for _ in range(1200)]
    if not url:
        d["xdeep"] = v = {}
        for i in range(12):
            v["a"] = [{"b": i}]
            v = v["a"][0]
        d["xwide"] = {"k%d" % i: {"v": i} for i in range(400)}
    return d
