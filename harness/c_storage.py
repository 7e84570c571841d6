"""C24: storage by label, issuer and configuration."""
import json
import os
import shutil

from c_filestore import KEYS, norm, scratch, spread
from gen import nears
from vlib import CORES, Hang, limit

JUNK = "unknown"
VALUES = [[1, "1", [1]], [{"a": 1}, {"a": "1"}, {}], ["x", "", False], [0, "null", [[]]], ["a\r\nb", {"k": ["\u00e5", {"z": None}]}, 1.5]]
LABELS = [["a", "b"], ["foo", "fo"], ["keyjar", "client"], ["a", "aa"], ["https://op", "https://op/x"], ["A", "a"], ["a b", "a+b"], ["x", "__y__"], ["\u00e5", "a"], ["a.b", "a"]]
ISSUERS = [["https://op.example.com", "https://op.example.com/"], ["https://op.example.com/a", "https://op.example.com/b"], ["https://op.example.com", "https%3A%2F%2Fop.example.com"],
           ["https://op.example.com", "https://OP.example.com"], ["op", "op2"], ["https://op.example.com/a/b", "https://op.example.com/a"], ["https://op.example.com?x=1", "https://op.example.com"],
           ["\u00e5", "a"], ["a b", "a+b"], ["https://op.example.com:443", "https://op.example.com:8443"]]
ABS = "oidcmsg.storage.abfile.AbstractFileSystem"
LAB = "oidcmsg.storage.abfile.LabeledAbstractFileSystem"


class Boxes:
    """Contexts and their boxes, for the users of one behaviour."""

    def __init__(self, c, n):
        self.dir = scratch()
        self.n = n
        keys = KEYS[n % len(KEYS)]
        self.keys = [""] + [k for k in keys if k][:2] if n % 5 == 0 else ["__a__x", "x", "__b__"] if n % 5 == 1 else keys
        self.values = VALUES[n % len(VALUES)]
        self.labels = LABELS[n // 3 % len(LABELS)]
        self.issuers = ISSUERS[n // 7 % len(ISSUERS)]
        self.conf = {}
        for purpose, sec in c.items():
            if not sec:
                continue
            s = sec[0]
            d = {"handler": LAB if s["lab"] else ABS, "fdir": os.path.join(self.dir, ["d%d", "deep/d%d/er"][n % 2] % s["dir"]), "value_conv": "oidcmsg.storage.converter.JSON"}
            if s["iss"]:
                d["fdir"] = [d["fdir"] + "/by/{issuer}", d["fdir"] + "/i/{issuer}/db", d["fdir"] + "/x/x-{issuer}-y"][n % 3]
            else:
                d["fdir"] += "/plain"
            if n % 2:
                d["key_conv"] = "oidcmsg.storage.converter.QPKey"
            if s["label"]:
                d["label"] = self.labels[s["label"] - 1]
            self.conf[purpose] = d
        self.iss = any(s and s[0]["iss"] for s in c.values())
        self.ctx, self.box = {}, {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def get(self, u):
        from oidcmsg.context import OidcContext
        k = (u["ctx"], u["purpose"])
        if u["ctx"] not in self.ctx:
            config = {"db_conf": self.conf} if self.conf or self.n % 2 else {}
            if self.iss or self.n % 3:
                config["issuer"] = self.issuers[u["issuer"] - 1]
            from cryptojwt.key_jar import KeyJar
            self.ctx[u["ctx"]] = OidcContext(config, keyjar=KeyJar())
        ctx = self.ctx[u["ctx"]]
        if u["purpose"] == "default":
            return ctx, ctx.db
        if k not in self.box:
            boxes = {p: "box_" + p for p in (["session", "client"] if self.n % 3 else [u["purpose"]])}
            ctx.add_boxes(boxes, ctx.db_conf)
            for p, attr in boxes.items():
                self.box[(u["ctx"], p)] = getattr(ctx, attr)
        return ctx, self.box[k]

    def key(self, k):
        return self.keys.index(k) + 1 if k in self.keys else "%s key %r" % (JUNK, k)

    def value(self, v):
        for i, w in enumerate(self.values, 1):
            if type(v) is type(w) and v == w:
                return i
        return "%s value %r" % (JUNK, v)

    def do(self, o, n):
        try:
            with limit(30):
                return self._do(o, n)
        except (Exception, Hang) as exc:
            return [["%s: %s" % (type(exc).__name__, exc), 0]]

    def _do(self, o, n):
        ctx, s = self.get(o["u"])
        op = o["op"]
        k = self.keys[o["k"] - 1] if o["k"] else None
        v = self.values[o["v"] - 1] if o["v"] else None
        if op == "set":
            if o["u"]["purpose"] == "default" and n % 2:
                if isinstance(v, dict) and n % 4 == 1:
                    from oidcmsg.message import Message
                    v = Message(**v)
                ctx.set(k, v)
            else:
                s[k] = v
        elif op == "update":
            s.update({k: v})
        elif op == "update2":
            s.update({k: v, self.keys[o["k"] % 3]: self.values[o["v"] % 3]})
        elif op == "update0":
            s.update({})
        elif op == "delete":
            try:
                del s[k]
            except KeyError:
                pass
        elif op == "get":
            nothing = object()
            try:
                r = s.get(k, nothing) if n % 3 == 0 else ctx.get(k) if n % 3 == 1 and o["u"]["purpose"] == "default" and k != "seed" else s[k]
            except KeyError:
                return []
            return [] if r is nothing or r is None else [[o["k"], self.value(r)]]
        elif op == "contains":
            r = k in s
            return [[o["k"], 0]] if r is True else [] if r is False else [["%s %r" % (JUNK, r), 0]]
        elif op == "keys":
            ks = list(s.keys())
            if hasattr(type(s), "__len__") and len(s) != len(ks):
                return [["%s length %r" % (JUNK, len(s)), 0]]
            return [[self.key(x), 0] for x in ks]
        elif op == "items":
            return [[self.key(x), self.value(w)] for x, w in (s.items() if n % 2 and hasattr(type(s), "items") else s)]
        return []


def replay(job):
    seed, cases = job
    bad, n = [], seed
    for c in cases:
        n += 1
        b = Boxes(c["c"], n)
        try:
            for i, o in enumerate(c["ops"]):
                b.do(o, n + i)
            for ctx, sees in enumerate(c["sees"], 1):
                for purpose, x in (("default", "d"), ("session", "s")):
                    got = b.do({"op": "items", "u": {"ctx": ctx, "issuer": 2 if ctx == 3 else 1, "purpose": purpose}, "k": 0, "v": 0}, n)
                    if norm(got) != norm(sees[x]):
                        bad.append(("configuration %s, keys %r, issuers %r: after %s the %s box of context %d has %s, should have %s" % (
                            json.dumps(b.conf), b.keys, b.issuers, json.dumps(c["ops"]), purpose, ctx, got, sees[x]), c))
        finally:
            b.close()
    return bad


def history(job):
    c, n, ops, users = job
    b = Boxes(c, n)
    try:
        res = [b.do(o, n + i) for i, o in enumerate(ops)]
        fin = [{"u": u, "items": b.do({"op": "items", "u": u, "k": 0, "v": 0}, 0)} for u in users]
        return {"c": c, "ops": ops, "res": res, "fin": fin, "conf": json.dumps(b.conf), "keys": b.keys, "issuers": b.issuers}
    finally:
        b.close()


def numbers(rec):
    fix = lambda pairs: [[x if isinstance(x, int) else -1 for x in p] for p in pairs]
    return {"c": rec["c"], "ops": rec["ops"], "res": [fix(p) for p in rec["res"]], "fin": [{"u": f["u"], "items": fix(f["items"])} for f in rec["fin"]]}


def stores(job):
    """Labelled stores without a context: several on one directory, or in memory."""
    n, kind, ops = job
    from oidcmsg.storage.abfile import LabeledAbstractFileSystem
    from oidcmsg.storage.extension import LabeledDict
    b = Boxes({}, n)
    conf = {"fdir": os.path.join(b.dir, "db"), "value_conv": "oidcmsg.storage.converter.JSON"}
    made = {}

    def get(u):
        k = (u["ctx"], u["purpose"])
        if k not in made:
            label = b.labels[{"default": 1, "session": 2}[u["purpose"]] - 1]
            if kind == "memory":
                made[k] = LabeledDict(label)
            else:
                made[k] = LabeledAbstractFileSystem(dict(conf, label=label)) if u["ctx"] % 2 else LabeledAbstractFileSystem(dict(conf), label)
        return made[k], made[k]
    b.get = get
    c = {"default": [{"dir": 1, "iss": False, "label": 1, "lab": True}], "session": [{"dir": 1, "iss": False, "label": 2, "lab": True}]} if kind == "file" else {"default": [], "session": []}
    try:
        fix = [o for o in ops if o["u"]["purpose"] != "client"]
        res = [b.do(o, 2) for o in fix]
        us = [{"ctx": x, "issuer": 1, "purpose": p} for x in (1, 2) for p in ("default", "session")]
        fin = [{"u": u, "items": b.do({"op": "items", "u": u, "k": 0, "v": 0}, 0)} for u in us]
        return {"c": c, "ops": fix, "res": res, "fin": fin, "conf": "%s stores with labels %r" % (kind, b.labels), "keys": b.keys, "issuers": []}
    finally:
        b.close()


def random_config(rng):
    while True:
        c = {}
        for p in ("default", "session", "client"):
            if rng.random() < 0.25:
                c[p] = []
            else:
                label = rng.choice([0, 1, 2])
                c[p] = [{"dir": rng.choice([1, 2]), "iss": rng.random() < 0.5, "label": label, "lab": label > 0 or rng.random() < 0.5}]
        secs = [s[0] for s in c.values() if s]
        if all((s["label"] == 0) == (t["label"] == 0) for s in secs for t in secs if s["dir"] == t["dir"] and s["iss"] == t["iss"]):
            return c


def random_ops(rng, users, length):
    ops = []
    for _ in range(length):
        op = rng.choice(["set"] * 4 + ["get"] * 4 + ["delete", "delete", "contains", "keys", "items", "update", "update2", "update2", "update0"])
        ops.append({"op": op, "u": rng.choice(users), "k": 0 if op in ("keys", "items", "update0") else rng.choice([1, 1, 2, 3]), "v": rng.randrange(1, 4) if op in ("set", "update", "update2") else 0})
    return ops


def own_keys(ctx):
    """The key jar of a context has its own keys, under its own name too."""
    from cryptojwt.key_jar import KeyJar
    from oidcmsg.context import OidcContext
    import jose
    rng = ctx.rng
    cases = ctx.tlc("KeyOwnersMC", 'SPECIFICATION Spec\nCONSTANT Ids = {"https://op.example.com", "https://op.example.com/x"}\nINVARIANTS Named Emit\n').prints
    ctx.extra["key_jar_cases"] = len(cases)
    jwks = {"keys": [dict(jose.MATERIAL["rsa1"], kid="r", use="sig"), dict(jose.MATERIAL["oct1"], kid="o", use="sig")]}
    defs = {"key_defs": [{"type": "EC", "crv": "P-256", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["enc"]}], "uri_path": "static/jwks.json"}

    def ids(kj, owner):
        return sorted(json.dumps(k, sort_keys=True) for k in kj.export_jwks(private=True, issuer_id=owner)["keys"])

    for c in cases:
        x, d = c["x"], scratch()
        try:
            section = {"handler": LAB if x["kind"] == "label" or rng.random() < 0.5 else ABS, "fdir": os.path.join(d, rng.choice(["db", "db/{issuer}"])), "value_conv": "cryptojwt.serialize.item.KeyIssuer"}
            if x["kind"] == "label":
                section["label"] = "keyjar"
            conf = {"issuer": "https://op.example.com"}
            if x["kind"] in ("own", "label"):
                conf["db_conf"] = {"keyjar": section}
            elif x["kind"] == "default":
                conf["db_conf"] = {"default": section}
            source = rng.choice(["jwks", "keys"])

            def setup(src, entity, given=None):
                cf = dict(conf)
                if src:
                    cf.update({"jwks": jwks} if source == "jwks" else {"keys": defs})
                return OidcContext(cf, given, entity) if entity else OidcContext(cf, given)

            try:
                given = None
                if x["given"]:
                    given = KeyJar()
                    for o in x["given"][0]:
                        given.import_jwks(jwks, o)
                if x["first"]:
                    setup(True, x["firstentity"])
                kj = setup(x["source"], x["entity"], given).keyjar
                got = sorted(kj.owners())
                why = "owners %s" % got if got != sorted(c["owners"]) else ""
                if given is not None and kj is not given:
                    why = why or "not the key jar that was given"
                if "" in got and x["entity"] in got and x["entity"] and given is None:
                    # what was stored under the own name before may be there too
                    if not set(ids(kj, "")) <= set(ids(kj, x["entity"])) or not ids(kj, ""):
                        why = why or "own keys %s, under the own name %s" % (ids(kj, ""), ids(kj, x["entity"]))
                if x["source"] and given is None and source == "jwks" and not any('"r"' in k for k in ids(kj, "")):
                    why = why or "the configured keys are missing"
            except Exception as exc:
                why = "%s: %s" % (type(exc).__name__, exc)
            ctx.validated += 1
            if why:
                ctx.violation("key jar of a context with %s (%s): %s, should have keys of %s" % (json.dumps(x), json.dumps(conf), why, c["owners"]), c)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def C24(ctx):
    rng = ctx.rng
    ctx.assumptions += ["no label is another one followed by an underscore (known finding)", "stores with and without a label do not share a directory"]
    ctx.tlc("LabelsMC", "SPECIFICATION Spec\nCONSTANT LabelTexts <- LabelsApart\nINVARIANTS OwnKeys NoClash\n")
    cases = ctx.tlc("StorageMC", "SPECIFICATION Spec\nCONSTANT Labels3={1,2}\nINVARIANTS Shared Isolated Survives Emit\n").prints
    ctx.extra["histories_from_model"] = len(cases)
    ctx.sample(cases[len(cases) // 2])
    jobs = [(rng.randrange(100000), cases[i::CORES * 4]) for i in range(CORES * 4)]
    for bad in spread(replay, jobs):
        for what, c in bad:
            ctx.violation(what, c)
    ctx.validated += len(cases)
    jobs, label_jobs = [], []
    for n in range(6000 if ctx.thorough else 900):
        users = [{"ctx": x, "issuer": 2 if x == 3 else 1, "purpose": p} for x in (1, 2, 3) for p in ("default", "session", "client")]
        users = rng.sample(users, rng.randrange(2, 7))
        jobs.append((random_config(rng), rng.randrange(100000), random_ops(rng, users, rng.randrange(4, 20)), users))
        pair = [{"ctx": x, "issuer": 1, "purpose": p} for x in (1, 2) for p in ("default", "session")]
        label_jobs.append((rng.randrange(100000), rng.choice(["file", "file", "memory"]), random_ops(rng, pair, rng.randrange(4, 20))))
    recs = spread(history, jobs) + spread(stores, label_jobs)
    bad = ctx.judge("StorageTrace", [numbers(r) for r in recs])
    ctx.validated += len(recs)
    for i, cl in sorted(bad.items()):
        r = recs[i]
        ctx.violation("%s, keys %r, issuers %r: %s: %s ends %s" % (r["conf"], r["keys"], r["issuers"], "; ".join(cl), json.dumps([["%s-%d.%s(%d,%d)" % (
            o["u"]["purpose"], o["u"]["ctx"], o["op"], o["k"], o["v"]), v] for o, v in zip(r["ops"], r["res"])])[:900], json.dumps(r["fin"])[:600]), r)
    own_keys(ctx)
    known_labels(ctx)


def known_labels(ctx):
    """Labels of which one is the other followed by an underscore."""
    from oidcmsg.storage.abfile import LabeledAbstractFileSystem
    d = scratch()
    try:
        conf = {"fdir": d, "value_conv": "oidcmsg.storage.converter.JSON"}
        a, b = LabeledAbstractFileSystem(dict(conf), "a"), LabeledAbstractFileSystem(dict(conf), "a__b")
        b["k"] = 1
        ctx.validated += 1
        if list(a.keys()):
            ctx.violation("label a lists %r stored under label a__b" % list(a.keys()), {})
    finally:
        shutil.rmtree(d, ignore_errors=True)
