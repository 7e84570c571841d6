"""C21: the file store is one persistent map shared by its instances."""
import itertools
import json
import os
import shutil
import tempfile
import time
from concurrent.futures import ProcessPoolExecutor
from multiprocessing import get_context

from vlib import CORES, ROOT, Hang, limit

JUNK = "unknown"


def scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else os.path.join(ROOT, "out")
    return tempfile.mkdtemp(prefix="verif-fs-", dir=base)


KEYS = [["a", "b", "c"], ["a b", "a+b", "a%20b"], [".", "..", "..."], ["x.lock", "x", ".lock"], ["a/b", "a%2Fb", "a%2fb"], ["\u00e5", "a\u030a", "a"],
        ["A", "a", "aa"], ["https://op.example.com/x?y=z#f", "https://op.example.com/x?y=z", "https%3A%2F%2Fop.example.com"], ["%", "%25", "%2525"],
        ["/", "//", "/etc/nothing"], ["a\nb", "a\tb", "a\\b"], ["__x__a", "x__a", "__x__"], [" ", "  ", "+"], ["\U0001f600", "\u20ac", "\u00df"], ["..%2Fa", "../a", "%2E%2E"],
        ["x%2Elock", "x.LOCK", "x.lock.lock"], ["~", "-", "*"], ["a.", ".a", "a.b"], ["\x00", "0", "\x7f"], ["a%2Elock", "a.lock", "a%252Elock"], ["", "%", "%25"], ["", " ", "."], ["k" * 240 + "1", "k" * 240 + "2", "k" * 240], ["h" * 230 + "/", "h" * 230 + " ", "h" * 230]]
TEXTS = [["v1", "v2", "v3"], ["", " ", "\n"], ["line\nline\r\n", "line\nline\n", "line\rline"], ["\u00e5\u20ac", "x" * 70000, "x" * 70001], ["1", "true", "null"]]
JSONS = [[1, "1", [1]], [{"a": 1}, {"a": "1"}, {}], [[], "", False], [None, 0, "null"], ["a\r\nb", {"k": ["\u00e5", {"z": None}]}, 1.5], [{"b": {"c": [1, 2]}, "a": "x"}, {"a": "x"}, [2, 1]]]


def issuers():
    from cryptojwt.key_issuer import KeyIssuer
    import jose
    res = []
    for n in ("rsa1", "ec1", "rsa2"):
        ki = KeyIssuer(name="iss-" + n)
        from cryptojwt.key_bundle import KeyBundle
        kb = KeyBundle()
        from cryptojwt.jwk.jwk import key_from_jwk_dict
        kb.append(key_from_jwk_dict(dict(jose.MATERIAL[n], kid=n, use="sig"), private=True))
        ki.add_kb(kb)
        res.append(ki)
    return res


def same(a, b):
    if hasattr(a, "dump"):
        return hasattr(b, "dump") and json.dumps(a.dump(), sort_keys=True, default=str) == json.dumps(b.dump(), sort_keys=True, default=str)
    return type(a) is type(b) and a == b and repr(a) == repr(b)


class Users:
    """Instances on one directory, spoken to in the numbers of the model."""

    def __init__(self, kind, n, count):
        from oidcmsg.storage.abfile import AbstractFileSystem
        self.cls = AbstractFileSystem
        self.dir = scratch()
        self.keys = KEYS[n % len(KEYS)]
        conf = {"fdir": os.path.join(self.dir, ["db", "deep/er/db", "{issuer}"][n % 3])}
        if "{issuer}" in conf["fdir"]:
            conf["issuer"] = "https%3A%2F%2Fop.example.com"
        if kind == "text":
            self.values = TEXTS[n % len(TEXTS)]
            if n % 2:
                conf["value_conv"] = "oidcmsg.storage.converter.PassThru"
        elif kind == "json":
            self.values = JSONS[n % len(JSONS)]
            conf["value_conv"] = "oidcmsg.storage.converter.JSON"
        else:
            self.values = issuers()
            conf["value_conv"] = "cryptojwt.serialize.item.KeyIssuer"
        if n % 4 == 1:
            conf["key_conv"] = "oidcmsg.storage.converter.QPKey"
        elif n % 4 == 3 and all(k.isalnum() for k in self.keys):
            conf["key_conv"] = "oidcmsg.storage.converter.PassThru"
        self.clock, self.ticks = n % 7, 0         # 1: the wall clock stands still between deletions, 2: it goes backwards, else: the real one
        self.conf = conf
        self.inst = {i: self.cls(dict(conf)) for i in range(1, count + 1)}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def key(self, k):
        return self.keys.index(k) + 1 if k in self.keys else JUNK + " key %r" % (k,)

    def value(self, v):
        for i, w in enumerate(self.values, 1):
            if same(v, w):
                return i
        return JUNK + " value %r" % (v,)

    def do(self, o, n=0):
        real = time.time_ns, time.time
        self.ticks += self.clock == 2 or o["op"] in ("delete", "clear", "vanish")
        now = 1790000000 * 10 ** 9 - self.ticks * 3 * 10 ** 9
        try:
            if self.clock in (1, 2):
                time.time_ns, time.time = (lambda: now), (lambda: now / 1e9)
            with limit(30):
                return self._do(o, n)
        except (Exception, Hang) as exc:
            return [["%s: %s" % (type(exc).__name__, exc), 0]]
        finally:
            time.time_ns, time.time = real

    def _do(self, o, n):
        s, op = self.inst[o["i"]], o["op"]
        k = self.keys[o["k"] - 1] if o["k"] else None
        if op == "set":
            s[k] = self.values[o["v"] - 1]
        elif op == "get":
            if n % 3 == 0:
                try:
                    v = s[k]
                except KeyError:
                    return []
            else:
                nothing = object()
                v = s.get(k, nothing) if n % 3 == 1 or any(w is None for w in self.values) else s.get(k)
                if v is nothing or (n % 3 == 2 and v is None and not any(w is None for w in self.values)):
                    return []
            return [[o["k"], self.value(v)]]
        elif op == "delete":
            del s[k]
        elif op == "clear":
            s.clear()
        elif op == "vanish":
            shutil.rmtree(os.path.join(self.dir, os.listdir(self.dir)[0]) if os.listdir(self.dir) else self.dir + "/none", ignore_errors=True)
        elif op == "contains":
            r = k in s
            return [[o["k"], 0]] if r is True else [] if r is False else [[JUNK + " %r" % r, 0]]
        elif op == "len":
            return [[len(s), 0]]
        elif op == "keys":
            ks = list(s.keys()) if n % 2 else s()
            return [[self.key(x), 0] for x in ks]
        elif op == "items":
            return [[self.key(x), self.value(v)] for x, v in (s.items() if n % 2 else s)]
        elif op == "update":
            s.update({self.keys[a - 1]: self.values[b - 1] for a, b in zip(o["ks"], o["vs"])})
        elif op == "reopen":
            self.inst[o["i"]] = self.cls(dict(self.conf))
        return []

    def final(self):
        res = []
        for s in list(self.inst.values()) + [self.cls(dict(self.conf))]:
            res.append([[self.key(x), self.value(v)] for x, v in s.items()])
        return res


def norm(pairs):
    return sorted([json.dumps(p) for p in pairs])


def replay(job):
    """Behaviours of the model run on real instances."""
    kind, seed, cases = job
    bad, n = [], seed
    for c in cases:
        n += 1
        u = Users(kind, n, 2)
        try:
            for step, e in enumerate(c):
                got = u.do(e["o"], n + step)
                if norm(got) != norm(e["res"]):
                    bad.append(("%s store, keys %r, values %s: after %s, %s gives %s, should be %s" % (
                        kind, u.keys, json.dumps(u.values, default=str)[:200], json.dumps([brief(x["o"]) for x in c[:step]]), json.dumps(brief(e["o"])), got, e["res"]), c))
                    break
        finally:
            u.close()
    return bad


def brief(o):
    return "%d.%s(%s)" % (o["i"], o["op"], ",".join(str(x) for x in ([o["k"]] if o["k"] else []) + ([o["v"]] if o["v"] else []) + (list(zip(o["ks"], o["vs"])))))


def history(job):
    kind, n, ops, count = job
    u = Users(kind, n, count)
    try:
        res = [u.do(o, n + i) for i, o in enumerate(ops)]
        try:
            fin = u.final()
        except Exception as exc:
            fin = [[["%s: %s" % (type(exc).__name__, exc), 0]]]
        return {"ops": ops, "res": res, "fin": fin, "kind": kind, "keys": u.keys, "values": json.dumps(u.values, default=str)[:300]}
    finally:
        u.close()


def spread(f, jobs):
    with ProcessPoolExecutor(max_workers=CORES, mp_context=get_context("fork")) as ex:
        return list(ex.map(f, jobs, chunksize=max(1, len(jobs) // (CORES * 8))))


def random_ops(rng, count, length):
    ops = []
    for _ in range(length):
        op = rng.choice(["set"] * 4 + ["get"] * 5 + ["delete"] * 2 + ["contains", "len", "keys", "items", "update", "reopen"] + ["clear"] * (rng.random() < 0.3) + ["vanish"] * (rng.random() < 0.15))
        o = {"op": op, "i": rng.randrange(1, count + 1), "k": 0, "v": 0, "ks": [], "vs": []}
        if op in ("set", "get", "delete", "contains"):
            o["k"] = rng.randrange(1, 4)
        if op == "set":
            o["v"] = rng.randrange(1, 4)
        if op == "update":
            o["ks"] = rng.sample([1, 2, 3], rng.randrange(4))
            o["vs"] = [rng.randrange(1, 4) for _ in o["ks"]]
        ops.append(o)
    return ops


def printable(rec):
    """Strings where the specification has numbers: it cannot compare them."""
    fix = lambda pairs: [[x if isinstance(x, int) else -1 for x in p] for p in pairs]
    return dict(rec, res=[fix(p) for p in rec["res"]], fin=[fix(p) for p in rec["fin"]], raw=json.dumps([rec["res"], rec["fin"]])[:1500])


def C21(ctx):
    rng = ctx.rng
    ctx.assumptions += ["keys longer than a file name are left out", "a value handed in or out is not changed in place by its user",
                        "a key is not deleted and set again within one tick of the clock"]
    depth = 4 if ctx.thorough else 3
    cfg = 'SPECIFICATION Spec\nCONSTANTS Depth=%d Insts={1,2} Keys={1,2} Values={1,2}\nINVARIANTS Refines Fresh Emit\n'
    cases = ctx.tlc("FileStoreMC", cfg % depth).prints
    ctx.extra["histories_from_model"] = len(cases)
    ctx.sample([brief(e["o"]) for e in cases[len(cases) // 2]])
    if not ctx.thorough:        # longer ones: what the model itself allows, without printing
        ctx.tlc("FileStoreMC", (cfg % 4).replace(" Emit", ""))
    jobs = [(kind, rng.randrange(1000), cases[i::CORES * 2]) for i in range(CORES * 2) for kind in (["text", "json"] if ctx.thorough else [rng.choice(["text", "json"])])]
    jobs += [("issuer", 5, rng.sample(cases, 200 if ctx.thorough else 40))]
    for bad in spread(replay, jobs):
        for what, c in bad:
            ctx.violation(what, c)
    ctx.validated += sum(len(j[2]) for j in jobs)
    jobs = []
    for n in range(8000 if ctx.thorough else 1000):
        count = rng.choice([1, 2, 2, 3, 3, 4])
        jobs.append((rng.choice(["text", "json", "json"]), n, random_ops(rng, count, rng.randrange(5, 25)), count))
    recs = spread(history, jobs)
    bad = ctx.judge("FileStoreTrace", [printable(r) for r in recs])
    ctx.validated += len(recs)
    for i, cl in sorted(bad.items()):
        r = recs[i]
        ctx.violation("%s store, keys %r, values %s: %s: %s" % (r["kind"], r["keys"], r["values"], "; ".join(cl),
                      json.dumps([[brief(o), v] for o, v in zip(r["ops"], r["res"])])[:700] + " ends " + json.dumps(r["fin"])[:300]), r)
