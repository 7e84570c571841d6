"""C22: users of one directory that work at the same time. C23: writes that fail or are cut off."""
import json
import os
import random
import shutil
import time

import sched
from c_filestore import scratch, spread
from vlib import Hang, limit

KEYS = [("a", "b"), ("a b", "a+b"), ("x.lock", "x"), ("..", "."), ("https://op.example.com/x?y", "https%3A%2F%2Fop.example.com%2Fx%3Fy"), ("", "%"), ("\u00e5", "a/b")]
SIZES = (3, 40, 7, 5000, 2, 11, 300, 1, 20)
OLD = 9         # what was stored, and seen by everybody, before the value the run starts with


class World:
    """A directory, what is in it at the start, and instances that have seen more or less of it."""

    def __init__(self, n, init, many=2):
        from oidcmsg.storage.abfile import AbstractFileSystem
        self.cls, self.n, self.dir = AbstractFileSystem, n, scratch()
        self.keys = KEYS[n % len(KEYS)]
        self.conf = {"fdir": os.path.join(self.dir, "db")}
        self.json = n % 2
        if self.json:
            self.conf["value_conv"] = "oidcmsg.storage.converter.JSON"
        self.values = {i: self.make(i) for i in range(1, 10)}
        self.init = list(init) + [0] * (len(self.keys) - len(init))
        how = n % 3
        self.inst = [None] * many
        first = self.cls(dict(self.conf))
        if how == 0:        # everybody knows something that is no longer true
            for i, k in enumerate(self.keys):
                if n % 5 or self.init[i]:
                    first[k] = self.values[OLD]
        if how != 2:
            self.inst = [self.cls(dict(self.conf)) for _ in range(many)]
        for i, k in enumerate(self.keys):
            if self.init[i]:
                first[k] = self.values[self.init[i]]
            elif k in first:
                del first[k]
        if how == 2 and n % 4 and not any(self.init):
            shutil.rmtree(self.conf["fdir"])        # the first of them creates it
        if how == 1 and n % 2:
            for s in self.inst:
                list(s.items())
        # how == 2: opened as part of the run

    def make(self, i):
        t = str(i) * SIZES[i % len(SIZES)]
        return {"n": i, "pad": t} if self.json else t

    def name(self, v):
        for i, w in self.values.items():
            if v == w and type(v) is type(w):
                return i
        return None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def program(self, t, ops, at=lambda: None):
        """-> [operations for the specification, complaints]"""
        res, bad = [], []
        try:
            if self.inst[t] is None:
                self.inst[t] = self.cls(dict(self.conf))
        except Exception as exc:
            return [[], ["opening: %s: %s" % (type(exc).__name__, exc)]]
        for j, o in enumerate(ops):
            at()
            call = time.monotonic_ns()
            entries = []
            try:
                entries = self.do(self.inst[t], o, self.n + j + t, bad)
            except sched.Cut:
                raise
            except Exception as exc:
                bad.append("%s: %s: %s" % (o, type(exc).__name__, str(exc)[:200]))
            ret = time.monotonic_ns()
            res += [dict(e, call=call, ret=ret, maybe=False) for e in entries]
        return [res, bad]

    def do(self, s, o, n, bad):
        op, ki, v = o["op"], o["k"], o["v"]
        k = self.keys[ki - 1] if ki else None
        one = lambda op, res=0, v=0, k=ki: {"op": op, "k": k, "v": v, "res": res}
        if op == "set":
            if n % 4 == 3:
                s.update({k: self.values[v]})
            else:
                s[k] = self.values[v]
            return [one("set", v=v)]
        if op == "delete":
            del s[k]
            return [one("delete")]
        if op == "get":
            if n % 2:
                try:
                    got = s[k]
                except KeyError:
                    return [one("get")]
            else:
                nothing = object()
                got = s.get(k, nothing)
                if got is nothing:
                    return [one("get")]
            name = self.name(got)
            if name is None:
                bad.append("%s gives %r" % (o, got if len(repr(got)) < 80 else repr(got)[:80]))
                return []
            return [one("get", name)]
        if op == "has":
            return [one("has", 1 if k in s else 0)]
        if op == "clear":
            s.clear()
            return [one("delete", k=i + 1) for i in range(len(self.keys))]
        # a listing says something about every key
        if op == "items":
            found = list(s.items()) if n % 2 else list(iter(s))
        else:
            found = [(x, None) for x in (list(s.keys()) if n % 2 else s())]
        names = [x for x, _ in found]
        if len(set(names)) != len(names) or not set(names) <= set(self.keys):
            bad.append("%s lists %r" % (o, names))
            return []
        d = dict(found)
        res = []
        for i, x in enumerate(self.keys, 1):
            if op == "keys":
                res.append(one("has", 1 if x in d else 0, k=i))
            elif x not in d:
                res.append(one("get", 0, k=i))
            elif self.name(d[x]) is None:
                bad.append("%s lists %r" % (o, repr(d[x])[:80]))
            else:
                res.append(one("get", self.name(d[x]), k=i))
        return res

    def final(self, bad, who=()):
        """Everything is quiet: what everybody reads now."""
        res = []
        for name, s in [("instance %d" % (i + 1), s) for i, s in enumerate(self.inst) if i in who or not who] + [("a new instance", None), ("another new instance", None)]:
            try:
                if s is None:
                    s = self.cls(dict(self.conf))
                for o in [{"op": "get", "k": i + 1, "v": 0} for i in range(len(self.keys))] + [{"op": "items", "k": 0, "v": 0}]:
                    res += [dict(e, call=0, ret=0, maybe=False) for e in self.do(s, o, self.n, bad)]
            except Exception as exc:
                bad.append("%s at the end: %s: %s" % (name, type(exc).__name__, str(exc)[:200]))
        return res


def compress(ops, final):
    """Moments as small numbers."""
    ts = sorted({o[x] for o in ops for x in ("call", "ret")})
    num = {t: i + 1 for i, t in enumerate(ts)}
    return [dict(o, call=num[o["call"]], ret=num[o["ret"]]) for o in ops] + [dict(o, call=len(ts) + 1 + i, ret=len(ts) + 1 + i) for i, o in enumerate(final)]


def once(n, init, progs, choose, mode):
    """One run of the programs under one schedule -> record, number of steps"""
    w = World(n, init, len(progs))
    try:
        bad, ops = [], []
        with limit(60):
            if mode == "processes":
                r = sched.ProcRunner([lambda t=t: w.program(t, progs[t]) for t in range(len(progs))], w.dir, choose)
            else:
                r = sched.Runner([lambda t=t: w.program(t, progs[t]) for t in range(len(progs))], w.dir, choose)
            try:
                r.run()
            except sched.Stuck as exc:
                return {"init": w.init, "ops": [], "bad": ["operations do not end: %s" % exc], "trace": r.trace[-60:]}, len(r.trace)
            for res in r.results:
                if res is None:
                    bad.append("a program ended abnormally")
                    continue
                ops += res[0]
                bad += res[1]
            if mode == "processes":     # what they know died with them: those in this process know less
                w.inst = [i for i in w.inst if i is not None] or [w.cls(dict(w.conf))]
            fin = w.final(bad)
        return {"init": w.init, "ops": compress(ops, fin), "bad": bad, "trace": r.trace}, len(r.trace)
    except Hang as exc:
        return {"init": w.init, "ops": [], "bad": ["operations do not end: %s" % exc], "trace": []}, 0
    finally:
        w.close()


def explore(job):
    """All schedules with one change of turn, and some with more."""
    n, init, progs, mode, more, every, seed, until = job
    rng = random.Random(seed)
    out, total = {}, 0
    stuck, until = 0, min(until, time.monotonic() + 20)

    def keep(rec, first, at):
        rec.update(programs=progs, mode=mode, n=n, first=first, at=sorted(at))
        # the same history need not be judged twice
        sig = json.dumps([rec["init"], rec["ops"], rec["bad"]])
        out.setdefault(sig, rec)
    for first in range(len(progs)):
        rec, steps = once(n, init, progs, sched.switches(first, ()), mode)
        keep(rec, first, ())
        total += 1
        tries = [(i,) for i in range(1, steps, every)]
        tries += [tuple(sorted(rng.sample(range(1, steps), min(steps - 1, rng.choice([2, 2, 3, 4]))))) for _ in range(more)]
        for at in tries:
            rec, _ = once(n, init, progs, sched.switches(first, at), mode)
            keep(rec, first, at)
            total += 1
            stuck += bool(rec["bad"])
            if stuck > 3 or time.monotonic() > until:
                return list(out.values()), total
    return list(out.values()), total


def brief(o):
    return "%s(%s)" % (o["op"], ",".join(str(o[x]) for x in ("k", "v") if o[x]))


def describe(r):
    tr = [("%d" % (x[0] + 1)) + ":" + x[1] for x in r["trace"]]
    return "%s, start %s, programs %s, schedule %s: %s" % (r["mode"], r["init"], [[brief(o) for o in p] for p in r["programs"]], " ".join(tr)[:500],
                                                          r["bad"] or [[brief(o), o["res"], o["call"], o["ret"]] for o in r["ops"]])


def report(ctx, recs):
    bad = ctx.judge("ConcTrace", [{"init": r["init"], "ops": r["ops"], "bad": ["-"] * len(r["bad"])} for r in recs], heap="3g")
    for i, cl in sorted(bad.items()):
        ctx.violation("%s: %s" % ("; ".join(cl), describe(recs[i])[:1500]), recs[i])


STEPS = 'SPECIFICATION Spec\nCONSTANTS Procs={1,2} Keys={1,2} WriteKeys={%s} First=%d Second=%d Crashes=%d Programs <- AllPrograms\nINVARIANTS Atomic Honest %s\n'


def C22(ctx):
    rng = ctx.rng
    ctx.assumptions += ["a file-system call is one step; taking or giving back a file lock is one step", "a listing is judged key by key", "the clock of the file system goes on"]
    # the design: every interleaving of its file-system steps
    if ctx.thorough:
        ctx.tlc("FileStepsMC", STEPS % ("1", 2, 2, 0, "") + "PROPERTY Terminates\n")
        ctx.tlc("FileStepsMC", STEPS % ("1,2", 2, 2, 0, ""), timeout=3000, heap="16g")
    cases = ctx.tlc("FileStepsMC", STEPS % ("1", 2, 1, 0, "Emit") + "PROPERTY Terminates\n").prints
    ctx.extra["programs_from_model"] = len(cases)
    jobs, until = [], time.monotonic() + (2000 if ctx.thorough else 150)
    for i, c in enumerate(cases):
        for mode in ("threads", "processes") if ctx.thorough else [("threads", "processes")[(i + ctx.seed) % 2]]:
            jobs.append((rng.randrange(1000), c["init"], c["prog"], mode, 40 if ctx.thorough else 6, 1 if ctx.thorough else 2, rng.random(), until))
    # longer and more of them
    kinds = ["set", "set", "get", "get", "items", "keys", "has", "delete", "clear"]
    for i in range(600 if ctx.thorough else 60):
        v = iter(range(2, 9))
        progs = []
        for _ in range(rng.choice([2, 2, 3])):
            p = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                op = rng.choice(kinds)
                p.append({"op": op, "k": rng.choice([1, 1, 2]) if op in ("set", "get", "has", "delete") else 0, "v": 0})
                if op == "set":
                    p[-1]["v"] = next(v, 8)
            progs.append(p)
        jobs.append((rng.randrange(1000), rng.choice([[1, 1], [1, 0], [0, 0]]), progs, rng.choice(["threads", "processes"]), 60 if ctx.thorough else 12, 1 if ctx.thorough else 4, rng.random(), until))
    recs, total = [], 0
    for out, k in spread(explore, jobs):
        recs += out
        total += k
    ctx.validated += total
    ctx.extra["schedules"] = total
    ctx.extra["histories"] = len(recs)
    ctx.sample(describe(recs[len(recs) // 2])[:400])
    report(ctx, recs)


# ---------------------------------------------------------------- C23
class Breaks:
    """Values that cannot be stored."""
    text = [5, None, b"bytes", ["a"], "\ud800", object()]
    json = [{1, 2}, object(), {"a": object()}, {(1, 2): 3}, b"x", "\ud800" * 2 and {"a": b"b"}]


def blow(kind):
    import errno
    return {"nospace": OSError(errno.ENOSPC, "No space left on device"), "denied": PermissionError(errno.EACCES, "Permission denied"), "io": OSError(errno.EIO, "Input/output error"),
            "gone": FileNotFoundError(errno.ENOENT, "No such file or directory"), "interrupt": sched.Cut("interrupted"), "memory": MemoryError()}[kind]


def aim(w, o):
    """What the operation is meant to do, as entries that may or may not take effect."""
    op = o["op"]
    if op == "set":
        return [{"op": "set", "k": o["k"], "v": o["v"], "res": 0}]
    if op == "delete":
        return [{"op": "delete", "k": o["k"], "v": 0, "res": 0}]
    if op == "clear":
        return [{"op": "delete", "k": i + 1, "v": 0, "res": 0} for i in range(len(w.keys))]
    return []


def cut(job):
    """One operation, cut off or failing at its nth step; then what everybody finds. None: it has fewer steps."""
    n, init, o, how, at, lasting = job
    w = World(n, init, 2)
    try:
        bad, ops, count, failed = [], [], [0], []

        def order(what, path):
            count[0] += 1
            hit = count[0] == at or (lasting and count[0] >= at)
            return hit and what not in ("sleep", "release")

        with limit(60):
            if how == "die":
                def ask(t, step, what):
                    return "die" if step == at else None
                r = sched.ProcRunner([lambda: w.program(0, [o])], w.dir, lambda s, ready, cur: 0, order=ask)
                r.run()
                trace = [x[1] for x in r.trace]
                if r.results[0] is None:
                    failed.append("it died")
                elif at < len(r.trace):
                    bad.append("the program ended abnormally")
                if at >= len(r.trace):
                    return None
                bad += [] if r.results[0] is None else r.results[0][1]
                w.inst[0] = None
                w.inst = [s for s in w.inst if s is not None]
            else:
                trace = []

                def hook(what, path):
                    trace.append(what)
                    if order(what, path):
                        failed.append("%s at %s %s" % (how, what, os.path.basename(path)))
                        raise blow(how)
                if w.inst[0] is None:
                    w.inst = [w.cls(dict(w.conf)) for _ in w.inst]
                complaints = []
                try:
                    with sched.Hooks(hook, w.dir, lambda s: None):
                        got = w.do(w.inst[0], o, n, complaints)
                except (Exception, sched.Cut) as exc:
                    got = None
                    if not failed:
                        bad.append("%s: %s" % (type(exc).__name__, exc))
                if not failed and not bad:
                    return None if count[0] < at else "skip"
                if got is not None and o["op"] == "set":
                    failed = []         # it says that it has stored the value
            ops = [dict(e, call=1, ret=2, maybe=bool(failed)) for e in aim(w, o)]
            fin = w.final(bad)
            # and it can be used as before
            again = {"op": "set", "k": 1, "v": 8}
            other = {"op": "delete", "k": 2, "v": 0}
            for s, x in ((w.cls(dict(w.conf)), again), ((w.inst or [w.cls(dict(w.conf))])[-1], other)):
                try:
                    fin += [dict(e, call=0, ret=0, maybe=False) for e in w.do(s, x, 0, bad)]
                except Exception as exc:
                    bad.append("afterwards %s: %s: %s" % (brief(x), type(exc).__name__, exc))
            fin += w.final(bad)
        return {"init": w.init, "ops": [dict(e) for e in ops] + [dict(e, call=3 + i, ret=3 + i) for i, e in enumerate(fin)], "bad": bad, "trace": [[0, x] for x in trace],
                "programs": [[o]], "mode": "%s%s at step %d, keys %r, %s" % (how, " and from then on" if lasting else "", at, w.keys, "json" if w.json else "text"), "n": n}
    except Hang as exc:
        return {"init": w.init, "ops": [], "bad": ["no end: %s" % exc], "trace": [], "programs": [[o]], "mode": how, "n": n}
    except sched.Stuck as exc:
        return {"init": w.init, "ops": [], "bad": ["no end: %s" % exc], "trace": [], "programs": [[o]], "mode": how, "n": n}
    finally:
        w.close()


def everywhere(job):
    n, init, o, how, lasting = job
    recs, total = {}, 0
    for at in range(1, 200):
        r = cut((n, init, o, how, at, lasting))
        if r is None:
            break
        if r == "skip":
            continue
        total += 1
        recs.setdefault(json.dumps([r["ops"], r["bad"]]), r)
    return list(recs.values()), total


def unstorable(job):
    """A value that cannot be stored, alone or among others."""
    n, init, which, way = job
    w = World(n, init, 2)
    try:
        bad = []
        w.inst = [s or w.cls(dict(w.conf)) for s in w.inst]
        v = (Breaks.json if w.json else Breaks.text)[which]
        s, failed = w.inst[0], []
        good = w.values[7]
        k = w.keys
        with limit(60):
            try:
                if way == "set":
                    s[k[0]] = v
                elif way == "update":
                    s.update({k[0]: v})
                elif way == "update-after":
                    s.update({k[1]: good, k[0]: v})
                else:
                    s.update({k[0]: v, k[1]: good})
                got = True
            except Exception:
                got = False
            ops = []
            if way in ("update-after", "update-before"):
                ops.append({"op": "set", "k": 2, "v": 7, "res": 0, "call": 1, "ret": 2, "maybe": not got})
            if got:
                # it was taken: then it is a value like any other
                w.values = dict(w.values)
                w.values[6] = v
                ops.append({"op": "set", "k": 1, "v": 6, "res": 0, "call": 1, "ret": 2, "maybe": False})
            fin = w.final(bad)
            x = {"op": "set", "k": 1, "v": 8}
            try:
                fin += [dict(e, call=0, ret=0, maybe=False) for e in w.do(w.inst[0], x, 0, bad)]
            except Exception as exc:
                bad.append("afterwards %s: %s: %s" % (brief(x), type(exc).__name__, exc))
            fin += w.final(bad)
        return {"init": w.init, "ops": ops + [dict(e, call=3 + i, ret=3 + i) for i, e in enumerate(fin)], "bad": bad, "trace": [], "programs": [[{"op": way, "k": 1, "v": 0}]],
                "mode": "storing %r by %s, keys %r, %s" % (v, way, w.keys, "json" if w.json else "text"), "n": n}
    except Hang as exc:
        return {"init": w.init, "ops": [], "bad": ["no end: %s" % exc], "trace": [], "programs": [], "mode": "storing", "n": n}
    finally:
        w.close()


FOREIGN = {
    "a directory": lambda d: (os.mkdir(os.path.join(d, "sub")), open(os.path.join(d, "sub", "f"), "w").close()),
    "not UTF-8": lambda d: put(d, "bin", b"\xff\xfe\x00\x80"),
    "an empty file": lambda d: put(d, "empty", b""),
    "half of a value": lambda d: put(d, "half", b'{"n": 1, "pad": "11'),
    "a dangling link": lambda d: os.symlink("/nonexistent/x", os.path.join(d, "link")),
    "a link to a directory": lambda d: os.symlink(".", os.path.join(d, "dirlink")),
    "left-over lock": lambda d: put(d, "gone.lock", b""),
    "left-over temporary file": lambda d: put(d, "0123456789abcdef0123456789abcdef.lock", b"half"),
    "an odd name": lambda d: put(d, "%zz%", b"{}"),
    "a name that is not UTF-8": lambda d: put(d, b"\xff\xfe", b"{}"),
    "a pipe": lambda d: os.mkfifo(os.path.join(d, "fifo")),
    "hidden": lambda d: put(d, ".hidden", b"{"),
    "a socket": lambda d: sock(d),
}


def put(d, name, data):
    d = os.fsencode(d) if isinstance(name, bytes) else d
    with open(os.path.join(d, name), "wb") as fp:
        fp.write(data)


def sock(d):
    import socket
    s = socket.socket(socket.AF_UNIX)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        s.bind("sock")
    finally:
        os.chdir(cwd)
        s.close()


def foreign(job):
    """Other things in the directory, before or while it is in use."""
    n, init, names, when = job
    w = World(n, init, 2)
    try:
        bad, fin = [], []
        with limit(60):
            d = w.conf["fdir"]
            if when == "later":
                w.inst = [s or w.cls(dict(w.conf)) for s in w.inst]
            else:
                w.inst = []
            for x in names:
                FOREIGN[x](d)
            entries = []

            def look(who, s):
                """Lists and reads the readable entries."""
                res = []
                for i, k in enumerate(w.keys):
                    res += w.do(s, {"op": "get", "k": i + 1, "v": 0}, n, bad)
                    res += w.do(s, {"op": "has", "k": i + 1, "v": 0}, n, bad)
                # all that is ours is in the listings; of the rest only what can be read
                items, ks = list(s.items()), list(s.keys())
                mine = [(k, v) for k, v in items if k in w.keys]
                if len({k for k, _ in items}) != len(items) or {k for k, _ in items} != set(ks):
                    bad.append("%s: items %r and keys %r" % (who, [k for k, _ in items], ks))
                for i, k in enumerate(w.keys, 1):
                    v = [b for a, b in mine if a == k]
                    name = w.name(v[0]) if v else 0
                    if name is None:
                        bad.append("%s: %r is listed as %r" % (who, k, v[0]))
                    else:
                        res.append({"op": "get", "k": i, "v": 0, "res": name})
                # whatever is listed can be read, as far as its name can be one that the store gave
                for k, v in items:
                    if k not in w.keys and k not in ("empty", "half", ".hidden", "bin"):
                        continue
                    try:
                        if s[k] != v:
                            bad.append("%s: %r is listed as %r and read as %r" % (who, k, v, s[k]))
                    except Exception as exc:
                        bad.append("%s: %r is listed but not readable: %s" % (who, k, exc))
                return res
            step = "opening"
            try:
                for name, s in [("an older instance", s) for s in w.inst] + [("a new instance", None)]:
                    s = s or w.cls(dict(w.conf))
                    fin += look(name, s)
                step = "storing"
                s[w.keys[0]] = w.values[6]
                fin.append({"op": "set", "k": 1, "v": 6, "res": 0})
                fin += look("the one that stored", s)
                step = "deleting"
                del s[w.keys[1]]
                fin.append({"op": "delete", "k": 2, "v": 0, "res": 0})
                for x in w.inst + [w.cls(dict(w.conf))]:
                    fin += look("any", x)
                # what is in the way can be replaced
                step = "replacing"
                for x in names:
                    k = {"not UTF-8": "bin", "an empty file": "empty", "half of a value": "half", "hidden": ".hidden"}.get(x)
                    if k and k not in w.keys:
                        s[k] = w.values[5]
                        for y in w.inst + [w.cls(dict(w.conf))]:
                            if y[k] != w.values[5]:
                                bad.append("%r reads %r after it has been stored" % (k, y[k]))
            except Exception as exc:
                bad.append("%s: %s: %s" % (step, type(exc).__name__, str(exc)[:200]))
        return {"init": w.init, "ops": [dict(e, call=1 + i, ret=1 + i, maybe=False) for i, e in enumerate(fin)], "bad": bad, "trace": [], "programs": [],
                "mode": "%s in the directory %s, keys %r, %s" % (" and ".join(names), when, w.keys, "json" if w.json else "text"), "n": n}
    except Hang as exc:
        return {"init": w.init, "ops": [], "bad": ["no end: %s" % exc], "trace": [], "programs": [], "mode": "foreign %s" % names, "n": n}
    finally:
        w.close()


def C23(ctx):
    rng = ctx.rng
    ctx.assumptions += ["a crash loses the process, not what the system has already been told to write", "a call that fails has had no effect of its own", "keys longer than a file name are left out"]
    # the design: either process can die at any of its steps
    cases = ctx.tlc("FileStepsMC", STEPS % ("1", 2, 1, 1, "") + "PROPERTY Terminates\n")
    if ctx.thorough:
        ctx.tlc("FileStepsMC", STEPS % ("1", 2, 2, 1, ""), timeout=3000, heap="16g")
        ctx.tlc("FileStepsMC", STEPS % ("1,2", 2, 1, 2, ""), timeout=3000, heap="16g")
    recs, total = [], 0
    ops = [{"op": "set", "k": 1, "v": 4}, {"op": "set", "k": 1, "v": 2}, {"op": "delete", "k": 1, "v": 0}, {"op": "clear", "k": 0, "v": 0}, {"op": "get", "k": 1, "v": 0}, {"op": "items", "k": 0, "v": 0}]
    jobs = []
    for init in ([1, 1], [0, 1], [1, 0], [3, 7]):
        for o in ops:
            for how in ("die", "nospace", "denied", "io", "gone", "interrupt", "memory"):
                for lasting in ((False,) if how in ("die", "interrupt") else (False, True)):
                    for n in range(42 if ctx.thorough else 2):
                        jobs.append((rng.randrange(2000), init, o, how, lasting))
    for out, k in spread(everywhere, jobs):
        recs += out
        total += k
    ctx.extra["crash_and_fault_points"] = total
    jobs = [(rng.randrange(1000) // 2 * 2 + js, init, which, way) for which in range(6) for js in (0, 1) for way in ("set", "update", "update-after", "update-before")
            for init in ([1, 1], [0, 1], [1, 0], [0, 0]) for _ in range(10 if ctx.thorough else 1)]
    recs += spread(unstorable, jobs)
    total += len(jobs)
    names = sorted(FOREIGN)
    jobs = [(rng.randrange(1000), init, [x], when) for x in names for when in ("before", "later") for init in ([1, 1], [0, 1], [1, 0]) for _ in range(10 if ctx.thorough else 2)]
    jobs += [(rng.randrange(1000), rng.choice([[1, 1], [0, 1], [1, 0]]), rng.sample(names, rng.randrange(2, 6)), rng.choice(["before", "later"])) for _ in range(600 if ctx.thorough else 100)]
    recs += spread(foreign, jobs)
    total += len(jobs)
    ctx.validated += total
    ctx.sample(describe(recs[len(recs) // 3])[:400])
    report(ctx, recs)
