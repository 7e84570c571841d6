"""C25: the SQL store is one persistent map shared by its connections."""
import json
import os
import shutil
import sqlite3
import time
import warnings

import sched
from c_filestore import scratch, spread
from c_conc import compress, describe, report
from vlib import Hang, limit

KEYS = [("a", "b", "c"), ("a", "A", "a "), ("https://op.example.com/x?y=z", "https://op.example.com/x", ""), ("o'x", "o\"x", "%"), ("\u00e5", "a\u030a", "a"), ("x" * 80, "x" * 79, "x"), ("l" * 400 + "1", "l" * 400 + "2", "l" * 400),
        ("1", "01", "1.0"), ("_", "%", "__"), ("a\nb", "a\tb", "a b"), ("None", "null", ":k"), ("user;drop table thing", "--", "/*")]
VALUES = [("v1", "v2", "v3"), ("", " ", "\n"), ("{\"a\": 1}", "{}", "[]"), ("x" * 4096, "x" * 4095, "y"), ("\u00e5\u20ac", "a'b\"c", "NULL"), ("1", "01", "1.0"), (":v", "%s", "?"), ("None", "false", "0"), ("y" * 90000 + "1", "y" * 90000 + "2", "y" * 90000)]
BAD = [None, {"a": 1}, ["a"], "\ud800", {1, 2}]


class Users:
    def __init__(self, n, count, many=0):
        from oidcmsg.storage.absqlalchemy import AbstractStorageSQLAlchemy
        from oidcmsg.storage.db_setup import create_database
        self.cls, self.n, self.dir = AbstractStorageSQLAlchemy, n, scratch()
        self.path = os.path.join(self.dir, "store.db")
        self.keys, self.values = KEYS[n % len(KEYS)], VALUES[n // 3 % len(VALUES)]
        self.table = ["thing", "stuff", "thing"][n % 3]
        self.conf = {"url": "sqlite:///%s?timeout=0" % self.path, "params": {"table": self.table}}
        create_database(dict(self.conf))
        self.raw = sqlite3.connect(self.path, timeout=0, isolation_level=None)
        if self.table == "stuff":
            self.raw.execute("CREATE TABLE stuff (id INTEGER PRIMARY KEY, owner VARCHAR(80) NOT NULL, data TEXT NOT NULL)")
        self.stranger = sqlite3.connect(self.path, timeout=0, isolation_level=None)
        self.held = []
        if many:
            self.keys = tuple("key%d" % i for i in range(1, many + 1)) + self.keys
            self.raw.executemany("INSERT INTO %s (owner, data) VALUES (?, ?)" % self.table, [(self.keys[i - 1], self.values[i % 3]) for i in range(1, many + 1)])
        self.inst = {i: self.cls(dict(self.conf)) for i in range(1, count + 1)}

    def close(self):
        for s in self.inst.values():
            for f in (lambda: s.session.remove(), lambda: s.connection.close(), lambda: s.engine.dispose()):
                try:
                    f()
                except Exception:
                    pass
        self.raw.close()
        self.stranger.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def key(self, k):
        return self.keys.index(k) + 1 if k in self.keys else -1

    def value(self, v):
        return self.values.index(v) + 1 if type(v) is str and v in self.values else -1

    def rows(self):
        try:
            c = self.stranger if self.held else self.raw
            return [[self.key(a), self.value(b)] for a, b in c.execute("SELECT owner, data FROM %s ORDER BY id" % self.table).fetchall()]
        except sqlite3.Error as exc:
            return [[-1, -1]]

    def free(self):
        if self.held:
            return True
        try:
            self.raw.execute("BEGIN EXCLUSIVE")
            self.raw.execute("ROLLBACK")
            return True
        except sqlite3.Error:
            return False

    def do(self, o, n):
        a = {"ok": True, "n": 0, "pairs": [], "why": ""}
        try:
            with limit(30):
                self._do(o, n, a)
        except (Exception, Hang) as exc:
            a["ok"] = False
            a["why"] = "%s: %s" % (type(exc).__name__, str(exc)[:150])
            if isinstance(exc, Hang):
                a["n"] = -9
        a["raw"], a["free"] = self.rows(), self.free()
        return a

    def _do(self, o, n, a):
        op = o["op"]
        k = self.keys[o["k"] - 1] if o["k"] else None
        v = self.values[o["v"] - 1] if o["v"] else None
        if o["i"] == 0:
            if op == "row":
                self.raw.execute("INSERT INTO %s (owner, data) VALUES (?, ?)" % self.table, (k, v))
            elif op == "unlock":
                self.stranger.execute("ROLLBACK")
                self.held = []
            else:
                if self.held:
                    self.stranger.execute("ROLLBACK")
                self.stranger.execute({"read": "BEGIN", "write": "BEGIN IMMEDIATE", "exclusive": "BEGIN EXCLUSIVE"}[op])
                self.stranger.execute("SELECT count(*) FROM %s" % self.table).fetchall()
                self.held = [op]
            return
        s = self.inst[o["i"]]
        if op == "set":
            if n % 2:
                s[k] = v
            else:
                s.set(k, v)
        elif op == "setbad":
            x = BAD[n % len(BAD)]
            if n % 2:
                s[k] = x
            else:
                s.set(k, x)
        elif op == "keybad":
            s.set([None, {"a": 1}, "\ud800"][n % 3], self.values[0])
        elif op == "update":
            s.update(k, v)
        elif op == "updatebad":
            s.update(k, BAD[n % len(BAD)])
        elif op == "delete":
            r = s.delete(k)
            a["n"] = r if type(r) is int else -1
        elif op == "get":
            r = s.get(k)
            if r is not None:
                a["pairs"] = [[o["k"], self.value(r)]]
        elif op == "has":
            r = k in s
            a["n"] = {True: 1, False: 0}.get(r, -1)
        elif op == "iter":
            if n % 3 == 0:
                found = [(e.owner, e.data) for e in s]
            elif n % 3 == 1:
                found = [(e.owner, e.data) for e in s()]
            else:
                at = 1 if True else 0
                found = [(e[at], e[at + 1]) for e in json.loads(str(s))]
            a["pairs"] = [[self.key(x), self.value(y)] for x, y in found]
        elif op == "reopen":
            if n % 2:
                s.flush()
            else:
                old = self.inst[o["i"]]
                self.inst[o["i"]] = self.cls(dict(self.conf))
                old.session.remove()
                old.connection.close()
                old.engine.dispose()

    def final(self):
        if self.held:
            self.stranger.execute("ROLLBACK")
            self.held = []
        return [[[self.key(e.owner), self.value(e.data)] for e in s()] for s in list(self.inst.values()) + [self.cls(dict(self.conf))]]


def history(job):
    n, ops, count, many = job
    warnings.simplefilter("ignore")
    u = Users(n, count, many)
    try:
        ans = [u.do(o, n + j) for j, o in enumerate(ops)]
        try:
            with limit(30):
                fin = u.final()
        except (Exception, Hang) as exc:
            fin = [[[-1, -1]]]
        return {"ops": ops, "ans": ans, "fin": fin, "many": many, "n": n, "keys": [x[:40] for x in u.keys[-3:]], "values": [x[:40] for x in u.values]}
    finally:
        u.close()


def brief(o):
    return "%s%s(%s)" % ("%d." % o["i"] if o["i"] else "stranger ", o["op"], ",".join(str(o[x]) for x in ("k", "v") if o[x]))


# ------------------------------------------------------------------ at the same time
def statements(pause):
    """Every statement and every end of a transaction is a step."""
    from sqlalchemy import event
    from sqlalchemy.engine import Engine
    event.listen(Engine, "before_cursor_execute", lambda conn, cur, statement, *a: pause(statement.split()[0], ""))
    event.listen(Engine, "commit", lambda conn: pause("COMMIT", ""))
    event.listen(Engine, "rollback", lambda conn: pause("ROLLBACK", ""))


class Both:
    """Programs of two processes on one database."""

    def __init__(self, n, init):
        self.u = Users(n, 2)
        self.n, self.init = n, init
        self.values = dict(enumerate(["v%d" % i for i in range(10)]))
        for i, v in enumerate(init):
            if v:
                self.u.raw.execute("INSERT INTO %s (owner, data) VALUES (?, ?)" % self.u.table, (self.u.keys[i], self.values[v]))
        self.u.raw.close()
        self.u.stranger.close()

    def name(self, v, bad, what):
        for i, x in self.values.items():
            if x == v:
                return i
        bad.append("%s gives %r" % (what, v))
        return 0

    def do(self, s, o, n, bad):
        k = self.u.keys[o["k"] - 1]
        if o["op"] == "set":
            if n % 2:
                s[k] = self.values[o["v"]]
            else:
                s.set(k, self.values[o["v"]])
            return 0
        if o["op"] == "delete":
            s.delete(k)
            return 0
        if o["op"] == "has":
            return 1 if k in s else 0
        r = s.get(k)
        return 0 if r is None else self.name(r, bad, o)

    def program(self, t, ops):
        res, bad = [], []
        if self.n % 2:
            statements(sched.CURRENT)
        try:
            s = self.u.cls(dict(self.u.conf))
        except Exception as exc:
            return [[], ["opening: %s: %s" % (type(exc).__name__, exc)]]
        if not self.n % 2:
            statements(sched.CURRENT)
        for j, o in enumerate(ops):
            call = time.monotonic_ns()
            try:
                r = self.do(s, o, self.n + j, bad)
            except Exception as exc:
                if "locked" not in str(exc):
                    bad.append("%s: %s: %s" % (o, type(exc).__name__, str(exc)[:200]))
                continue        # refused: it has done nothing
            res.append({"op": o["op"], "k": o["k"], "v": o["v"], "res": r, "call": call, "ret": time.monotonic_ns(), "maybe": False})
        return [res, bad]

    def final(self, bad):
        raw = sqlite3.connect(self.u.path, timeout=0, isolation_level=None)
        try:
            raw.execute("BEGIN EXCLUSIVE")
            raw.execute("ROLLBACK")
        except sqlite3.Error as exc:
            bad.append("the database is left locked: %s" % exc)
        rows = raw.execute("SELECT owner, data FROM %s" % self.u.table).fetchall()
        raw.close()
        if len({a for a, _ in rows}) != len(rows):
            bad.append("more than one entry for a key: %r" % rows)
        out = []
        for s in list(self.u.inst.values()):
            for k in (1, 2):
                out.append({"op": "get", "k": k, "v": 0, "res": self.do(s, {"op": "get", "k": k}, 0, bad), "maybe": False})
        return out


def once(n, init, progs, choose):
    w = Both(n, init)
    try:
        bad, ops = [], []
        with limit(60):
            r = sched.ProcRunner([lambda t=t: w.program(t, progs[t]) for t in range(len(progs))], w.u.dir, choose)
            try:
                r.run()
            except sched.Stuck as exc:
                return {"init": init, "ops": [], "bad": ["operations do not end: %s" % exc], "trace": r.trace[-60:]}, len(r.trace)
            for res in r.results:
                if res is None:
                    bad.append("a program ended abnormally")
                    continue
                ops += res[0]
                bad += res[1]
            fin = w.final(bad)
        return {"init": init, "ops": compress(ops, fin), "bad": bad, "trace": r.trace}, len(r.trace)
    except Hang as exc:
        return {"init": init, "ops": [], "bad": ["operations do not end: %s" % exc], "trace": []}, 0
    finally:
        w.u.close()


def explore(job):
    import random
    n, init, progs, more, seed, until = job
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    recs, total = {}, 0
    for first in (0, 1):
        tries, steps = [()], None
        while tries:
            at = tries.pop(0)
            rec, k = once(n, init, progs, sched.switches(first, at))
            total += 1
            rec.update(programs=progs, mode="SQL", n=n, first=first, at=sorted(at))
            recs.setdefault(json.dumps([rec["ops"], rec["bad"]]), rec)
            if steps is None:
                steps = k
                tries = [(i,) for i in range(1, k)] + [tuple(sorted(rng.sample(range(1, k), min(2, k - 1)))) for _ in range(more)]
            if time.monotonic() > until:
                break
    return list(recs.values()), total


def C25(ctx):
    rng = ctx.rng
    ctx.assumptions += ["SQLite is the database; what its statements and transactions mean is taken as given", "keys and values are texts"]
    cfg = 'SPECIFICATION Spec\nCONSTANTS Depth=%d Insts={1,2} Keys={1,2} Values={1,2}\nINVARIANTS One NoneEmpty %s\n'
    hists = {json.dumps(h): h for h in ctx.tlc("SqlMC", cfg % (3, "Emit")).prints}
    cases = [hists[k] for k in sorted(hists)]
    ctx.extra["histories_from_model"] = len(cases)
    if ctx.thorough:
        ctx.tlc("SqlMC", cfg % (5, ""), timeout=3000, heap="16g")
    else:
        ctx.tlc("SqlMC", cfg % (4, ""))
        cases = rng.sample(cases, min(len(cases), 1500))
    jobs = [(rng.randrange(5000), h, 2, 0) for h in cases]
    kinds = ["set"] * 4 + ["get"] * 4 + ["delete"] * 2 + ["update"] * 2 + ["has", "iter", "iter", "reopen", "setbad", "updatebad", "keybad", "row", "read", "write", "exclusive", "unlock"]
    for _ in range(6000 if ctx.thorough else 700):
        count, ops, locked = rng.choice([1, 2, 3, 4]), [], False
        for _ in range(rng.randrange(5, 25)):
            op = rng.choice(kinds)
            if op == "row" and locked or op == "unlock" and not locked or op in ("read", "write", "exclusive") and (locked or rng.random() < 0.3):
                continue
            o = {"op": op, "i": rng.randrange(1, count + 1), "k": 0, "v": 0}
            if op in ("row", "read", "write", "exclusive", "unlock"):
                o["i"] = 0
                locked = op not in ("row", "unlock") or (locked and op == "row")
            if op in ("set", "get", "delete", "update", "has", "setbad", "updatebad", "row"):
                o["k"] = rng.randrange(1, 4)
            if op in ("set", "update", "row"):
                o["v"] = rng.randrange(1, 4)
            ops.append(o)
        jobs.append((rng.randrange(5000), ops, count, 0))
    for many in (60, 150, 400) if ctx.thorough else (150,):
        for _ in range(3):
            o = lambda op, k=0, v=0: {"op": op, "i": rng.randrange(1, 3), "k": k, "v": v}
            k = rng.randrange(1, many)
            jobs.append((rng.randrange(5000), [o("iter"), o("set", k, 2), o("delete", many), o("update", many + 2, 1), o("get", many - 1), o("set", many + 1, 1), o("iter"), o("iter")], 2, many))
    recs = spread(history, jobs)
    ctx.validated += len(recs)
    ctx.sample([brief(o) for o in recs[-1]["ops"]])
    fields = ("ok", "n", "pairs", "raw", "free")
    bad = ctx.judge("SqlTrace", [{"ops": r["ops"], "ans": [{x: a[x] for x in fields} for a in r["ans"]], "fin": r["fin"], "many": r["many"]} for r in recs])
    for i, cl in sorted(bad.items()):
        r = recs[i]
        ctx.violation("keys %r, values %r: %s: %s ends %s" % (r["keys"], r["values"], "; ".join(cl), json.dumps([[brief(o), a["why"] or [a["n"], a["pairs"]], a["raw"], a["free"]] for o, a in zip(r["ops"], r["ans"])])[:1200],
                                                        json.dumps(r["fin"])[:200]), r)
    # two at the same time
    steps = 'SPECIFICATION Spec\nCONSTANTS Procs={1,2} Keys={%s} Programs <- AllPrograms\nINVARIANTS One Atomic Free %s\n'
    progs = ctx.tlc("SqlSteps", steps % ("1", "Emit")).prints
    if ctx.thorough:
        progs = ctx.tlc("SqlSteps", steps % ("1,2", "Emit")).prints
        progs = rng.sample(progs, 3000)
    else:
        progs = rng.sample(progs, 60)
    until = time.monotonic() + (1200 if ctx.thorough else 60)
    jobs = []
    for p in progs:
        init = (p["init"] + [0])[:2]
        jobs.append((rng.randrange(1000), init, p["prog"], 20 if ctx.thorough else 3, rng.random(), until))
    recs, total = [], 0
    for out, k in spread(explore, jobs):
        recs += out
        total += k
    ctx.validated += total
    ctx.extra["schedules"] = total
    ctx.sample(describe(recs[len(recs) // 2])[:400])
    report(ctx, recs)
