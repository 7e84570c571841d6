"""Runs programs of the code under test step by step: every file-system call is a point where another
program may go on instead, or where a fault can be put."""
import builtins
import io
import os
import queue
import threading
import time

REAL = {"stat": os.stat, "lstat": os.lstat, "unlink": os.unlink, "remove": os.remove, "replace": os.replace, "rename": os.rename, "utime": os.utime, "listdir": os.listdir,
        "scandir": os.scandir, "mkdir": os.mkdir, "open": os.open, "rmdir": os.rmdir, "link": os.link, "symlink": os.symlink, "fsync": os.fsync, "truncate": os.truncate, "ftruncate": os.ftruncate,
        "write": os.write, "read": os.read, "access": os.access, "chmod": os.chmod}
OPEN, SLEEP = builtins.open, time.sleep


class File:
    """A file whose reads, writes and closing are steps."""

    def __init__(self, fp, hook, name, mode):
        self.__dict__.update(_fp=fp, _hook=hook, _name=name, _mode=mode)

    def write(self, data):
        # half of it may get there
        if len(data) > 1:
            h = len(data) // 2
            self._hook("write-1", self._name)
            self._fp.write(data[:h])
            self._fp.flush()
            self._hook("write-2", self._name)
            self._fp.write(data[h:])
        else:
            self._hook("write", self._name)
            self._fp.write(data)
        self._fp.flush()
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def read(self, *a):
        self._hook("read", self._name)
        return self._fp.read(*a)

    def readline(self, *a):
        self._hook("read", self._name)
        return self._fp.readline(*a)

    def readlines(self, *a):
        self._hook("read", self._name)
        return self._fp.readlines(*a)

    def __iter__(self):
        self._hook("read", self._name)
        return iter(self._fp)

    def close(self):
        if not self._fp.closed:
            self._hook("close", self._name)
        self._fp.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        return getattr(self._fp, n)


class Hooks:
    """While active, hook(step, path) is called before every file-system call of the current thread below `root`,
    unless the call comes from inside a file lock (its acquisition and release are one step each)."""

    def __init__(self, hook, root, sleep=None):
        self.hook, self.root, self.sleep = hook, os.path.realpath(root), sleep
        self.local = threading.local()

    def active(self, path):
        if getattr(self.local, "quiet", 0):
            return False
        try:
            p = os.fspath(path)
        except TypeError:
            return isinstance(path, int)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.abspath(p).startswith(self.root)

    def step(self, what, path):
        if self.active(path):
            self.hook(what, str(path))

    def __enter__(self):
        import filelock
        self.lockcls = [c for c in (getattr(filelock, "BaseFileLock", None),) if c]
        self.saved = [(c, n, getattr(c, n)) for c in self.lockcls for n in ("acquire", "release")]
        me = self

        def wrap(name):
            real = REAL[name]

            def call(path, *a, **k):
                me.step(name, path)
                return real(path, *a, **k)
            return call

        def lock(name, real):
            def call(self, *a, **k):
                if getattr(me.local, "quiet", 0):
                    return real(self, *a, **k)
                me.hook(name, str(self.lock_file))
                me.local.quiet = 1
                try:
                    return real(self, *a, **k)
                finally:
                    me.local.quiet = 0
            return call

        def opener(name, mode="r", *a, **k):
            if isinstance(name, int) or not me.active(name):
                return OPEN(name, mode, *a, **k)
            me.hook("open-" + mode, str(name))
            return File(OPEN(name, mode, *a, **k), lambda w, p: me.step(w, p), str(name), mode)

        for n in REAL:
            setattr(os, n, wrap(n))
        builtins.open = io.open = opener
        for c, n, real in self.saved:
            setattr(c, n, lock(n, real))
        if self.sleep:
            time.sleep = self.sleep
        return self

    def __exit__(self, *a):
        for n, f in REAL.items():
            setattr(os, n, f)
        builtins.open = io.open = OPEN
        time.sleep = SLEEP
        for c, n, real in self.saved:
            setattr(c, n, real)


CURRENT = None      # in a process of a ProcRunner: makes the caller a step of its own


class Stuck(Exception):
    pass


class Cut(BaseException):
    """An interruption from outside."""


class Runner:
    """Runs programs (callables) in threads, one at a time; choose(step, ready) says who goes on."""

    def __init__(self, programs, root, choose, limit=3000, patience=0.3):
        self.programs, self.root, self.choose, self.limit, self.patience = programs, root, choose, limit, patience
        self.me = threading.local()
        self.trace = []

    def hook(self, what, path):
        t = getattr(self.me, "n", None)
        if t is not None:
            self.pause(t, what, path)

    def pause(self, t, what, path):
        self.at[t] = (what, os.path.basename(path))
        self.back.put(t)
        self.go[t].acquire()
        if self.dead:
            raise SystemExit

    def hear(self, timeout, busy):
        try:
            busy.discard(self.back.get(timeout > 0, timeout or None))
        except queue.Empty:
            return False
        return True

    def sleep(self, s):
        t = getattr(self.me, "n", None)
        if t is None:
            return SLEEP(s)
        self.waiting.add(t)
        self.pause(t, "sleep", "")

    def body(self, t):
        self.me.n = t
        self.go[t].acquire()
        try:
            if not self.dead:
                self.results[t] = self.programs[t]()
        except SystemExit:
            pass
        finally:
            self.done.add(t)
            self.me.n = None
            self.back.put(t)

    def run(self):
        k = len(self.programs)
        self.results = [None] * k
        self.go = [threading.Semaphore(0) for _ in range(k)]
        self.back = queue.SimpleQueue()
        self.at, self.done, self.waiting, self.dead = {}, set(), set(), False
        th = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(k)]
        with Hooks(self.hook, self.root, self.sleep):
            for t in th:
                t.start()
            steps, cur, busy = 0, None, set()
            while len(self.done) < k:
                ready = [t for t in range(k) if t not in self.done and t not in busy]
                if not ready:
                    # somebody holds on to something that is not a file: give it time
                    if not self.hear(self.patience * 30, busy):
                        raise Stuck("nobody goes on")
                    continue
                free = [t for t in ready if t not in self.waiting]
                if free:
                    cur = self.choose(steps, free, cur)
                else:           # all are waiting: each tries again
                    cur = ready[steps % len(ready)]
                    if steps > 200:
                        SLEEP(0.001)
                self.waiting.discard(cur)
                self.trace.append((cur,) + self.at.get(cur, ("start", "")))
                steps += 1
                if steps > self.limit:
                    self.dead = True
                    for t in range(k):
                        self.go[t].release()
                    raise Stuck("no end after %d steps" % steps)
                self.go[cur].release()
                busy.add(cur)           # until it is heard of again
                while cur in busy and self.hear(self.patience, busy):
                    pass
                while busy and self.hear(0, busy):
                    pass
        for t in th:
            t.join(5)
        return self.trace


class ProcRunner:
    """The same with a process for every program. A program gets `hook` results as its orders: go on, fail with an
    exception, or die on the spot. results[t]: what it returned, None when it died."""

    def __init__(self, programs, root, choose, limit=3000, patience=0.3, order=None):
        self.programs, self.root, self.choose, self.limit, self.patience, self.order = programs, root, choose, limit, patience, order
        self.trace = []

    def child(self, t, conn):
        def pause(what, path):
            conn.send(("at", what, os.path.basename(path)))
            o = conn.recv()
            if o == "die":
                os._exit(3)
            if o is not None:
                raise o

        def sleep(s):
            pause("sleep", "")

        global CURRENT
        CURRENT = pause
        code = 1
        try:
            conn.recv()
            with Hooks(pause, self.root, sleep):
                res = self.programs[t]()
            conn.send(("done", res))
            code = 0
        finally:
            os._exit(code)

    def run(self):
        from multiprocessing import Pipe
        from multiprocessing.connection import wait
        import signal
        k = len(self.programs)
        self.results = [None] * k
        conns, pids = [], []
        try:
            for t in range(k):
                a, b = Pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        a.close()
                        for c in conns:
                            c.close()
                        signal.setitimer(signal.ITIMER_REAL, 0)
                        self.child(t, b)
                    finally:
                        os._exit(1)
                b.close()
                conns.append(a)
                pids.append(pid)
            at, done, waiting, busy = {}, set(), set(), set()

            def hear(t):
                try:
                    m = conns[t].recv()
                except EOFError:
                    done.add(t)
                    return
                if m[0] == "done":
                    self.results[t] = m[1]
                    done.add(t)
                else:
                    at[t] = m[1:]
                    if m[1] == "sleep":
                        waiting.add(t)
            steps, cur = 0, None
            while len(done) < k:
                ready = [t for t in range(k) if t not in done and t not in busy]
                if not ready:
                    heard = wait([conns[t] for t in busy], self.patience * 30)
                    if not heard:
                        raise Stuck("nobody goes on")
                    for c in heard:
                        t = conns.index(c)
                        busy.discard(t)
                        hear(t)
                    continue
                free = [t for t in ready if t not in waiting]
                if free:
                    cur = self.choose(steps, free, cur)
                else:
                    cur = ready[steps % len(ready)]
                    if steps > 200:
                        SLEEP(0.001)
                waiting.discard(cur)
                what = at.get(cur, ("start", ""))
                self.trace.append((cur,) + tuple(what))
                order = self.order(cur, steps, what) if self.order else None
                steps += 1
                if steps > self.limit:
                    raise Stuck("no end after %d steps" % steps)
                conns[cur].send(order)
                if conns[cur].poll(self.patience):
                    hear(cur)
                else:
                    busy.add(cur)
                for t in list(busy):
                    if conns[t].poll(0):
                        busy.discard(t)
                        hear(t)
        finally:
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(p, 0)
            for c in conns:
                c.close()
        return self.trace


def switches(first, at):
    """Run `first`, go over to another one at the steps listed in `at`."""
    def choose(step, ready, cur):
        if cur is None:
            return first if first in ready else ready[0]
        if step in at:
            other = [t for t in ready if t != cur]
            if other:
                return other[0]
        return cur if cur in ready else ready[0]
    return choose
