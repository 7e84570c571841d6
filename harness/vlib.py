"""Common machinery of the checks: running TLC, comparing verdicts, evidence, replays."""
import glob
import hashlib
import itertools
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = ":".join(["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])
CORES = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


class TlcEvalError(MachineryError):
    pass


class Hang(BaseException):
    pass


class TlcResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.violated = None
        self.prints = []
        self.log = ""


class Ctx:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.level = level
        self.rng = random.Random("%s-%s" % (pid, seed))
        self.out = os.path.join(ROOT, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out, exist_ok=True)
        self.work = os.path.join(self.out, "work")
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self._n = itertools.count(1)
        self.validated = 0
        self.judged = 0
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.extra = {}
        self.assumptions = []
        self.t0 = time.monotonic()
        self.known = load_known(pid)
        self.known_seen = {}

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=CORES, args=(), timeout=800, heap="6g",
            deadlock=False, expect_ok=True):
        """Run TLC on spec/<module>.tla with the configuration text `cfg`."""
        wd = os.path.join(self.work, "%s_%d" % (module, next(self._n)))
        os.makedirs(wd)
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            os.symlink(f, os.path.join(wd, os.path.basename(f)))
        if not deadlock:
            cfg += "\nCHECK_DEADLOCK FALSE\n"
        with open(os.path.join(wd, module + ".cfg"), "w") as fp:
            fp.write(cfg)
        e = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "JAVA_TOOL_OPTIONS")}
        e.update(env or {})
        e["TMPDIR"] = wd
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + wd,
               "-Dfile.encoding=UTF-8", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(wd, "meta"), "-fp", "1", "-noGenerateSpecTE",
               "-config", module + ".cfg"] + list(args) + [module + ".tla"]
        logf = os.path.join(wd, "tlc.log")
        with open(logf, "w") as fp:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=fp, stderr=subprocess.STDOUT, timeout=timeout)
        r = TlcResult()
        rest = []
        with open(logf, encoding="utf-8", errors="replace") as fp:
            for line in fp:
                if line.startswith('"@@'):
                    r.prints.append(json.loads(json.loads(line)[2:]))
                elif not line.startswith(("Parsing file", "Semantic proc", "Linting of")):
                    rest.append(line)
        r.log = "".join(rest)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.log)
        if m:
            r.generated, r.distinct = [int(x.replace(",", "")) for x in m.groups()]
        else:
            m = re.findall(r"([\d,]+) states (?:generated|checked)", r.log)
            if m:
                r.generated = int(m[-1].replace(",", ""))
        m = re.search(r"Error: (?:Invariant|Action property|Property) (\S+) is violated", r.log) or \
            re.search(r"Error: The invariant of (\S+) is", r.log)
        if m:
            r.violated = m.group(1)
        if p.returncode != 0 and not r.violated or (expect_ok and r.violated):
            exc = (TlcEvalError if "evaluating" in r.log else MachineryError)("TLC failed on %s (exit %s):\n%s" % (module, p.returncode, r.log[-4000:]))
            exc.log, exc.prints = r.log, r.prints
            raise exc
        self.states += r.distinct
        self.transitions += r.generated
        shutil.rmtree(os.path.join(wd, "meta"), ignore_errors=True)
        return r

    def judge(self, module, records, env=None, cfg=None, chunk=4000, heap="2g"):
        """Let TLC evaluate a recorded log against the trace specification `module`.

        The trace module reads IOEnv.LOG, steps through it and prints a verdict for every line it
        does not accept.  Returns {index: [clause, ...]}."""
        bad = {}
        if not records:
            return bad
        per = max(200, min(chunk, -(-len(records) // CORES)))
        s0, t0 = self.states, self.transitions
        with open(os.path.join(SPEC, module + ".tla")) as fp:
            subst = "CONSTANT ClausesOf <- Clauses\n" if "TraceBase" in fp.read() else ""

        def one(start):
            part = records[start:start + per]
            found = []
            skip = 0
            for attempt in range(4):
                f = os.path.join(self.work, "log_%s_%d_%d.ndjson" % (module, start, attempt))
                with open(f, "w") as fp:
                    for rec in part[skip:]:
                        fp.write(json.dumps(rec) + "\n")
                e = dict(env or {})
                e["LOG"] = f
                try:
                    r = self.tlc(module, cfg or "SPECIFICATION TraceSpec\nPOSTCONDITION TraceDone\n" + subst, env=e,
                                 workers=1, heap=heap)
                except TlcEvalError as exc:
                    # a record the specification cannot even be evaluated on: not a behaviour it allows
                    m = re.findall(r"^l = (\d+)", exc.log, re.M)
                    if not m:
                        raise
                    found += [(start + skip + v["i"] - 1, v["clause"]) for v in exc.prints]
                    n = int(m[-1])
                    found.append((start + skip + n - 1, "the recorded values are outside anything specified"))
                    skip += n
                    if skip >= len(part):
                        return found
                    continue
                finally:
                    os.unlink(f)
                found += [(start + skip + v["i"] - 1, v["clause"]) for v in r.prints]
                break
            return found

        with ThreadPoolExecutor(max_workers=CORES) as ex:
            for found in ex.map(one, range(0, len(records), per)):
                for i, clause in found:
                    if clause not in bad.setdefault(i, []):
                        bad[i].append(clause)
        self.states, self.transitions = s0, t0      # only model states are counted as such
        self.judged += len(records)
        return bad

    # ------------------------------------------------------------------ verdicts
    def sample(self, x, n=6):
        if len(self.samples) < n:
            self.samples.append(x)

    def violation(self, what, replay):
        """what: one line; replay: json-able description of the failing case."""
        for k in self.known:
            if k["match"] and re.search(k["match"], what):
                self.known_seen[k["id"]] = k["what"]
                return
        self.nviol += 1
        if len(self.violations) >= 5:
            return
        h = hashlib.sha256(what.encode()).hexdigest()[:10]
        path = os.path.join(self.out, "replay-%s.json" % h)
        if os.path.exists(path):
            return
        with open(path, "w") as fp:
            json.dump({"property": self.pid, "what": what, "seed": self.seed, "tier": self.tier,
                       "case": replay}, fp, indent=1, default=str)
        self.violations.append((what, path))

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated, "samples": self.samples or ["none"]}
        cov["log_records_judged_by_tlc"] = self.judged
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.monotonic() - self.t0, 2), "violations": self.nviol}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        for what in self.known_seen.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        for what, path in self.violations:
            print("  " + what[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("%s %s: %d states, %d transitions, %d implementation traces, %d violations, %.1f s" % (
            self.pid, self.tier, self.states, self.transitions, self.validated, self.nviol,
            time.monotonic() - self.t0))
        return 1 if self.nviol else 0


def load_known(pid):
    """known_findings.json: {"findings": [{"property","id","match","what"}], "fixed": [...]}"""
    with open(os.path.join(ROOT, "known_findings.json")) as fp:
        d = json.load(fp)
    return [k for k in d["findings"] if k["property"] == pid]


class limit:
    """Bound the time of one call of the code under test."""

    def __init__(self, seconds=20):
        self.s = seconds

    def __enter__(self):
        def h(*a):
            raise Hang("no answer within %s s" % self.s)
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def observe(f, *a, **k):
    """('ok', value) or ('err', exception class name, text)."""
    try:
        with limit():
            return ("ok", f(*a, **k))
    except Hang as e:
        return ("err", "Hang", str(e))
    except Exception as e:
        return ("err", type(e).__name__, str(e)[:300], e)
