import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

MODULES = {
    "C01": "codec", "C02": "codec", "C03": "pack", "C04": "intake", "C05": "rules", "C06": "rules", "C07": "msgmap",
    "C08": "jws", "C09": "token", "C10": "carrier", "C11": "carrier", "C12": "carrier",
    "C13": "logout", "C14": "jwt", "C15": "request", "C16": "request", "C17": "response", "C18": "metadata", "C19": "claims", "C26": "timeutil", "C21": "filestore", "C24": "storage", "C22": "conc", "C23": "conc", "C20": "flow", "C25": "sql", "C27": "jwe", "C28": "make", "C29": "lookup", "C30": "lookup",
}
CLOCKED = {"token", "logout", "jwt", "timeutil", "flow", "carrier", "request", "pack", "jwe", "make"}    # these run under the controlled wall clock


def main():
    pid = sys.argv[1]
    tier = "thorough" if sys.argv[2:3] == ["thorough"] else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if MODULES[pid] in CLOCKED:
        import vclock
        vclock.ensure()
        vclock.selftest()
        vclock.off()
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as fp:
            replay = json.load(fp)
        print(json.dumps(replay, indent=1))
        tier, seed = replay["tier"], replay["seed"]
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    from vlib import Ctx
    ctx = Ctx(pid, tier, seed)
    try:
        import oidcmsg
        assert os.path.realpath(oidcmsg.__file__).startswith(os.path.realpath(REPO)), oidcmsg.__file__
        mod = importlib.import_module("c_" + MODULES[pid])
        getattr(mod, pid)(ctx)
    except Exception as exc:
        # an error inside the code under test that no case was prepared for
        frames = traceback.extract_tb(exc.__traceback__)
        src = os.path.join(os.path.realpath(REPO), "src") + os.sep
        if not any(os.path.realpath(f.filename).startswith(src) for f in frames):
            raise
        traceback.print_exc()
        ctx.violation("unexpected %s in the code under test: %s" % (type(exc).__name__, exc),
                      traceback.format_exc())
    return ctx.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
