"""A wall clock under the harness's control (see vclock.c).  Monotonic clocks keep running."""
import ctypes
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = os.path.join(os.path.dirname(HERE), "out", "vclock.so")
NOW = 1_700_000_000         # 2023-11-14T22:13:20Z


def ensure():
    """Re-execute this process with the clock library loaded."""
    if os.environ.get("VCLOCK") == "1":
        return
    os.makedirs(os.path.dirname(LIB), exist_ok=True)
    tmp = LIB + ".%d" % os.getpid()
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, os.path.join(HERE, "vclock.c"), "-ldl"], check=True)
    os.rename(tmp, LIB)
    os.environ.update(VCLOCK="1", LD_PRELOAD=LIB)
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)


def freeze(sec=NOW, nsec=0):
    lib = ctypes.CDLL(None)
    lib.vclock_set(ctypes.c_longlong(sec), ctypes.c_long(nsec))


def off():
    ctypes.CDLL(None).vclock_off()


def selftest():
    import datetime
    import time
    freeze(NOW, 250_000_000)
    assert abs(time.time() - NOW - 0.25) < 1e-6, time.time()
    assert datetime.datetime.now(datetime.timezone.utc).timestamp() == NOW + 0.25
    assert time.gmtime()[:6] == (2023, 11, 14, 22, 13, 20)
