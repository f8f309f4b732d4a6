"""Monitor core: counts what was observed, records violations with a replay file, snapshots the
arguments of every monitored call, bounds every call by CPU time.

A check is a module in checks/ with
    PROP   property id            LEVEL  evidence level
    RULE   how cases are made and what makes one non-trivial
    jobs(tier, seed) -> list of (function_name, kwargs)   (picklable, run in worker processes)
    every job function takes (mon, **kwargs)
    MIN    {counter: minimum} below which the run is inconclusive (exit 3)
"""
import contextlib
import hashlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CALL_CPU_LIMIT = int(os.environ.get("VERIF_CALL_CPU", "150"))


def load(pkg):
    """import the package under test from the current working tree"""
    src = os.path.join(REPO, "src")
    if sys.path[0] != src:
        sys.path.insert(0, src)
    import importlib
    base = importlib.import_module("pyqcstrc")
    assert os.path.abspath(base.__file__).startswith(os.path.abspath(src)), base.__file__

    class NS:
        pass
    ns = NS()
    ns.name = pkg
    with contextlib.redirect_stdout(io.StringIO()):
        for m in ("math1", "numericalc", "utils", "symmetry", "intsct",
                  "occupation_domain", "two_occupation_domains"):
            setattr(ns, m, importlib.import_module("pyqcstrc.%s.%s" % (pkg, m)))
    ns.od = ns.occupation_domain
    ns.ods = ns.two_occupation_domains
    return ns


class CpuLimit(BaseException):
    pass


class Failure:
    """what a monitored call returns when the code under test raised"""

    def __init__(self, text):
        self.text = text


def _freeze(x):
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, str(x.dtype), x.tobytes() if x.dtype != object else repr(x.tolist()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(_freeze(y) for y in x)
    return repr(x)


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


class Mon:
    def __init__(self, prop, shard=0):
        self.prop = prop
        self.shard = shard
        self.evals = 0
        self.keys = set()
        self.count = {}
        self.viol = []
        self.samples = []
        self.mutations = 0
        self.maxviol = 20

    # ---- bookkeeping -----------------------------------------------------
    def hit(self, name, n=1):
        self.count[name] = self.count.get(name, 0) + n

    def case(self, kind, key=None, nontrivial=True, sample=None):
        """one evaluated case"""
        self.evals += 1
        self.hit(kind)
        if nontrivial and key is not None:
            if not isinstance(key, (bytes, str)):
                key = repr(_freeze(key))
            if isinstance(key, str):
                key = key.encode()
            self.keys.add(hashlib.blake2b(kind.encode() + b"|" + key, digest_size=8).digest())
        if sample is not None and len(self.samples) < 3:
            self.samples.append(jsonable(sample))

    def bad(self, what, **detail):
        if len(self.viol) < self.maxviol:
            self.viol.append({"what": what, "detail": jsonable(detail)})

    def ok(self, cond, what, **detail):
        if not cond:
            self.bad(what, **detail)
        return bool(cond)

    # ---- monitored calls -------------------------------------------------
    def call(self, f, *a, rng=None, quiet=False, pure=True, **k):
        """run the real function; stdout swallowed, exceptions and CPU limit turned into Failure
        (and a violation unless quiet); argument mutation recorded as a violation"""
        before = _freeze(a) if pure else None
        if rng is not None:
            random.seed(rng)
            np.random.seed(rng % (1 << 32))
        name = getattr(f, "__module__", "") + "." + getattr(f, "__name__", repr(f))
        name = name.replace("pyqcstrc.", "")
        self.hit("call:" + name)

        def onalarm(*_):
            raise CpuLimit()
        old = signal.signal(signal.SIGPROF, onalarm)
        signal.setitimer(signal.ITIMER_PROF, CALL_CPU_LIMIT)
        try:
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
                r = f(*a, **k)
        except CpuLimit:
            r = Failure("%s: no result after %d s of CPU time" % (name, CALL_CPU_LIMIT))
        except SystemExit as e:
            r = Failure("%s: called sys.exit(%r)" % (name, e.code))
        except Exception as e:                                    # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = ["%s:%s" % (os.path.basename(x.filename), x.name) for x in tb[1:]]
            r = Failure("%s: %s: %s at %s" % (name, type(e).__name__, e, " > ".join(where[-3:])))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
        if isinstance(r, Failure) and not quiet:
            self.bad("call failed: " + r.text, args=a, kwargs=k)
        if pure and _freeze(a) != before:
            self.mutations += 1
            self.bad("arguments of %s were modified by the call" % name, args_after=a)
        return r

    def dump(self):
        return {"evals": self.evals, "keys": self.keys, "count": self.count, "viol": self.viol,
                "samples": self.samples, "shard": self.shard}


def seed_of(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") & 0x7FFFFFFF
