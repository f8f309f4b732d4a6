"""C27 compiled packages: no access outside arrays"""
import importlib
from vlib import legacy
from vlib.mon import Failure

PROP = "C27"
RULE = ("pyqcstrc.dode and pyqcstrc.ico are compiled from the working tree with the index checks their decorators switch off (and overflow checks), "
        "and run under the workloads of C21 to C26 and C29. An index outside an array or list, or a negative one where the code is compiled without "
        "support for it, raises and is reported; so is a crash of the process. The values returned are not judged here. Non-trivial: "
        "all; distinct by the cases of those workloads.")
ASSUMPTIONS = ["indices into typed arrays and lists are observed; pointers the numpy C API uses internally are not"]
MIN = {"calls observed": 5000}
FROM = ["c21", "c22", "c23", "c24", "c25", "c26", "c29"]


def prepare(scratch):
    legacy.build(scratch, {"dode": ["occupation_domain", "utils12", "numericalc12", "math12", "intsct12", "symmetry12", "strc12"],
                           "ico": ["occupation_domain", "two_occupation_domains", "utils", "numericalc", "math1", "symmetry", "intsct"]},
                 bounds=True, overflow=True)


class Watch:
    """stands for the monitor of the other check: calls are made and counted, results are not judged"""

    def __init__(self, mon, src):
        self.mon = mon
        self.src = src

    def __getattr__(self, k):
        return getattr(self.mon, k)

    def hit(self, *a, **k):
        pass

    def case(self, kind, key=None, *a, **k):
        self.mon.case("%s %s" % (self.src, kind), key)

    def bad(self, *a, **k):
        pass

    def ok(self, cond, *a, **k):
        return bool(cond)

    def call(self, f, *a, **k):
        k["quiet"] = True
        k["pure"] = False
        R = self.mon.call(f, *a, **k)
        self.mon.hit("calls observed")
        if isinstance(R, Failure) and ": IndexError: " in R.text:
            self.mon.bad("index outside an array: " + R.text, args=a)
        return R


def run(mon, src, fn, kw):
    m = importlib.import_module("checks." + src)
    getattr(m, fn)(Watch(mon, src.upper()), **kw)


def jobs(tier, seed):
    out = []
    for s in FROM:
        J = importlib.import_module("checks." + s).jobs(tier, seed + 500)
        by = {}
        for fn, kw in J:
            by.setdefault((fn, kw.get("pkg")), []).append((fn, kw))
        for k in by:
            for fn, kw in by[k][:1 if tier == "quick" else 6]:
                out.append(("run", {"src": s, "fn": fn, "kw": kw}))
    return out
