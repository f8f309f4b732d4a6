"""Builds the compiled packages of the current working tree (src_cython/dode -> pyqcstrc.dode,
src_cython/ico -> pyqcstrc.ico) in a scratch directory and loads them from there.

bounds=True builds the same sources with the index checks their decorators switch off: every index outside an
array or list, and every negative index where the code switches wraparound off, raises IndexError.
overflow=True: an arithmetic result that does not fit the C integer type raises OverflowError."""
import contextlib
import glob
import importlib
import io
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from vlib.mon import REPO

SKIP = {"ico/strc1.pyx", "ico/reciprocal.pyx"}          # do not compile at the pinned commit
DIR = "legacy"
SUFFIX = None


def _needs(path, pkg):
    """modules of the package a .pyx cimports or imports"""
    t = open(path, encoding="utf-8", errors="replace").read()
    return set(re.findall(r"pyqcstrc\.%s\.(\w+)" % pkg, t))


def build(scratch, want, bounds=False, optim="-O0", overflow=False):
    """want: {"dode": [module, ...], "ico": [...]}; the modules they import are added"""
    import sysconfig
    import numpy
    dst = os.path.join(scratch, DIR)
    top = os.path.join(dst, "pyqcstrc")
    os.makedirs(top)
    shutil.copyfile(os.path.join(REPO, "src/pyqcstrc/__init__.py"), os.path.join(top, "__init__.py"))
    todo = []
    for pkg, mods in want.items():
        d = os.path.join(top, pkg)
        os.makedirs(d)
        src = os.path.join(REPO, "src_cython", pkg)
        for p in glob.glob(src + "/*.p*"):
            n = os.path.basename(p)
            if n == "setup.py" or "%s/%s" % (pkg, n) in SKIP or not n.endswith((".py", ".pyx", ".pxd")):
                continue
            if bounds and n.endswith(".pyx"):
                t = open(p, encoding="utf-8").read()
                t = re.sub(r"\bboundscheck\s*(\(|=)\s*False", r"boundscheck\1True", t)
                with open(os.path.join(d, n), "w", encoding="utf-8") as f:
                    f.write(t)
            else:
                shutil.copyfile(p, os.path.join(d, n))
        mods = set(mods)
        while True:
            more = set()
            for m in mods:
                p = os.path.join(d, m + ".pyx")
                q = os.path.join(d, m + ".py")
                if os.path.exists(p):
                    more |= _needs(p, pkg)
                elif os.path.exists(q):
                    more |= _needs(q, pkg)
            more = {m for m in more if os.path.exists(os.path.join(d, m + ".pyx")) or os.path.exists(os.path.join(d, m + ".py"))}
            if more <= mods:
                break
            mods |= more
        todo += [(pkg, m) for m in sorted(mods) if os.path.exists(os.path.join(d, m + ".pyx"))]
    todo.sort(key=lambda pm: -os.path.getsize(os.path.join(top, pm[0], pm[1] + ".pyx")))
    inc = ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include(), "-I."]
    suf = sysconfig.get_config_var("EXT_SUFFIX")
    direct = ["-X", "language_level=3"]
    cflags = ["-fPIC", "-w", "-g0", optim, "-fno-strict-aliasing", "-fwrapv", "-DNDEBUG"]
    on = [k for k, v in (("boundscheck=True", bounds), ("overflowcheck=True", overflow)) if v]
    if on:
        direct = ["-X", ",".join(["language_level=3"] + on)]

    def one(pm):
        pkg, m = pm
        p = "pyqcstrc/%s/%s" % (pkg, m)
        r = subprocess.run([sys.executable, "-m", "cython", "-3"] + direct + [p + ".pyx", "-o", p + ".c"],
                           cwd=dst, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return "cython %s: %s" % (p, r.stdout[-3000:])
        r = subprocess.run(["gcc", "-shared"] + cflags + inc + [p + ".c", "-o", p + suf],
                           cwd=dst, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return "gcc %s: %s" % (p, r.stdout[-3000:])
        os.remove(os.path.join(dst, p + ".c"))
        return None
    with ThreadPoolExecutor(8) as ex:
        bad = [e for e in ex.map(one, todo) if e]
    if bad:
        raise RuntimeError("the tree does not build:\n" + "\n".join(bad))
    return dst


def load(mon, pkg, *mods):
    """import modules of the freshly built package; mon.scratch is <scratch>/job<i>"""
    root = os.path.join(os.path.dirname(mon.scratch), DIR)
    if sys.path[0] != root:
        sys.path.insert(0, root)
    base = importlib.import_module("pyqcstrc")
    assert os.path.abspath(base.__file__).startswith(os.path.abspath(root)), base.__file__
    out = []
    with contextlib.redirect_stdout(io.StringIO()):
        for m in mods:
            out.append(importlib.import_module("pyqcstrc.%s.%s" % (pkg, m)))
    return out[0] if len(out) == 1 else out
