"""C26 compiled packages: XYZ, VESTA and pod/atm files"""
import os
import re
import numpy as np
from checks import c18, c19, c20
from vlib import complexes as cx
from vlib import legacy
from vlib.mon import seed_of, Failure, REPO
from vlib.gen import Gen
from vlib.geom import Solid

PROP = "C26"
RULE = ("pyqcstrc.dode and pyqcstrc.ico are compiled from the working tree (with overflow checks: a case beyond 64 bits is counted, not judged). "
        "Objects, selections and edits of the files as for C18, C19 and C20; every file is parsed by the monitor and compared with exact "
        "coordinates, measures, cells and edges, and read back by read_xyz. Non-trivial: all; distinct by (selection, object).")
ASSUMPTIONS = ["no intermediate number exceeds 64 bits (observed by the overflow checks)", "cells meet face to face (VESTA, pod/atm)"]
MIN = {"ico.xyz tetrahedron": 60, "dode.xyz triangle": 60, "ico.xyz triangle": 10, "ico.xyz edge": 10, "dode.xyz edge": 20, "ico.xyz vertex": 10,
       "dode.xyz vertex": 20, "ico.read": 60, "dode.read": 60, "ico.vesta normal": 10, "ico.vesta simple": 10, "ico.vesta podatm": 10,
       "dode.vesta normal": 40, "ico.write_podatm": 40, "ico.chain": 20, "published file": 5, "ico.many": 2, "dode.many": 2}
SHORT = {"k": (127, 127, 127), "r": (255, 0, 0), "b": (0, 0, 255), "p": (255, 0, 255)}


def prepare(scratch):
    legacy.build(scratch, {"dode": ["occupation_domain"], "ico": ["occupation_domain"]}, overflow=True)


def C(a):
    return np.ascontiguousarray(np.asarray(a, dtype=np.int64))


def gone(mon, R, what, **kw):
    """True when there is no result to judge"""
    if not isinstance(R, Failure):
        return False
    if "OverflowError" in R.text:
        mon.hit("%s: 64 bits exceeded, not judged" % what)
    else:
        mon.bad("%s: no result" % what, why=R.text, **kw)
    return True


def footer(mon, g, pkg, path, obj, what):
    """the measures at the end of the file"""
    word = "volume" if pkg == "ico" else "area"
    _, _, foot = c18.parse(path)
    num = re.compile(r"(-?\d+) (-?\d+) (-?\d+) \(\s*(-?[\d.]+)\)")
    tot, got = None, []
    for s in foot:
        m = num.search(s)
        if m:
            val = tuple(int(m.group(i)) for i in (1, 2, 3))
            if s.startswith(word):
                tot = (val, float(m.group(4)))
            else:
                got.append((int(s.split("-")[0]), val, float(m.group(4))))
    f = 6 if pkg == "ico" else 2
    cells = [Solid(g.geo, np.array([c]), 3 if pkg == "ico" else 2).measure() * g.geo.K(1, 0, f) for c in obj]
    s = g.geo.zero
    for c in cells:
        s = s + c

    def same(t, c):
        return g.style.frm(t[0]) == c and abs(t[1] - float(c)) < 2e-6 * max(1, float(c))
    mon.ok(tot is not None and same(tot, s), "%s %s: the %s in the file is not that of the object" % (pkg, what, word), obj=obj, got=tot)
    mon.ok([x[0] for x in got] == list(range(len(obj))) and all(same(x[1:], c) for x, c in zip(got, cells)),
           "%s %s: the %ss of the cells in the file are wrong" % (pkg, what, word), obj=obj, got=got)


def read_back(mon, od, pkg, d, b, V, nv, select, what):
    R = mon.call(od.read_xyz, d, b, select, quiet=True)
    mon.case("%s.read" % pkg, (V, select, what))
    if gone(mon, R, "%s read_xyz (%s)" % (pkg, what), V=V):
        return
    R = np.asarray(R)
    if select in ("tetrahedron", "triangle"):
        ok = R.shape == (len(V) // nv, nv, 6, 3)
    else:
        ok = R.shape == (len(V), 6, 3) or (pkg == "dode" and R.size == V.size and R.shape[-2:] == (6, 3))
    if mon.ok(ok, "%s read_xyz (%s): shape %s" % (pkg, what, R.shape), V=V):
        mon.ok(R.dtype.kind == "i" and np.array_equal(R.reshape(-1, 6, 3), V), "%s read_xyz (%s): not what was written" % (pkg, what), V=V, got=R)


def flat(g, c):
    return Solid(g.geo, np.array([c]), 3 if g.pkg == "ico2" else 2).measure().is_zero()


def xyz(mon, pkg, seed, n):
    od = legacy.load(mon, pkg, "occupation_domain")
    g = Gen(pkg + "2", seed_of(PROP, "xyz", pkg, seed))
    r = g.rnd
    top = "tetrahedron" if pkg == "ico" else "triangle"
    d = mon.scratch
    older = []
    for it in range(n):
        if r.random() < 0.5:
            _, obj = cx.make(g, 8)
        else:
            mode = r.choice([(3, 2), (9, 6), (12, 3)])
            obj = np.array([[g.vec(6, *mode) for _ in range(g.nv)] for _ in range(r.choice([1, 1, 2, 3, 6]))])
        sel = r.choice([top, top, top] + ["triangle", "edge", "vertex"][0 if pkg == "ico" else 1:])
        if pkg == "dode":
            obj[:, :, 4:] = [0, 0, 1]
        if sel == top and any(flat(g, c) for c in obj):
            continue
        if sel != top and pkg == "dode" and r.random() < 0.5:
            for v in obj.reshape(-1, 6, 3):
                v[4:] = g.vec(2, 9, 4)
        if sel == "vertex":
            obj = obj.reshape(-1, 6, 3)
        elif sel != top:
            obj = obj[:, :c18.NUM[sel]].copy()
        nv = c18.NUM[sel]
        if sel == top and r.random() < 0.25:
            o2 = g.relate(obj, r.randint(1, 3))
            if not any(flat(g, c) for c in o2) and np.abs(o2).max() < 400:
                obj = o2
        b = r.choice(["x%d", "obj_%d", "a.b%d", "with space %d", "%d", "Obj_A%d", "_x%d_", "o.xyz%d", "n#%d", "%d.", "-x%d", "\u03c4_%d"]) % it
        obj = C(obj)
        V = obj.reshape(-1, 6, 3)
        if older and r.random() < 0.5:
            b = r.choice(older)
        older.append(b)
        sub = d if b in older[:-1] or r.random() < 0.7 else os.path.join(d, "new%d" % it, "deeper")
        keep = obj.copy()
        if sub != d or r.random() < 0.5:
            what = "write(xyz, %s)" % sel
            kw = {} if pkg == "dode" or (sel == top and r.random() < 0.5) else {"select": sel}
            R = mon.call(od.write, obj, path=sub, basename=b, format="xyz", quiet=True, **kw)
        else:
            what = "write_xyz(%s)" % sel
            a = () if pkg == "dode" or (sel == top and r.random() < 0.5) else (sel,)
            R = mon.call(od.write_xyz, obj, sub, b, *a, quiet=True)
        mon.case("%s.xyz %s" % (pkg, sel), obj, sample={"pkg": pkg, "select": sel, "vertices": len(V), "name": b} if it % 31 == 7 else None)
        if sub != d:
            older.pop()
        if gone(mon, R, "%s %s" % (pkg, what), obj=obj):
            continue
        mon.ok(R == 0, "%s %s: reports failure (%r) for a valid object" % (pkg, what, R), obj=obj)
        mon.ok(np.array_equal(keep, obj), "%s %s: the object given is changed" % (pkg, what), obj=keep)
        fn = os.path.join(sub, b + ".xyz")
        c18.check_file(mon, g, fn, "none", obj, what)
        if not os.path.exists(fn):
            continue
        if sel == top:
            footer(mon, g, pkg, fn, obj, what)
            read_back(mon, od, pkg, sub, b, V, nv, top, what)
        read_back(mon, od, pkg, sub, b, V, nv, "vertex", what)
        L = open(fn, encoding="utf-8").read().split("\n")[:2 + len(V)]
        with open(os.path.join(d, "edited.xyz"), "w") as f:
            f.write("\n".join(L) + (r.choice(["", "\n", "\n\n", "\nremark 1 2 3\nmore\n"])))
        read_back(mon, od, pkg, d, "edited", V, nv, top if sel == top else "vertex", "edited file")


def many(mon, pkg, seed, cells):
    """numbers of vertices beyond the width of the columns"""
    od = legacy.load(mon, pkg, "occupation_domain")
    g = Gen(pkg + "2", seed_of(PROP, "many", pkg, seed, cells))
    T = [g.simplex(2, 1, 1, 0.1) for _ in range(5)]
    obj = np.array([g.shift([g.rnd.choice(T)], g.lattice(2))[0] for _ in range(cells)])
    if pkg == "dode":
        obj[:, :, 4:] = [0, 0, 1]
    obj = C(obj)
    top = "tetrahedron" if pkg == "ico" else "triangle"
    mon.case("%s.many" % pkg, obj)
    R = mon.call(od.write, obj, path=mon.scratch, basename="many", format="xyz", quiet=True)
    if gone(mon, R, "%s write(xyz) of %d cells" % (pkg, cells)):
        return
    fn = os.path.join(mon.scratch, "many.xyz")
    c18.check_file(mon, g, fn, "none", obj, "write(xyz) of %d cells" % cells)
    if os.path.exists(fn):
        footer(mon, g, pkg, fn, obj, "write(xyz) of %d cells" % cells)
        for sel in (top, "vertex"):
            read_back(mon, od, pkg, mon.scratch, "many", obj.reshape(-1, 6, 3), g.nv, sel, "%d cells" % cells)


def published(mon, n):
    for pkg, f in (("ico", "src_cython/ico/xyz/RT_asymmeric"), ("ico", "src_cython/ico/xyz/EC_asymmeric"), ("ico", "examples/example1/rtod0"),
                   ("ico", "examples/example1/common_od"), ("ico", "examples/example3/common_od_asym"),
                   ("ico", "src_cython/ico/xyz/strt_asymmetric"), ("dode", "src_cython/dode/tests/test1/obj1"),
                   ("dode", "src_cython/dode/tests/test1/obj2"), ("dode", "src_cython/dode/tests/test3/obj1")):
        p = os.path.join(REPO, f + ".xyz")
        try:
            m, rows, foot = c18.parse(p)
            V = np.array([k for _, k in rows], dtype=np.int64).reshape(-1, 6, 3)
        except (OSError, ValueError):
            continue
        od, g = legacy.load(mon, pkg, "occupation_domain"), Gen(pkg + "2", 1)
        if len(V) % g.nv or len(V) > 400:
            continue
        mon.case("published file", f)
        d, b = os.path.split(p)
        top = "tetrahedron" if pkg == "ico" else "triangle"
        read_back(mon, od, pkg, d, b[:-4], V, g.nv, top, f)
        obj = C(V.reshape(-1, g.nv, 6, 3))
        R = mon.call(od.write_xyz, obj, mon.scratch, "pub", quiet=True)
        if not gone(mon, R, "%s write_xyz of %s" % (pkg, f)):
            q = os.path.join(mon.scratch, "pub.xyz")
            c18.check_file(mon, g, q, "none", obj, "write_xyz of " + f)
            footer(mon, g, pkg, q, obj, "write_xyz of " + f)
            read_back(mon, od, pkg, mon.scratch, "pub", V, g.nv, top, "copy of " + f)


def vesta(mon, pkg, seed, n):
    od = legacy.load(mon, pkg, "occupation_domain")
    g = Gen(pkg + "2", seed_of(PROP, "vesta", pkg, seed))
    r = g.rnd
    for it in range(n):
        kind, A = cx.make(g, 6)
        A = C(A)
        sel = r.choice(["normal", "simple", "podatm"]) if pkg == "ico" else "normal"
        cells = cx.cells_p(g, A)
        if pkg == "ico":
            col = r.choice(list(c19.COL) + [[r.randrange(256) for _ in range(3)]])
        else:
            col = r.choice(list(SHORT))
        rgb = tuple(col) if isinstance(col, list) else c19.COL[col]
        b = "v%d" % r.randrange(4)
        what = "%s write_vesta(%s)" % (pkg, sel)
        dm = r.choice([5.0, 2.5, 12.25])
        kw = {"dmax": dm} if pkg == "dode" else {}
        if sel == "normal" and r.random() < 0.5:
            what = "%s write(vesta)" % pkg
            R = mon.call(od.write, A, path=mon.scratch, basename=b, format=r.choice(["vesta", "v", "VESTA"]), color=col, quiet=True, **kw)
        else:
            R = mon.call(od.write_vesta, A, path=mon.scratch, basename=b, color=col, select=sel, quiet=True, **kw)
        mon.case("%s.vesta %s" % (pkg, sel), (A, str(col)), sample={"pkg": pkg, "kind": kind, "select": sel, "color": str(col), "cells": len(A)} if it % 13 == 3 else None)
        if gone(mon, R, what, obj=A):
            continue
        c19.judge(mon, g, what, sel, A, A, cells, col, rgb, R, os.path.join(mon.scratch, b + ".vesta"))
        if pkg == "dode":
            try:
                mols = c19.parse(os.path.join(mon.scratch, b + ".vesta"))
            except (OSError, ValueError, IndexError):
                continue
            mon.ok(all(float(x[3]) == 0 and abs(float(x[4]) - dm) < 6e-3 for m in mols for x in m[1]), "%s: greatest bond length" % what, obj=A, dmax=dm)


def podatm(mon, seed, n):
    od = legacy.load(mon, "ico", "occupation_domain")
    g = Gen("ico2", seed_of(PROP, "podatm", seed))

    class NS:
        pass
    NS.od = od
    c20.podatm_with(mon, NS, g, seed, n, "ico", C)


def jobs(tier, seed):
    k, n = (4, 50) if tier == "quick" else (12, 200)
    return ([("xyz", {"pkg": p, "seed": seed * 1000 + i, "n": n}) for i in range(k) for p in ("ico", "dode")] +
            [("vesta", {"pkg": p, "seed": seed * 1000 + i, "n": n // 2}) for i in range(k) for p in ("ico", "dode")] +
            [("podatm", {"seed": seed * 1000 + i, "n": n // 2}) for i in range(k)] + [("published", {"n": 1})] +
            [("many", {"pkg": p, "seed": seed, "cells": c}) for p in ("ico", "dode") for c in ((105, 1030) if tier == "quick" else (105, 1030, 3400))])
