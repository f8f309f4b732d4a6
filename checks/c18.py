"""C18 XYZ files: what is written is what was given, and reading it back gives it unchanged"""
import os
import re
import numpy as np
from vlib.mon import load, seed_of, Failure, REPO
from vlib.gen import Gen
from vlib.geom import Solid
from vlib import complexes as cx

PROP = "C18"
RULE = ("objects of 1..12 cells, triangles, edges and lists of vertices with small, large, negative, non-reduced and irrational entries, "
        "conforming complexes, the published files; written by write_xyz and write (fresh names, new directories, over longer older files, two "
        "files alternately), the file parsed by the monitor (count, floating coordinates against exact internal coordinates, the integers, "
        "the volume footer against exact volumes) and read back by read_xyz as cells and as vertices, also without the final newline and with a longer "
        "footer. Non-trivial: all; distinct by (selection, object).")
ASSUMPTIONS = ["the directory exists when write_xyz is used directly (write creates it)"]
MIN = {"ico2.write tetrahedron": 60, "dode2.write triangle": 60, "ico2.write triangle": 20, "ico2.write edge": 20, "dode2.write edge": 20,
       "ico2.write vertex": 20, "dode2.write vertex": 20, "ico2.read": 100, "dode2.read": 100, "published file": 5, "ico2.empty": 2, "dode2.empty": 2, "ico2.over older file": 20,
       "dode2.over older file": 20, "ico2.many tetrahedron": 3, "dode2.many triangle": 3, "ico2.many vertex": 3, "dode2.many vertex": 3}
NUM = {"tetrahedron": 4, "triangle": 3, "edge": 2, "vertex": 1}


def ints(v):
    return [int(x) for x in np.asarray(v).reshape(-1)]


def parse(path):
    with open(path, encoding="utf-8") as f:
        L = f.read().split("\n")
    n = int(L[0].split()[0])
    rows = []
    for s in L[2:2 + n]:
        t = s.split()
        rows.append(([float(x) for x in t[1:4]], [int(x) for x in t[-18:]]))
    return n, rows, [s for s in L[2 + n:] if s.strip()]


def check_file(mon, g, path, select, obj, what):
    V = np.asarray(obj).reshape(-1, 6, 3)
    try:
        n, rows, foot = parse(path)
    except (OSError, ValueError, IndexError) as e:
        mon.bad("%s %s: the file written cannot be read: %s" % (g.pkg, what, e), obj=obj)
        return
    if n != len(V) or len(rows) != n:
        mon.bad("%s %s: %d vertices announced, %d written, %d given" % (g.pkg, what, n, len(rows), len(V)), obj=obj)
        return
    for (x, k), v in zip(rows, V):
        if k != ints(v):
            mon.bad("%s %s: exact coordinates changed" % (g.pkg, what), vertex=v, written=k)
            return
        p = [float(c) for c in g.geo.perp(v)]
        if any(abs(a - b) > 1.1e-6 * max(1, abs(b)) for a, b in zip(x, p)):
            mon.bad("%s %s: coordinates in the file are not the internal components" % (g.pkg, what), vertex=v, written=x, exact=p)
            return
    if g.pkg == "ico2" and select == "tetrahedron":
        num = re.compile(r"(-?\d+) (-?\d+) (-?\d+) \(\s*(-?[\d.]+)\)")
        got = []
        tot = None
        for s in foot:
            m = num.search(s)
            if not m:
                continue
            val = [int(m.group(i)) for i in (1, 2, 3)]
            if s.startswith("volume"):
                tot = (val, float(m.group(4)))
            else:
                got.append((int(s.split("-")[0]), val, float(m.group(4))))
        cells = [Solid(g.geo, np.array([c]), 3).measure() * g.geo.K(1, 0, 6) for c in obj]
        s = g.geo.zero
        for c in cells:
            s = s + c
        if max(abs(x) for x in g.style.canon(s)) >= 1 << 62:
            return                                   # the volume does not fit the number format
        mon.ok(tot is not None and tuple(tot[0]) == g.style.canon(s) and abs(tot[1] - float(s)) < 2e-6 * max(1, float(s)),
               "ico2 %s: the volume in the file is not the volume of the object" % what, obj=obj, got=tot)
        mon.ok([x[0] for x in got] == list(range(len(obj))) and
               all(tuple(x[1]) == g.style.canon(c) and abs(x[2] - float(c)) < 2e-6 * max(1, float(c)) for x, c in zip(got, cells)),
               "ico2 %s: the volumes of the cells in the file are wrong" % what, obj=obj, got=got)


def read_back(mon, g, ns, d, b, V, nv, select, what):
    """select is what to read it as"""
    R = mon.call(ns.od.read_xyz, d, b, select)
    mon.case("%s.read" % g.pkg, (V, select, what))
    if isinstance(R, Failure):
        return
    R = np.asarray(R)
    want = (len(V), 6, 3) if select == "vertex" else (len(V) // nv, nv, 6, 3)
    if R.shape != want:
        mon.bad("%s read_xyz (%s): shape %s instead of %s" % (g.pkg, what, R.shape, want))
        return
    mon.ok(R.dtype.kind == "i" and np.array_equal(R.reshape(-1, 6, 3), V), "%s read_xyz (%s): not what was written" % (g.pkg, what), V=V, got=R)


def run(mon, pkg, seed, n):
    ns = load(pkg)
    g = Gen(pkg, seed_of(PROP, pkg, seed))
    r = g.rnd
    top = "tetrahedron" if pkg == "ico2" else "triangle"
    d = mon.scratch
    older = []
    for f, kw in ((ns.od.write, {"format": "xyz"}), (ns.od.write_xyz, {})):
        mon.case(pkg + ".empty", f.__name__)
        mon.call(f, None, path=d, basename="none", **kw)
        mon.ok(not os.path.exists(os.path.join(d, "none.xyz")), "%s %s: a file made for an empty domain" % (pkg, f.__name__))
    for it in range(n):
        k = r.random()
        if k < 0.4:
            _, obj = cx.make(g, 8)
        else:
            mode = r.choice([(3, 2), (9, 6), (60, 10), (300, 4), (10 ** 4, 3), (1 << 56, 1)])
            obj = np.array([[g.vec(6, *mode) for _ in range(g.nv)] for _ in range(r.choice([1, 1, 2, 3, 6, 12]))])
            if r.random() < 0.1:
                obj = obj * 2
            if pkg == "dode2" and r.random() < 0.4:
                obj[:, :, 4:] = [0, 0, 1]
            if r.random() < 0.3:
                obj = g.relate(obj, r.randint(1, 3)) if mode[0] < 10 ** 4 else np.concatenate([obj, obj[:1]])
        sel = r.choice([top, top, top] + list(NUM)[1 if pkg == "ico2" else 2:])
        if sel == "vertex":
            obj = obj.reshape(-1, 6, 3)
        elif sel != top:
            obj = obj[:, :NUM[sel]].copy()
        V = obj.reshape(-1, 6, 3)
        nv = NUM[sel]
        sub = d if r.random() < 0.7 else os.path.join(d, "new%d" % it, "deeper")
        if older and r.random() < 0.5:
            b = r.choice(older)
            sub = d
            mon.hit(pkg + ".over older file")
        else:
            b = r.choice(["x%d", "obj_%d", "a.b%d", "with space %d", "%d", "Obj_A%d", "_x%d_", "o.xyz%d", "n#%d", "%d.", "-x%d", "\u03c4_%d"]) % it
            if sub == d:
                older.append(b)
        via = r.random() < 0.5
        mon.case("%s.write %s" % (pkg, sel), obj, sample={"pkg": pkg, "select": sel, "vertices": len(V), "name": b} if it % 31 == 7 else None)
        if via or sub != d:
            if r.random() < 0.5 and sel == top:
                R = mon.call(ns.od.write, obj, path=sub, basename=b, format="xyz")
            else:
                R = mon.call(ns.od.write, obj, path=sub, basename=b, format="xyz", select=sel)
            what = "write(xyz, %s)" % sel
        else:
            if sel == top and r.random() < 0.5:
                R = mon.call(ns.od.write_xyz, obj, path=sub, basename=b)
            else:
                R = mon.call(ns.od.write_xyz, obj, path=sub, basename=b, select=sel)
            what = "write_xyz(%s)" % sel
        if isinstance(R, Failure):
            continue
        mon.ok(R == 0, "%s %s: reports failure (%r) for a valid object" % (pkg, what, R), obj=obj)
        fn = os.path.join(sub, b + ".xyz")
        check_file(mon, g, fn, sel, obj, what)
        if not os.path.exists(fn):
            continue
        if sel == top:
            read_back(mon, g, ns, sub, b, V, nv, top, what)
        read_back(mon, g, ns, sub, b, V, nv, "vertex", what)
        # the same content, edited as a user would: no final newline / longer footer
        L = open(fn, encoding="utf-8").read().split("\n")
        L = L[:2 + len(V)]
        with open(os.path.join(d, "edited.xyz"), "w") as f:
            f.write("\n".join(L) + (r.choice(["", "\n", "\n\n", "\nremark 1 2 3\nmore\n"])))
        read_back(mon, g, ns, d, "edited", V, nv, top if sel == top else "vertex", "edited file")


def many(mon, pkg, seed, cells):
    """files of a whole domain: hundreds to thousands of cells, vertices, edges"""
    ns = load(pkg)
    g = Gen(pkg, seed_of(PROP, pkg, "many", seed, cells))
    top = "tetrahedron" if pkg == "ico2" else "triangle"
    obj = np.array([[g.point(3, 2, 3) for _ in range(g.nv)] for _ in range(cells)])
    d = mon.scratch
    for sel in (top, "vertex") + (() if cells > 2000 else ("edge",) + (("triangle",) if pkg == "ico2" else ())):
        o = obj if sel == top else obj[:, 0].copy() if sel == "vertex" else obj[:, :NUM[sel]].copy()
        mon.case("%s.many %s" % (pkg, sel), o)
        R = mon.call(ns.od.write, o, path=d, basename="many", format="xyz", select=sel)
        if isinstance(R, Failure):
            continue
        check_file(mon, g, os.path.join(d, "many.xyz"), sel, o, "write(xyz, %s) of %d" % (sel, cells))
        if sel in (top, "vertex"):
            read_back(mon, g, ns, d, "many", o.reshape(-1, 6, 3), NUM[sel], sel, "%d items" % cells)


def published(mon, n):
    """the files shipped with the repository"""
    for pkg, f in (("ico2", "src_cython/ico/xyz/RT_asymmeric"), ("ico2", "src_cython/ico/xyz/EC_asymmeric"), ("ico2", "examples/example1/rtod0"),
                   ("ico2", "examples/example1/common_od"), ("ico2", "examples/example2/rtod1"), ("ico2", "examples/example3/common_od_asym"),
                   ("ico2", "examples/example3/rtod1_asym"), ("ico2", "src_cython/ico/xyz/strt_asymmetric"), ("dode2", "src_cython/dode/tests/test1/obj1"),
                   ("dode2", "src_cython/dode/tests/test1/obj2"), ("dode2", "src_cython/dode/tests/test3/obj1")):
        p = os.path.join(REPO, f + ".xyz")
        if not os.path.exists(p):
            continue
        ns, g = load(pkg), Gen(pkg, 1)
        try:
            m, rows, foot = parse(p)
            V = np.array([k for _, k in rows], dtype=np.int64).reshape(-1, 6, 3)
        except ValueError:
            continue
        if len(V) % g.nv or len(V) > 400:
            continue
        mon.case("published file", f)
        d, b = os.path.split(p)
        read_back(mon, g, ns, d, b[:-4], V, g.nv, "tetrahedron" if pkg == "ico2" else "triangle", f)
        obj = V.reshape(-1, g.nv, 6, 3)
        R = mon.call(ns.od.write_xyz, obj, path=mon.scratch, basename="pub")
        if not isinstance(R, Failure):
            check_file(mon, g, os.path.join(mon.scratch, "pub.xyz"), "tetrahedron" if pkg == "ico2" else "triangle", obj, "write_xyz of " + f)


def jobs(tier, seed):
    n, k = (40, 8) if tier == "quick" else (400, 16)
    return [("run", {"pkg": p, "seed": seed * 1000 + i, "n": n}) for i in range(k) for p in ("ico2", "dode2")] + \
           [("published", {"n": 1})] + [("many", {"pkg": p, "seed": seed, "cells": c}) for p in ("ico2", "dode2") for c in (105, 1030, 2600 if p == "ico2" else 3400)]
