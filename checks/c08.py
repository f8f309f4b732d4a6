"""C08 translation of an occupation domain"""
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen

PROP = "C08"
RULE = ("objects of 1..6 cells (small and large coordinates, non-reduced entries) shifted by lattice, rational and irrational "
        "6D vectors, by zero, back again, and by two vectors in either order; each vertex compared with the exact sum, "
        "canonical. Distinct by (object, shift).")
MIN = {"ico2.shift": 100, "dode2.shift": 100}


def ex(g, v, d, k=1):
    st = g.style
    out = []
    for a, b in zip(v, d):
        x = st.frm(a)
        y = st.frm(b)
        out.append(st.canon(x + y if k > 0 else x - y))
    return tuple(out)


def same(got, want):
    a = np.asarray(got)
    return [tuple(tuple(int(x) for x in t) for t in v) for v in a.reshape(-1, 6, 3)] == want


def run(mon, pkg, seed, n):
    ns = load(pkg)
    g = Gen(pkg, seed_of(PROP, pkg, seed))
    r = g.rnd
    for it in range(n):
        mode = r.choice([(3, 2), (9, 6), (500, 40), (10**6, 1)])
        obj = np.array([[g.vec(6, *mode) for _ in range(g.nv)] for _ in range(r.choice([1, 1, 2, 3, 6]))])
        if r.random() < 0.4:
            obj = g.relate(obj, r.randint(1, 4))
        if r.random() < 0.1:
            obj = obj * r.choice([2, -1])
        kind = r.choice(["lattice", "zero", "rat", "field", "irr"])
        if kind == "lattice":
            d = np.array([[r.randint(-3, 3), 0, 1] for _ in range(6)])
        elif kind == "zero":
            d = np.array([[0, 0, 1]] * 6)
        elif kind == "rat":
            d = np.array([[r.randint(-5, 5), 0, r.randint(1, 6)] for _ in range(6)])
        elif kind == "irr":
            d = np.array([[0, r.randint(-3, 3), 1] for _ in range(6)])
        else:
            d = g.vec(6, *mode)
        if r.random() < 0.1:
            d = obj[0][0] * np.array([r.choice([1, -1]), 1, 1]) if r.random() < 0.5 else obj[0][0] * np.array([-1, -1, 1])
        want = [ex(g, v, d) for c in obj for v in c]
        for name, f in (("shift", ns.od.shift), ("shift_object", ns.utils.shift_object)):
            res = mon.call(f, obj, d)
            mon.case("%s.%s" % (pkg, name), (obj, d), kind != "zero",
                     sample={"pkg": pkg, "obj": obj, "shift": d} if it % 61 == 5 else None)
            mon.hit("shift kind " + kind)
            if isinstance(res, Failure):
                continue
            if res is None or np.asarray(res).shape != obj.shape:
                mon.bad("%s.%s: wrong shape" % (pkg, name), obj=obj, shift=d)
                continue
            mon.ok(same(res, want), "%s.%s: a vertex is not moved by exactly the given vector" % (pkg, name),
                   obj=obj, shift=d, got=res)
        # there and back again: representation is canonical, so equality is exact
        back = np.array([[-t[0], -t[1], t[2]] for t in d])
        if not isinstance(res, Failure) and res is not None:
            r2 = mon.call(ns.od.shift, res, back)
            if not isinstance(r2, Failure):
                zero = np.array([[0, 0, 1]] * 6)
                mon.ok(same(r2, [ex(g, v, zero) for c in obj for v in c]), "%s.shift back does not return to the start" % pkg,
                       obj=obj, shift=d)


def jobs(tier, seed):
    n, k = (250, 4) if tier == "quick" else (2500, 8)
    return [("run", {"pkg": p, "seed": seed * 1000 + i, "n": n}) for i in range(k) for p in ("ico2", "dode2")]
