"""C05 symmetric generation: exactly the images under every operator about the given centre"""
from collections import Counter
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen, group
from checks.c04 import mats

PROP = "C05"
RULE = ("objects of 1..5 cells (random, touching the centre, lying on mirror planes, large coordinates, with and without "
        "the two dummy axes) and centres (origin, lattice points, rational and irrational points) are expanded; the "
        "multiset of returned cells is compared with the images computed by an independent exact matrix action, cell "
        "by cell, canonical. Distinct by (object, centre).")
MIN = {"ico2.symmetric": 20, "dode2.symmetric": 40, "ico2.symmetric_0": 100, "dode2.symmetric_0": 100,
       "ico2.orbit": 20, "dode2.orbit": 40, "ico2.specific": 10, "dode2.specific": 10}


class Act:
    """independent action of an integer matrix about a centre"""

    def __init__(self, g, ops):
        self.g, self.ops = g, ops

    def vec(self, i, v, c):
        st, K = self.g.style, self.g.geo.K
        d = [st.frm(a) - st.frm(b) for a, b in zip(v, c)]
        out = []
        for r in range(6):
            s = st.frm(c[r])
            for k in range(6):
                m = self.ops[i][r][k]
                if m:
                    s = s + K(m) * d[k]
            out.append(st.canon(s))
        return tuple(out)


def cells(arr, nv):
    """multiset of cells; vertex order inside a cell is not part of the contract"""
    a = np.asarray(arr)
    a = a.reshape(-1, nv, 6, 3)
    return [tuple(sorted(tuple(tuple(int(x) for x in t) for t in v) for v in c)) for c in a]


def obj_and_centre(g, k):
    r = g.rnd
    big = r.random() < 0.15
    if g.pkg == "dode2" and r.random() < 0.8:
        pt = lambda: g.point(3, 2, 3)
    else:
        pt = lambda: (g.vec(6, 300, 20) if big else g.vec(6, 4, 3))
    obj = np.array([[pt() for _ in range(g.nv)] for _ in range(k)])
    if k > 1 and r.random() < 0.6:
        obj = g.relate(obj[:1], k - 1)
    elif r.random() < 0.15:                 # beyond 32 bits
        obj[:, :, :, :2] *= r.choice([2**31, 2**33 + 1, 3**24])
    mode = r.choice(["zero", "lattice", "rat", "field", "vertex", "irr", "axis", "same"])
    if mode == "zero":
        c = np.array([[0, 0, 1]] * 6)
    elif mode == "lattice":
        c = np.array([[r.randint(-2, 2), 0, 1] for _ in range(6)])
    elif mode == "rat":
        c = np.array([[r.randint(-1, 1), 0, 2] for _ in range(6)])
    elif mode == "field":
        c = g.vec(6, 4, 3)
    elif mode == "irr":
        c = np.array([[0, r.randint(-3, 3), r.randint(1, 3)] for _ in range(6)])
    elif mode == "axis":
        c = np.array([[0, 0, 1]] * 6)
        c[r.randrange(4)] = r.choice([[0, 1, 1], [1, 0, 2], [0, -1, 2], [1, 1, 3]])
    elif mode == "same":
        c = np.array([r.choice([[0, 1, 1], [1, 0, 2], [-1, 1, 3]])] * 6)
    else:
        c = obj[0][0].copy()
    if g.pkg == "dode2" and r.random() < 0.7:
        c[4] = c[5] = [0, 0, 1]
    if r.random() < 0.25:                   # several vertices at the centre
        obj[:, 0] = c
    return obj, c, mode


def compare(mon, what, got, want, nv, **ctx):
    if isinstance(got, Failure):
        return
    if got is None:
        mon.bad("%s returned nothing" % what, **ctx)
        return
    a = np.asarray(got)
    if a.shape[-2:] != (6, 3) or a.size % (nv * 18):
        mon.bad("%s returned shape %s" % (what, a.shape), **ctx)
        return
    gc, wc = Counter(cells(a, nv)), Counter(want)
    if gc != wc:
        miss, extra = list((wc - gc).elements()), list((gc - wc).elements())
        mon.bad("%s: wrong set of images (%d missing, %d foreign)" % (what, len(miss), len(extra)),
                missing=miss[:1], foreign=extra[:1], **ctx)


def run(mon, pkg, seed, n):
    ns = load(pkg)
    S = ns.symmetry
    g = Gen(pkg, seed_of(PROP, pkg, seed))
    r = g.rnd
    ops = mats(mon.call(S.icosasymop if pkg == "ico2" else S.dodesymop))
    G = sorted(group(pkg))
    act = Act(g, ops)
    indep = Act(g, G)
    nv = g.nv
    gen0 = S.generator_obj_symmetric_tetrahedron_0 if pkg == "ico2" else S.generator_obj_symmetric_triangle_0
    genT = S.generator_obj_symmetric_tetrahedron if pkg == "ico2" else S.generator_obj_symmetric_triangle
    genS = S.generator_obj_symmetric_tetrahedron_specific_symop if pkg == "ico2" else \
        S.generator_obj_symmetric_triangle_specific_symop
    for it in range(n):
        k = r.choice([1, 1, 2, 3, 5])
        obj, c, mode = obj_and_centre(g, k)
        want = [tuple(sorted(indep.vec(i, v, c) for v in ce)) for i in range(len(G)) for ce in obj]
        res = mon.call(ns.od.symmetric, obj, c)
        mon.case("%s.symmetric" % pkg, (obj, c), sample={"pkg": pkg, "obj": obj, "centre": c, "images": len(want)}
                 if it % 40 == 3 else None)
        mon.hit("%s.centre:%s" % (pkg, mode))
        compare(mon, "%s.symmetric" % pkg, res, want, nv, obj=obj, centre=c)
        if not isinstance(res, Failure) and res is not None:
            mon.ok(np.asarray(res).shape == (len(G) * k, nv, 6, 3), "%s.symmetric has the wrong shape" % pkg,
                   shape=np.asarray(res).shape, cells=k)
        # single cell (3-dim array)
        w1 = [tuple(sorted(indep.vec(i, v, c) for v in obj[0])) for i in range(len(G))]
        compare(mon, "%s.symmetric(single cell)" % pkg, mon.call(ns.od.symmetric, obj[0], c), w1, nv, obj=obj[0], centre=c)
        # other entry points with the same contract
        for f in (S.generator_obj_symmetric_obj, genT) + ((S.generator_obj_symmetric_surface,) if pkg == "ico2" else ()):
            if it % 4 == 0:
                compare(mon, "%s.%s" % (pkg, f.__name__), mon.call(f, obj, c), want, nv, obj=obj, centre=c)
        # one operator
        for _ in range(6):
            i = r.randrange(len(ops))
            w = [tuple(sorted(act.vec(i, v, c) for v in ce)) for ce in obj]
            mon.case("%s.symmetric_0" % pkg, (obj, c, i))
            compare(mon, "%s.symmetric_0" % pkg, mon.call(ns.od.symmetric_0, obj, c, i), w, nv, obj=obj, centre=c, index=i)
            compare(mon, "%s.symmetric_0(single cell)" % pkg, mon.call(ns.od.symmetric_0, obj[0], c, i), w[:1], nv,
                    obj=obj[0], centre=c, index=i)
            compare(mon, "%s.symop_obj" % pkg, mon.call(S.symop_obj, np.array(ops[i]), obj, c), w, nv, obj=obj,
                    centre=c, index=i)
            compare(mon, "%s.%s" % (pkg, gen0.__name__), mon.call(gen0, obj, c, i), w, nv, obj=obj, centre=c, index=i)
            vt = mon.call(S.symop_obj, np.array(ops[i]), obj[0][0], c)
            compare(mon, "%s.symop_obj(vector)" % pkg, vt, [(act.vec(i, obj[0][0], c),)], 1, v=obj[0][0], centre=c, index=i)
            if pkg == "dode2":
                vt = mon.call(S.generator_symmetric_vec_0, obj[0][0], c, i)
                compare(mon, "dode2.generator_symmetric_vec_0", vt, [(act.vec(i, obj[0][0], c),)], 1, v=obj[0][0],
                        centre=c, index=i)
            # an operator leaves the centre where it is
            fx = mon.call(S.symop_vec, np.array(ops[i]), c, c)
            compare(mon, "%s: centre under operator" % pkg, fx, [(tuple(g.style.canon(g.style.frm(t)) for t in c),)], 1,
                    centre=c, index=i)
        lst = r.sample(range(len(ops)), r.randint(1, 7))
        w = [tuple(sorted(act.vec(i, v, c) for v in ce)) for i in lst for ce in obj]
        mon.case("%s.specific" % pkg, (obj, c, lst))
        res = mon.call(genS, obj, c, lst)
        compare(mon, "%s.%s" % (pkg, genS.__name__), res, w, nv, obj=obj, centre=c, list=lst)
        if not isinstance(res, Failure) and res is not None and np.asarray(res).size == len(lst) * obj.size:
            for j, blk in enumerate(np.asarray(res).reshape((len(lst),) + obj.shape)):
                compare(mon, "%s.%s: %d-th index" % (pkg, genS.__name__, j), blk, w[j * len(obj):(j + 1) * len(obj)], nv,
                        obj=obj, centre=c, list=lst)
        # orbits of points: every distinct image exactly once
        pts = obj[:, 0]
        v = pts[:1] if r.random() < 0.5 else np.array([[[r.randint(-1, 1), 0, 1] for _ in range(6)]])
        if r.random() < 0.25:                             # different points of one internal component
            v = np.array([g.alias(r.choice([c, v[0]]))])
        orbit = {indep.vec(i, v[0], c) for i in range(len(G))}
        res = mon.call(S.generator_equivalent_vec, v, c)
        mon.case("%s.orbit" % pkg, (v, c))
        mon.hit("%s.orbit size %d" % (pkg, len(orbit)))
        compare(mon, "%s.generator_equivalent_vec" % pkg, res, [(x,) for x in orbit], 1, v=v, centre=c)
        res = mon.call(S.generator_obj_symmetric_vec, pts, c)
        compare(mon, "%s.generator_obj_symmetric_vec" % pkg, res,
                [(indep.vec(i, x, c),) for i in range(len(G)) for x in pts], 1, v=pts, centre=c)
        res = mon.call(S.generator_equivalent_vectors, v, c)
        perp = {}
        for x in orbit:
            perp.setdefault(g.geo.perp(x), x)
        if not isinstance(res, Failure):
            got = [g.geo.perp(x) for x in np.asarray(res)]
            mon.ok(len(got) == len(set(got)) and set(got) == set(perp),
                   "%s.generator_equivalent_vectors: not each internal-space image once" % pkg, v=v, centre=c)


def jobs(tier, seed):
    if tier == "quick":
        return [("run", {"pkg": p, "seed": seed * 1000 + i, "n": {"ico2": 12, "dode2": 40}[p]})
                for i in range(4) for p in ("ico2", "dode2")]
    return [("run", {"pkg": p, "seed": seed * 1000 + i, "n": {"ico2": 120, "dode2": 400}[p]})
            for i in range(8) for p in ("ico2", "dode2")]
