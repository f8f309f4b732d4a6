"""C29 compiled packages: asymmetric part of a domain"""
import numpy as np
from vlib import complexes as cx, isect, legacy
from vlib.mon import seed_of, Failure
from vlib.gen import Gen, group
from vlib.geom import clip, halfspaces
from vlib.region import intersection_problems
from checks.c16 import W5, tet
from checks.c25 import C, overflowed

PROP = "C29"
RULE = ("pyqcstrc.ico and pyqcstrc.dode are compiled from the working tree with overflow checks (a case exceeding 64 bits is counted, not judged). "
        "Asymmetric part: domains about a centre (symmetry images of the published unit, refined cells, grown cells) and cones (published units, their "
        "images, random ones); the icosahedral result must be exactly the part of the domain in the cone, the dodecagonal one the maximal border segments "
        "of that part. Non-trivial: non-empty part; distinct by arguments.")
ASSUMPTIONS = ["the domain lies within five (dodecagonal: ten) times the vectors of the cone, as the code documents",
               "no intermediate number exceeds 64 bits (observed by the overflow checks)"]
MIN = {"ico.part": 80, "ico.empty part": 3, "dode.part": 60}


def prepare(scratch):
    legacy.build(scratch, {"dode": ["occupation_domain"], "ico": ["occupation_domain"]}, overflow=True)


def domain(g, G_, u):
    r = g.rnd
    kind = r.choice(["images", "images", "refined cell", "grown"])
    if kind == "images":
        A = isect.dedupe_cells(g, np.concatenate([isect.apply(g, M, u) for M in r.sample(G_, r.randint(1, 5))]))
        if r.random() < 0.3:
            A = g.shift(A, g.lattice())
    else:
        A = np.array([g.simplex(1, 0, 1, 0.1)])
        A = cx.refine(g, A, r.randint(0, 2)) if kind == "refined cell" else cx.grow(g, A)
    return kind, A


def ico_part(mon, seed, n):
    od = legacy.load(mon, "ico", "occupation_domain")
    g = Gen("ico2", seed_of(PROP, "i", seed))
    r = g.rnd
    G_ = sorted(group("ico2"))
    u = isect.unit(g)
    zero = np.array([[0, 0, 1]] * 6, dtype=np.int64)
    it = 0
    while it < n:
        vecs = r.choice([u[0][1:], np.array(W5), None])
        if vecs is None:
            vecs = g.simplex(1, 0, 1, 0.1)
            vecs = np.array([g.comb2(v, vecs[0], 1, -1) for v in vecs[1:]])
        else:
            vecs = isect.apply(g, r.choice(G_), [vecs])[0]
        vecs = C(np.array(vecs)[r.sample(range(3), 3)])
        pos = r.choice([zero, g.lattice(), np.array([[1, 0, 2]] + [[0, 0, 1]] * 5)])
        kind, A = domain(g, G_, u)
        if r.random() < .25:                # reaching far out in the cone
            f = g.geo.K(r.choice([2, 3, 4]), 0, 1)
            A = np.array([[[g.style.canon(g.style.frm(t) * f) for t in v] for v in c] for c in A])
        A = g.shift(A, pos)
        C5, C40, C3 = tet(g, pos, vecs, 5), tet(g, pos, vecs, 40), tet(g, pos, vecs, 3)
        if g.quality(C5[0]) < 0.01:
            continue
        exp = intersection_problems(g, A, C40, None)[1]
        if intersection_problems(g, A, C5, None)[1] != exp or exp.is_zero() and r.random() < .8:
            continue
        it += 1
        mon.hit("ico.part beyond three times the vectors", int(intersection_problems(g, A, C3, None)[1] != exp))
        A = C(g.shuffle_vertices(A))
        R = mon.call(od.asymmetric, A, C(pos), vecs, quiet=True)
        mon.hit("ico kind " + kind)
        if overflowed(mon, R, "ico.asymmetric"):
            continue
        if isinstance(R, Failure):
            mon.bad("ico.asymmetric gave no result", why=R.text, A=A, pos=pos, vecs=vecs)
            continue
        R = np.asarray(R)
        pr, exp = intersection_problems(g, A, C40, None if R.size == 1 else R)
        mon.case("ico.part" if not exp.is_zero() else "ico.empty part", (A, pos, vecs), not exp.is_zero())
        for p in pr:
            mon.bad("ico.asymmetric (%s): %s" % (kind, p), A=A, pos=pos, vecs=vecs)


def polygon(g, T, U):
    """maximal border segments of the intersection of two triangles (exact), or None if it has no area"""
    pts = set()
    pc = clip([T], halfspaces(U), 2)
    for c in pc or []:
        pts |= set(c)
    if not pc:
        return None
    hs = cx.hull_halfspaces(list(pts), 2)
    segs = set()
    for nrm, k in hs:
        on = [p for p in pts if (nrm[0] * p[0] + nrm[1] * p[1] - k).is_zero()]
        d = (-nrm[1], nrm[0])
        on.sort(key=lambda p: d[0] * p[0] + d[1] * p[1])
        segs.add(frozenset((on[0], on[-1])))
    return segs


def dode_part(mon, seed, n):
    od = legacy.load(mon, "dode", "occupation_domain")
    g = Gen("dode2", seed_of(PROP, "d", seed))
    r = g.rnd
    G_ = sorted(group("dode2"))
    u = isect.unit(g)
    zero = np.array([[0, 0, 1]] * 6, dtype=np.int64)
    it = 0
    while it < n:
        # a convex domain: one cell, subdivided
        vecs = u[0][1:] if r.random() < .5 else None
        if vecs is None:
            vecs = g.simplex(1, 0, 1, 0.15)
            vecs = np.array([g.comb2(v, vecs[0], 1, -1) for v in vecs[1:]])
        else:
            vecs = isect.apply(g, r.choice(G_), [vecs])[0]
        pos = r.choice([zero, g.lattice(), np.array([[1, 0, 2]] + [[0, 0, 1]] * 5)])
        T = isect.apply(g, r.choice(G_), u)[0] if r.random() < .3 else g.simplex(*r.choice([(1, 0, 1), (1, 1, 1), (2, 0, 1)]), 0.15)
        A = g.shift([T], pos)
        cone = [np.array([[pos] + [g.comb2(pos, v, 1, k) for v in vecs]], dtype=np.int64) for k in (10, 60)]
        e10, e60 = (intersection_problems(g, A, c, None)[1] for c in cone)
        if e10 != e60 or e60.is_zero() or g.quality(cone[0][0]) < .02:
            continue
        it += 1
        want = polygon(g, cx.cells_p(g, A)[0], cx.cells_p(g, cone[1])[0])
        B = C(g.shuffle_vertices(cx.refine(g, A, r.randint(0, 2))))
        mon.case("dode.part", (B, pos, vecs))
        R = mon.call(od.asymmetric, B, C(pos), C(vecs), quiet=True)
        if overflowed(mon, R, "dode.asymmetric"):
            continue
        if isinstance(R, Failure):
            mon.bad("dode.asymmetric gave no result", why=R.text, obj=B, pos=pos, vecs=vecs)
            continue
        R = np.asarray(R)
        if R.ndim != 4 or R.shape[1:] != (2, 6, 3):
            mon.bad("dode.asymmetric: not a set of segments", got=R.shape, obj=B, pos=pos, vecs=vecs)
            continue
        got = [frozenset(cx.pkey(g, v) for v in e) for e in R]
        mon.ok(len(got) == len(set(got)) and set(got) == want, "dode.asymmetric: not the border of the part in the cone (%d segments, %d expected)"
               % (len(got), len(want)), obj=B, pos=pos, vecs=vecs)


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(8 if q else 16):
        s = seed * 1000 + i
        out += [("ico_part", {"seed": s, "n": 24 if q else 120}), ("dode_part", {"seed": s, "n": 24 if q else 200})]
    return out
