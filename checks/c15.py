"""C15 simplification keeps the region; convex hull and decomposition of point sets"""
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen
from vlib.geom import Solid
from vlib import complexes as cx
from vlib.region import same_region_problems, disjoint_problems, as_obj

PROP = "C15"
RULE = ("simplification: conforming objects, convex and not, and non-conforming subdivisions; the result must cover exactly the region of "
        "the object (exact measure and exact containment of every piece). Hull: the result must be non-overlapping cells with vertices "
        "among the vertices of the object filling exactly the convex hull (exact measure). Point sets: the same for "
        "tetrahedralization_points/triangulation_points, nothing for flat sets. Non-trivial: all; distinct by object.")
ASSUMPTIONS = ["cells of the object do not overlap and are not thinner than about 1/100 of their size"]
MIN = {"ico2.simplify convex": 15, "dode2.simplify convex": 40, "ico2.simplify not convex": 15, "dode2.simplify not convex": 40,
       "ico2.hull": 30, "dode2.hull": 80, "ico2.points": 30, "dode2.points": 60, "ico2.flat points": 8, "dode2.flat points": 8}


def hull_problems(g, pts, R, what):
    """R fills the hull of the exact points pts"""
    R = as_obj(g, R)
    s = Solid(g.geo, R, g.dim)
    pr = []
    P = set(pts)
    if any(p not in P for c in s.cells for p in c):
        pr.append("%s: a vertex of the result is not one of the given points" % what)
    want = cx.hull_measure(list(P), g.dim)
    if s.measure() != want:
        pr.append("%s: measure %.9g, of the convex hull %.9g" % (what, float(s.measure()), float(want)))
    elif disjoint_problems(g, R):
        pr.append("%s: cells overlap" % what)
    if any(s.cell_measure(c).is_zero() for c in s.cells):
        pr.append("%s: flat cells in the result" % what)
    return pr


def dented(g, inward):
    """a cell with a shallow dent (without the thin cell between an inner point near a face and that face), or with a
    shallow bump (with a thin cell on a face); as shallow as 1e-4 of the size"""
    r = g.rnd
    from checks.c10 import comb_w
    while True:
        T = g.simplex(2, r.choice([0, 1]), 1, 0.15)
        big = r.choice([20, 60, 200, 1000] if g.dim == 2 else [20, 200, 2000, 8000, 10**5, 10**6, 10**7, 10**8])
        w = [r.randint(big // 3, big) for _ in range(g.nv)]
        w[0] = 1 if inward else -1
        O = comb_w(g, T, w, sum(w))
        if g.dim == 3:
            break
        P, A, B = (np.array([float(x) for x in cx.pkey(g, v)]) for v in (O, T[1], T[2]))
        # clear of the tolerance by which a point is said to be on a segment
        if all(np.linalg.norm(P - a) * np.linalg.norm(b - a) - np.dot(P - a, b - a) > 4e-6 for a, b in ((A, B), (B, A))):
            break
    cells = []
    if inward:
        for j in range(1, g.nv):
            c = T.copy()
            c[j] = O
            cells.append(c)
    else:
        c = T.copy()
        c[0] = O
        cells = [T.copy(), c]
    return g.shuffle_vertices(np.array(cells)), "shallow dent" if inward else "shallow bump"


def run(mon, pkg, seed, n):
    ns = load(pkg)
    u, od = ns.utils, ns.od
    g = Gen(pkg, seed_of(PROP, pkg, seed))
    r = g.rnd
    tp = u.tetrahedralization_points if pkg == "ico2" else u.triangulation_points
    k = 6 if g.dim == 3 else 2
    for it in range(n):
        kind, A = cx.make(g, 10)
        if r.random() < 0.2:
            A = g.shuffle_vertices(g.subdivide([g.simplex(2, 0, 1, 0.1)], r.randint(1, 4), 2))
            kind = "not conforming"
        elif r.random() < 0.35:
            A, kind = dented(g, r.random() < 0.5)
            mon.hit("%s.%s" % (pkg, kind))
        rng = r.randrange(1 << 30)
        pts = [p for c in cx.cells_p(g, A) for p in c]
        hm = cx.hull_measure(pts, g.dim)
        m = Solid(g.geo, A, g.dim).measure()
        convex = hm == m
        S = mon.call(od.simplification, A, rng=rng)
        mon.hit("kind " + kind)
        mon.case(pkg + (".simplify convex" if convex else ".simplify not convex"), A,
                 sample={"pkg": pkg, "kind": kind, "cells": len(A), "convex": convex, "measure": float(m) / k,
                         "cells after": None if S is None or isinstance(S, Failure) else len(S)} if it % 13 == 3 else None)
        if S is None:
            mon.bad("%s simplification returned nothing" % pkg, obj=A)
        elif not isinstance(S, Failure):
            for p in same_region_problems(g, A, S):
                mon.bad("%s simplification (%s): %s" % (pkg, kind, p), obj=A, got=S)
            if len(S) < len(A):
                mon.hit(pkg + ".fewer cells after")
        H = mon.call(u.generate_convex_hull, A, rng=rng)
        if kind != "not conforming":
            mon.case(pkg + ".hull", A)
            if H is None:
                mon.bad("%s generate_convex_hull returned nothing" % pkg, obj=A)
            elif not isinstance(H, Failure):
                for p in hull_problems(g, pts, H, pkg + " convex hull"):
                    mon.bad(p, obj=A, got=H)
        # point sets
        np_ = r.randint(g.nv, 9)
        flat = r.random() < 0.25
        c = g.simplex(2, r.choice([0, 1]), 1, 0.12)
        if flat:
            base = c[:g.dim]
        else:
            base = c
        P = [v for v in base] if not flat else [v for v in base]
        while len(P) < np_:
            w = [r.randint(0, 3) for _ in base]
            if sum(w):
                P.append(g.comb(list(base), w))
        seen, Q = set(), []
        for v in P:
            q = cx.pkey(g, v)
            if q not in seen:
                seen.add(q)
                Q.append(v)
        if not flat and r.random() < 0.5:
            # further points, not in the simplex
            for _ in range(r.randint(1, 4)):
                v = g.point(2, 0, 1)
                q = cx.pkey(g, v)
                if q not in seen:
                    seen.add(q)
                    Q.append(v)
        if not flat and r.random() < 0.3:
            # a point just outside a face: a thin cell of the hull
            A, _ = dented(g, False)
            seen, Q = set(), []
            for c in A:
                for v in c:
                    if cx.pkey(g, v) not in seen:
                        seen.add(cx.pkey(g, v))
                        Q.append(v)
        elif not flat and r.random() < 0.3:
            # points close to one corner: small cells
            m = r.choice([8, 20, 45])
            for j in range(1, g.nv):
                v = g.comb([c[0], c[j]], [m - 1, 1])
                if cx.pkey(g, v) not in seen:
                    seen.add(cx.pkey(g, v))
                    Q.append(v)
        r.shuffle(Q)
        Q = np.array(Q)
        R = mon.call(tp, Q, rng=rng)
        mon.case(pkg + (".flat points" if flat else ".points"), Q)
        if isinstance(R, Failure):
            continue
        if flat:
            if R is not None:
                mon.ok(Solid(g.geo, as_obj(g, R), g.dim).measure().is_zero(), "%s decomposition of a flat point set has a measure" % pkg, pts=Q)
        elif R is None:
            mon.bad("%s decomposition of a point set returned nothing" % pkg, pts=Q)
        else:
            for p in hull_problems(g, list(seen), R, pkg + " decomposition of points"):
                mon.bad(p, pts=Q, got=R)


def jobs(tier, seed):
    n, m, k = (5, 16, 16) if tier == "quick" else (50, 150, 16)
    return [("run", {"pkg": "ico2", "seed": seed * 1000 + i, "n": n}) for i in range(k)] + \
           [("run", {"pkg": "dode2", "seed": seed * 1000 + i, "n": m}) for i in range(k)]
