"""C13 convex intersection"""
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen, group
from vlib import complexes as cx, isect
from vlib.region import intersection_problems

PROP = "C13"
RULE = ("pairs of convex objects (a cell, conforming refinements of a cell, hulls of random points triangulated by the oracle-checked "
        "decomposition, the whole symmetric star of the published asymmetric unit or a convex part): general, nested, touching, disjoint, nearly coincident (as C11), hulls of orbits of the point group (up to 120 corners) with a large cell and with each other, "
        "lattice translates, with different 6D representatives. The exact measure of the result must equal the exact measure of the "
        "common region and every piece must lie in it. Non-trivial: common region of positive measure; distinct by pair.")
ASSUMPTIONS = ["each operand is convex and its cells do not overlap (required by the documentation)"]
MIN = {"ico2.non-empty": 30, "ico2.empty": 8, "dode2.non-empty": 60, "dode2.empty": 15, "ico2.many corners": 15, "dode2.many corners": 25}


def convex(g, ns):
    r = g.rnd
    k = r.random()
    mag = r.choice([1, 2])
    T = np.array([g.simplex(mag, 0, 1, 0.12)])
    if k < 0.35:
        return T
    if k < 0.6:
        return cx.refine(g, T, r.randint(1, 2))
    if k < 0.75 and g.dim == 2:
        # regular dodecagon star or a sector of it (convex: consecutive half turn or all)
        return isect.dedupe_cells(g, np.concatenate([isect.apply(g, M, isect.unit(g)) for M in sorted(group(g.pkg))]))
    # hull of a few points: fan from an interior point over exact facets
    n = r.randint(g.nv, g.nv + 3)
    for _ in range(50):
        P = [g.point(mag, 0, 1) for _ in range(n)]
        F = fan(g, P)
        if F is not None and min(g.quality(c) for c in F) > 0.05:
            return F
    return T


def fan(g, P):
    """exact decomposition of the hull of 6D points: cones from the centroid over triangulated facets"""
    key = {cx.pkey(g, v): v for v in P}
    pts = list(key)
    if len(pts) < g.nv:
        return None
    hs = cx.hull_halfspaces(pts, g.dim)
    if len(hs) < g.nv:
        return None
    c = g.comb([key[p] for p in pts], [1] * len(pts))
    out = []
    from vlib.geom import dot, sub, cross
    for n, k in hs:
        on = [p for p in pts if (dot(n, p) - k).is_zero()]
        if g.dim == 2:
            # extreme two, with the points between them
            o0 = on[0]
            d = sub(on[1], o0)
            on.sort(key=lambda p: float(dot(sub(p, o0), d)))
            for a, b in zip(on, on[1:]):
                out.append([c, key[a], key[b]])
        else:
            # order around the facet's centre (float angles suffice), extreme points only if strictly convex
            nf = np.array([float(x) for x in n])
            F = np.array([[float(x) for x in p] for p in on])
            m = F.mean(axis=0)
            e1 = F[0] - m
            e2 = np.cross(nf, e1)
            ang = [np.arctan2((f - m) @ e2, (f - m) @ e1 * np.linalg.norm(nf)) for f in F]
            o = [on[i] for i in np.argsort(ang)]
            # drop points that are not strict corners
            ch = True
            while ch and len(o) > 3:
                ch = False
                for i in range(len(o)):
                    a, b, d = o[i - 1], o[i], o[(i + 1) % len(o)]
                    if dot(n, cross(sub(b, a), sub(d, b))).sign() <= 0:
                        # orientation of the walk may be reversed: test against the majority
                        if sum(dot(n, cross(sub(o[j], o[j - 1]), sub(o[(j + 1) % len(o)], o[j]))).sign() for j in range(len(o))) > 0:
                            o.pop(i)
                            ch = True
                            break
            for i in range(1, len(o) - 1):
                out.append([c, key[o[0]], key[o[i]], key[o[i + 1]]])
    return np.array(out, dtype=np.int64)


def run(mon, pkg, seed, n):
    ns = load(pkg)
    g = Gen(pkg, seed_of(PROP, pkg, seed))
    r = g.rnd
    from vlib.geom import Solid
    it = 0
    while it < n:
        A = convex(g, ns)
        kind = r.choice(["general", "general", "shift", "nested", "same", "apart", "touch", "near"])
        if kind == "general":
            B = convex(g, ns)
        elif kind == "shift":
            B = g.shift(A, g.lattice())
        elif kind == "nested":
            cen = g.comb([v for v in A.reshape(-1, 6, 3)], [1] * (len(A) * g.nv))
            B = np.array([[g.comb([v, cen], [1, r.choice([1, 1, 2])]) for v in c] for c in A[:1]])
        elif kind == "near":
            A, B = [np.array([x]) for x in isect.near_pair(g)]
        elif kind == "same":
            B = cx.refine(g, A, 1)
        elif kind == "apart":
            B = g.shift(A, np.array([[25, 0, 1]] + [[0, 0, 1]] * 5))
        else:
            # point-reflected through a vertex: they meet at that vertex only
            p = r.choice(list(A.reshape(-1, 6, 3)))
            B = np.array([[g.comb2(g.comb2(p, p, 1, 1), v, 1, -1) for v in c] for c in A])
        # operands must be convex
        ok = True
        for X in (A, B):
            pts = [p for c in cx.cells_p(g, X) for p in c]
            s = Solid(g.geo, X, g.dim)
            if len(X) > 1 and cx.hull_measure(pts, g.dim) != s.measure():
                ok = False
            if min(g.quality(c) for c in X) < 0.04:
                ok = False
        if not ok or len(A) + len(B) > (26 if g.dim == 3 else 60):
            continue
        it += 1
        if r.random() < 0.4:
            A, B = cx.alias_some(g, A), cx.alias_some(g, B)
        A, B = g.shuffle_vertices(A), g.shuffle_vertices(B)
        R = mon.call(ns.ods.intersection_convex, A, B, rng=r.randrange(1 << 30))
        mon.hit("kind " + kind)
        if isinstance(R, Failure):
            mon.case("failed", (A, B))
            continue
        pr, exp = intersection_problems(g, A, B, R)
        ne = not exp.is_zero()
        mon.case(pkg + (".non-empty" if ne else ".empty"), (A, B), ne,
                 sample={"pkg": pkg, "kind": kind, "cells": [len(A), len(B)], "common measure": float(exp) / (6 if g.dim == 3 else 2)} if it % 7 == 2 else None)
        for p in pr:
            mon.bad("%s convex intersection (%s): %s" % (pkg, kind, p), A=A, B=B, R=R)


def orbit_hull(g, lo=None, hi=999):
    """hull of the orbit of one vector under the point group (up to 120 / 24 corners), coned from the centre"""
    from scipy.spatial import ConvexHull
    r = g.rnd
    z = np.array([[0, 0, 1]] * 6)
    while True:
        p = g.point(2, r.choice([0, 1]), 1)
        P = {}
        for M in sorted(group(g.pkg)):
            v = isect.apply(g, M, np.array([[p]]))[0][0]
            P.setdefault(cx.pkey(g, v), v)
        if not (lo or (60 if g.dim == 3 else 12)) <= len(P) <= hi:
            continue
        pts = list(P.values())
        F = np.array([[float(x) for x in k] for k in P])
        if min(np.linalg.norm(F[i] - F[j]) for i in range(len(F)) for j in range(i)) < 0.15:
            continue
        h = ConvexHull(F)
        if len(h.vertices) != len(F):
            continue
        A = np.array([[z] + [pts[i] for i in f] for f in h.simplices])
        # the facets must close up and the cells must not be slivers
        c = cx.faces([tuple(cx.pkey(g, v) for v in cc[1:]) for cc in A], g.dim - 1)
        if set(c.values()) != {2} or min(g.quality(cc) for cc in A) < 0.01:
            continue
        return A


def judge_large(mon, g, ns, X, Y):
    pkg, r = g.pkg, g.rnd
    R = mon.call(ns.ods.intersection_convex, X, Y, rng=r.randrange(1 << 30))
    if isinstance(R, Failure):
        mon.case("failed", (X, Y))
        return
    pr, exp = intersection_problems(g, X, Y, R)
    mon.case(pkg + ".many corners", (X, Y), not exp.is_zero())
    mon.hit("many corners: %d+ and %d+ cells, result of %s" % (len(X) // 50 * 50, len(Y) // 50 * 50, "none" if R is None else "%d+" % (len(R) // 100 * 100)))
    for p in pr:
        mon.bad("%s convex intersection (many corners): %s" % (pkg, p), A=X, B=Y, R=R)


def large(mon, pkg, seed, n, two=False):
    """convex domains with many corners, with a large cell or with each other"""
    ns = load(pkg)
    g = Gen(pkg, seed_of(PROP, "large", pkg, seed))
    r = g.rnd
    it = 0
    while it < n:
        if two:
            A = orbit_hull(g, 20 if g.dim == 3 else 12, 32)
            B = g.shift(orbit_hull(g, 12, 32), g.point(1, 0, 1))
            if r.random() < 0.3:
                B = g.shift(A, g.lattice())
            if not all(isect.clear_pair(g, a, b) for a in A for b in B):
                continue
            X, Y = g.shuffle_vertices(A), g.shuffle_vertices(B)
            it += 1
            judge_large(mon, g, ns, X, Y)
            continue
        A = orbit_hull(g)
        # a large cell that cuts the domain, or holds nearly all of it
        z = np.array([[0, 0, 1]] * 6)
        B = np.array([g.simplex(1, 0, 1, 0.15)])
        cen = g.comb(list(B[0]), [1] * g.nv)
        f = r.choice([3, 4, 6])
        B = np.array([[g.comb2(g.comb2(v, cen, 1, -1), z, f, 0) for v in B[0]]])
        B = np.array([[g.add6(v, g.point(1, 0, 1)) for v in B[0]]])
        if g.quality(B[0]) < 0.08 or not all(isect.clear_pair(g, a, B[0]) for a in A):
            continue
        it += 1
        o = list(range(len(A)))
        r.shuffle(o)
        X, Y = g.shuffle_vertices(A[o]), g.shuffle_vertices(B)
        if r.random() < 0.5:
            X, Y = Y, X
        judge_large(mon, g, ns, X, Y)


def jobs(tier, seed):
    n, m, k = (20, 60, 16) if tier == "quick" else (40, 150, 16)
    return [("run", {"pkg": "ico2", "seed": seed * 1000 + i, "n": n}) for i in range(k)] + \
           [("run", {"pkg": "dode2", "seed": seed * 1000 + i, "n": m}) for i in range(k)] + \
           [("large", {"pkg": "ico2", "seed": seed * 1000 + i, "n": 3 if tier == "quick" else 12}) for i in range(8)] + \
           [("large", {"pkg": "ico2", "seed": seed * 1000 + 500 + i, "n": 1 if tier == "quick" else 6, "two": True}) for i in range(4)] + \
           [("large", {"pkg": "dode2", "seed": seed * 1000 + 500 + i, "n": 4 if tier == "quick" else 30, "two": True}) for i in range(4)] + \
           [("large", {"pkg": "dode2", "seed": seed * 1000 + i, "n": 6 if tier == "quick" else 60}) for i in range(4)]
