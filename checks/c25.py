"""C25 compiled packages: intersections of occupation domains"""
import numpy as np
from vlib import isect, legacy
from vlib.mon import seed_of, Failure
from vlib.gen import Gen
from vlib.geom import in_tri
from vlib.region import intersection_problems, as_obj

PROP = "C25"
RULE = ("pyqcstrc.dode and pyqcstrc.ico are compiled from the working tree with overflow checks: a result that does not fit the 64-bit "
        "integers of the compiled arithmetic raises, and such a case is outside the domain of the property (counted, not judged). "
        "Pairs of domains as for C11 and C12: general position, same region cut differently, lattice shifts, shared facets, nested, "
        "apart, nearly coincident, meeting at their tips, parts of related measure, many scattered cells, aligned at vertices, edges and faces, symmetric domains. The result is compared with the exact common region (every piece "
        "inside both, total measure equal). Segments: crossing at inner points, at end points, missing. Non-trivial: non-empty common "
        "region; distinct by arguments.")
MIN = {"ico.non-empty": 60, "ico.empty": 6, "dode.non-empty": 200, "dode.empty": 20, "ico.convex non-empty": 10, "ico.convex empty": 2,
       "ico.aligned non-empty": 300, "dode.aligned non-empty": 300, "segments meet": 100, "segments miss": 60}
ASSUMPTIONS = ["cells of one domain do not overlap", "no intermediate number exceeds 64 bits (observed by the overflow checks)"]


def prepare(scratch):
    legacy.build(scratch, {"dode": ["occupation_domain", "intsct12"], "ico": ["two_occupation_domains"]}, overflow=True)


def C(a):
    return np.ascontiguousarray(np.asarray(a, dtype=np.int64))


def overflowed(mon, R, what):
    if isinstance(R, Failure) and "OverflowError" in R.text:
        mon.hit("%s: 64 bits exceeded, not judged" % what)
        return True
    return False


def judge(mon, g, what, kind, A, B, R, key):
    if overflowed(mon, R, what):
        return
    if isinstance(R, Failure):
        mon.case("%s.failed" % what, key)
        mon.bad("%s intersection (%s) gave no result" % (what, kind), why=R.text, A=A, B=B)
        return
    R = np.asarray(R)
    none = R.size == 1
    if not none and (R.dtype.kind != "i" or R.ndim != 4 or R.shape[1:] != (g.nv, 6, 3)):
        mon.bad("%s intersection (%s): not a domain" % (what, kind), got=R.shape, A=A, B=B)
        return
    pr, exp = intersection_problems(g, A, B, None if none else R)
    ne = not exp.is_zero()
    mon.case("%s%s" % (what, "non-empty" if ne else "empty"), key, ne)
    if not none:
        mon.hit("pieces judged", len(R))
    for p in pr:
        mon.bad("%s intersection (%s): %s" % (what, kind, p), A=A, B=B, R=None if none else R)


def pairs(mon, pkg, seed, n):
    g = Gen(pkg + "2", seed_of(PROP, "p", pkg, seed))
    r = g.rnd
    if pkg == "dode":
        od = legacy.load(mon, pkg, "occupation_domain")
    else:
        t = legacy.load(mon, pkg, "two_occupation_domains")
    for it in range(n):
        kind, A, B = isect.make(g)
        A, B = C(A), C(B)
        mon.hit("kind " + kind)
        if pkg == "dode":
            R = mon.call(od.intersection, A, B, quiet=True)
            judge(mon, g, "dode.", kind, A, B, R, (A, B))
        else:
            flag = r.randrange(2)
            a = A.reshape(-1, 6, 3) if r.random() < .2 else A
            b = B.reshape(-1, 6, 3) if r.random() < .2 else B
            R = mon.call(t.intersection, a, b, flag, quiet=True)
            judge(mon, g, "ico.", "flag %d, %s" % (flag, kind), A, B, R, (A, B, flag))


def aligned(mon, pkg, seed, n):
    """single cells with vertices on the vertices, edges, faces of each other: crossings at ends and on edges"""
    g = Gen(pkg + "2", seed_of(PROP, "a", pkg, seed))
    r = g.rnd
    if pkg == "dode":
        f = legacy.load(mon, pkg, "occupation_domain").intersection
    else:
        ods = legacy.load(mon, pkg, "two_occupation_domains")
    for it in range(n):
        T = g.simplex(*r.choice([(1, 0, 1), (2, 0, 1), (1, 0, 2)]), 0.1)
        for _ in range(200):
            U = []
            for _ in range(g.nv):
                k = r.choice([1, 2, 2, 3, g.nv])
                U.append(g.comb([T[j] for j in r.sample(range(g.nv), k)], [r.randint(1, 2) for _ in range(k)]))
            U = np.array(U)
            if r.random() < .4:
                U[0] = g.comb2(U[0], U[1], 2, -1)
            if g.quality(U) > .05:
                break
        else:
            continue
        A, B = C([T]), C([U])
        if r.random() < .5:
            A, B = B, A
        if pkg == "dode":
            R = mon.call(f, A, B, quiet=True)
        else:
            R = mon.call(ods.intersection, A, B, r.randrange(2), quiet=True)
        judge(mon, g, pkg + ".aligned ", "cells", A, B, R, (A, B))


def near(mon, pkg, seed, n):
    """cells that nearly coincide or nearly touch"""
    g = Gen(pkg + "2", seed_of(PROP, "n", pkg, seed))
    r = g.rnd
    ods = legacy.load(mon, pkg, "occupation_domain" if pkg == "dode" else "two_occupation_domains")
    for it in range(n):
        T, U = isect.near_pair(g, (20, 30, 60, 100, 200, 400) if pkg == "dode" else (20, 30, 60, 100))
        A, B = C([T]), C([U])
        R = mon.call(ods.intersection, A, B, *(() if pkg == "dode" else (r.randrange(2),)), quiet=True)
        judge(mon, g, pkg + ".near ", "nearly coincident cells", A, B, R, (A, B))


def extra(mon, pkg, seed, n, many):
    """cells that meet at their tips only, parts with a related measure, many scattered cells"""
    g = Gen(pkg + "2", seed_of(PROP, "x", pkg, seed))
    r = g.rnd
    ods = legacy.load(mon, pkg, "occupation_domain" if pkg == "dode" else "two_occupation_domains")
    L = []
    for _ in range(n):
        if pkg == "dode":                          # in three dimensions the numbers exceed 64 bits
            L.append(("tips",) + tuple(C([x]) for x in isect.tip_pair(g, (8, 10, 12), 0.9)))
        L.append(("related measure",) + tuple(C([x]) for x in isect.ratio_pair(g)))
    for m in many:
        L.append(("many cells",) + tuple(C(x) for x in isect.scattered(g, m, 4)))
    for kind, A, B in L:
        if r.random() < (.3 if kind == "many cells" else .5):
            A, B = B, A
        R = mon.call(ods.intersection, A, B, *(() if pkg == "dode" else (r.randrange(2),)), quiet=True)
        judge(mon, g, "%s.%s " % (pkg, kind), kind, A, B, R, (A, B))


def convex(mon, seed, n):
    """intersection_convex of two convex domains"""
    g = Gen("ico2", seed_of(PROP, "c", seed))
    r = g.rnd
    t = legacy.load(mon, "ico", "two_occupation_domains")
    for it in range(n):
        mag, bm, cm = r.choice([(1, 0, 1), (2, 0, 1), (1, 1, 1)])
        T = g.simplex(mag, bm, cm, 0.1)
        kind = r.choice(["general", "same", "nested", "aligned", "aligned", "around", "apart", "lattice shift"])
        if kind == "general":
            U = g.simplex(mag, bm, cm, 0.1)
        elif kind == "same":
            U = T
        elif kind in ("nested", "around"):
            cen = g.comb(list(T), [1] * 4)
            U = np.array([g.comb([v, cen], [1, r.choice([1, 2])]) for v in T])
            if r.random() < .3:
                U[0] = T[0]
        elif kind == "aligned":
            for _ in range(200):
                U = []
                for _ in range(4):
                    k = r.randint(1, 4)
                    U.append(g.comb([T[j] for j in r.sample(range(4), k)], [r.randint(1, 2) for _ in range(k)]))
                U = np.array(U)
                if g.quality(U) > .08:
                    break
            else:
                U = T
        elif kind == "apart":
            U = g.shift([T], np.array([[25, 0, 1]] + [[0, 0, 1]] * 5))[0]
        else:
            U = g.shift([T], g.lattice())[0]
        A, B = g.subdivide([T], r.randint(0, 1), 1), g.subdivide([U], r.randint(0, 1), 1)
        if r.random() < .5:
            A, B = B, A
        A, B = C(g.shuffle_vertices(A)), C(g.shuffle_vertices(B))
        R = mon.call(t.intersection_convex, A, B, quiet=True)
        mon.hit("convex " + kind)
        judge(mon, g, "ico.convex ", kind, A, B, R, (A, B))


def segments(mon, seed, n):
    g = Gen("dode2", seed_of(PROP, "s", seed))
    r, st = g.rnd, g.style
    od, ix = legacy.load(mon, "dode", "occupation_domain", "intsct12")
    for it in range(n):
        c = g.simplex(*r.choice([(1, 0, 1), (2, 0, 1), (2, 1, 2)]), 0.15)
        A, B, D = c
        w = r.choice([1, 2, 3, 4])
        k = r.randint(0, w)
        X = g.comb([A, B], [w - k, k]) if 0 < k < w else (A if k == 0 else B)
        Y = g.comb2(X, D, 1 + 1, -1) if r.random() < .5 else X            # beyond X, or ending at X
        s1, s2 = [A, B], [D, Y]
        meet = r.random() < .6
        if not meet:
            if r.random() < .5:                                            # stops short of the first one
                s2 = [D, g.comb([X, D], [r.randint(1, 4), 1])]
            else:                                                          # passes beyond its end
                X = g.comb2(B, A, 2, -1)
                s2 = [D, g.comb2(X, D, 2, -1)]
        if r.random() < .5:
            s1.reverse()
        if r.random() < .5:
            s2.reverse()
        if r.random() < .5:
            s1, s2 = s2, s1
        s1, s2 = C([g.alias(v, 1) for v in s1]), C([g.alias(v, 1) for v in s2])
        key = (s1, s2)
        mon.case("segments meet" if meet else "segments miss", key, meet)
        R = mon.call(ix.intersection_two_segment, s1[0], s1[1], s2[0], s2[1], 0, quiet=True)
        if overflowed(mon, R, "segments"):
            continue
        if isinstance(R, Failure):
            mon.bad("segments: no value", why=R.text, s1=s1, s2=s2)
            continue
        if not meet:
            mon.ok(R.size == 1, "segments that do not meet: a point is returned", s1=s1, s2=s2, R=R)
            continue
        if R.size != 18:
            mon.bad("segments that meet: no point is returned", s1=s1, s2=s2, R=R)
            continue
        got = g.geo.perp(R.reshape(6, 3))[:2]
        mon.ok(tuple(got) == tuple(g.geo.perp(X)[:2]), "segments meet in another point", s1=s1, s2=s2, R=R, want=X)
        R2 = mon.call(od.intersection_two_segments, s1, s2, quiet=True)
        mon.ok(not isinstance(R2, Failure) and np.array_equal(np.asarray(R2).reshape(-1), R), "intersection_two_segments differs", s1=s1, s2=s2)


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(8):
        s = seed * 1000 + i
        out += [("pairs", {"pkg": "ico", "seed": s, "n": 44 if q else 400}), ("convex", {"seed": s, "n": 16 if q else 120})]
    for i in range(8):
        s = seed * 1000 + i
        out += [("aligned", {"pkg": "ico", "seed": s, "n": 120 if q else 1500}), ("aligned", {"pkg": "dode", "seed": s, "n": 150 if q else 2000})]
        out += [("near", {"pkg": "ico", "seed": s, "n": 60 if q else 600}), ("near", {"pkg": "dode", "seed": s, "n": 60 if q else 600})]
        out += [("pairs", {"pkg": "dode", "seed": s, "n": 120 if q else 1500}), ("segments", {"seed": s, "n": 60 if q else 800})]
        out += [("extra", {"pkg": "ico", "seed": s, "n": 8 if q else 60, "many": [130 if i % 2 else 320]}),
                ("extra", {"pkg": "dode", "seed": s, "n": 12 if q else 100, "many": [130 if i % 2 else 1030]})]
    return out
