"""shared workload of C11 (icosahedral) and C12 (dodecagonal): intersections of two occupation domains"""
import os
from itertools import combinations
import numpy as np
from .mon import load, seed_of, Failure, REPO
from .gen import Gen, group
from .region import intersection_problems, as_obj, min_feature

RT = [[[0, 0, 1]] * 6,
      [[1, 0, 2], [-1, 0, 2], [-1, 0, 2], [-1, 0, 2], [-1, 0, 2], [-1, 0, 2]],
      [[1, 0, 2], [-1, 0, 2], [-1, 0, 2], [1, 0, 2], [-1, 0, 2], [-1, 0, 2]],
      [[1, 0, 2], [-1, 0, 2], [-1, 0, 2], [0, 0, 1], [-1, 0, 2], [0, 0, 1]]]
NG = [[[0, 0, 1]] * 6,
      [[0, -2, 3], [0, 2, 3], [0, 0, 1], [0, 0, 1], [0, 0, 1], [0, 0, 1]],
      [[0, -2, 3], [0, 2, 3], [3, -4, 3], [-3, 4, 3], [0, 0, 1], [0, 0, 1]]]


def apply(g, M, obj):
    """independent integer matrix action on an object (about the origin)"""
    out = []
    for c in obj:
        cc = []
        for v in c:
            st, K = g.style, g.geo.K
            e = [st.frm(x) for x in v]
            w = []
            for i in range(6):
                s = K(0)
                for j in range(6):
                    if M[i][j]:
                        s = s + K(M[i][j]) * e[j]
                w.append(st.canon(s))
            cc.append(w)
        out.append(cc)
    return np.array(out, dtype=np.int64)


def unit(g):
    return np.array([RT if g.pkg == "ico2" else NG], dtype=np.int64)


def scaled(g, obj, k):
    return np.array([[[g.style.canon(g.style.frm(x) * k) for x in v] for v in c] for c in obj], dtype=np.int64)


def make(g):
    """(kind, A, B)"""
    r = g.rnd
    mag, bm, cm = r.choice([(1, 0, 1), (2, 0, 1), (1, 1, 1), (2, 1, 2), (1, 0, 2)])
    kind = r.choice(["general", "same region", "lattice shift", "part of", "shared facet", "domain", "domain", "nested", "apart",
                     "multi", "one point", "aligned", "aligned"])
    T = g.simplex(mag, bm, cm, 0.1)
    A = g.subdivide([T], r.randint(0, 3), 1)
    if kind == "general":
        B = g.subdivide([g.simplex(mag, bm, cm, 0.1)], r.randint(0, 3), 1)
    elif kind == "same region":
        B = g.subdivide([T], r.randint(0, 3), 1)
    elif kind == "lattice shift":
        B = g.shift(A, g.lattice())
    elif kind == "part of":
        B = g.subdivide([T], 2, 1)
        B = B[:r.randint(1, len(B))]
    elif kind == "shared facet":
        U = g.simplex(mag, bm, cm, 0.1)
        for i in range(1, g.nv):
            U[i] = T[i]
        if g.quality(U) < 0.08:
            U = T.copy()
        B = g.subdivide([U], r.randint(0, 2), 1)
        if r.random() < 0.5:
            B = np.array([[g.alias(v, 1) for v in c] for c in B])
    elif kind == "domain":
        G_ = sorted(group(g.pkg))
        u = unit(g)
        ca = [apply(g, M, u) for M in r.sample(G_, r.randint(1, 4))]
        A = dedupe_cells(g, np.concatenate(ca))
        cb = [apply(g, M, u) for M in r.sample(G_, r.randint(1, 4))]
        B = g.shift(dedupe_cells(g, np.concatenate(cb)), g.lattice() if r.random() < 0.8 else g.point(0, 0, 1))
    elif kind == "nested":
        w = r.choice([2, 3, 4])
        cen = g.comb(list(T), [1] * g.nv)
        U = np.array([g.comb([v, cen], [1, w]) for v in T])
        if r.random() < 0.5:
            U[0] = T[0]
        B = g.subdivide([U], r.randint(0, 2), 1)
    elif kind == "apart":
        B = g.shift(A, np.array([[25, 0, 1]] + [[0, 0, 1]] * 5))
    elif kind == "multi":
        other = g.shift([T], np.array([[25, 0, 1]] + [[0, 0, 1]] * 5))
        A = np.concatenate([A, other])
        B = np.concatenate([g.subdivide([T], 1, 1), g.shift(other, g.lattice())])
    elif kind == "aligned":
        # vertices of B on vertices, edges, facets of the cells of A: every crossing is at an end point
        for _ in range(200):
            U = []
            for _ in range(g.nv):
                c = A[r.randrange(len(A))]
                k = r.randint(1, g.nv)
                idx = r.sample(range(g.nv), k)
                U.append(g.comb([c[j] for j in idx], [r.randint(1, 2) for _ in range(k)]))
            U = np.array(U)
            if g.quality(U) > 0.08:
                break
        else:
            U = T
        B = np.array([U])
        if r.random() < 0.3:
            B = np.array([[g.alias(v, 1) for v in c] for c in B])
    else:
        U = g.simplex(mag, bm, cm, 0.1)
        U = np.array([g.add6(g.comb2(v, U[0], 1, -1), T[0]) for v in U])
        B = np.array([U])
    if len(A) > 1 and r.random() < 0.3:
        A = A[:r.randint(1, len(A))]
    A, B = g.shuffle_vertices(A), g.shuffle_vertices(B)
    if r.random() < 0.5:
        A, B = B, A
    return kind, A, B


def dedupe_cells(g, obj):
    seen, out = set(), []
    for c in obj:
        k = frozenset(g.geo.perp(v)[:g.dim] for v in c)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return np.array(out)


def run(mon, prop, pkg, seed, n):
    ns = load(pkg)
    g = Gen(pkg, seed_of(prop, pkg, seed))
    r = g.rnd
    for it in range(n):
        kind, A, B = make(g)
        mode = r.choice([None, "standard", "simple"])
        args = (A, B) if mode is None else (A, B, mode)
        R = mon.call(ns.ods.intersection, *args, rng=r.randrange(1 << 30))
        key = (A, B, mode)
        mon.hit("kind " + kind)
        mon.hit("mode %s" % mode)
        if isinstance(R, Failure):
            mon.case("failed", key)
            continue
        if R is not None and np.asarray(R).dtype.kind not in "iO":
            mon.bad("%s: result is not in exact numbers" % pkg, A=A, B=B)
        pr, exp = intersection_problems(g, A, B, R)
        ne = not exp.is_zero()
        mon.case("non-empty" if ne else "empty", key, ne,
                 sample={"kind": kind, "A": A, "B": B, "common measure (times %d)" % (6 if g.dim == 3 else 2): float(exp)}
                 if it % 29 == 3 and len(A) + len(B) < 4 else None)
        if R is not None:
            mon.hit("pieces judged", len(as_obj(g, R)))
            if not ne:
                mon.hit("empty region returned as flat pieces")
        for p in pr:
            mon.bad("%s intersection (%s, %s): %s" % (pkg, mode, kind, p), A=A, B=B, R=R)


def _clear(x, tol):
    return abs(x) < 1e-11 or abs(x) > tol


def clear_pair(g, T, U, tol=4e-6):
    """every question the code asks about two cells (in or out, do they cross, are they parallel) has an answer that is exact
    (touching, parallel) or clear by more than the tolerance of 1e-6 the code documents"""
    D = g.dim
    A, B = [np.array([[float(x) for x in g.geo.perp(v)[:D]] for v in c]) for c in (T, U)]
    for P, Q in ((A, B), (B, A)):
        M = np.array([Q[i] - Q[0] for i in range(1, D + 1)]).T
        W = np.linalg.solve(M, (P - Q[0]).T).T
        W = np.hstack([1 - W.sum(1, keepdims=True), W])
        if not all(_clear(w, tol) for w in W.ravel()):
            return False
        for i, j in combinations(range(D + 1), 2):
            u = P[j] - P[i]
            for f in combinations(range(D + 1), D):
                if D == 2:
                    v, d = Q[f[1]] - Q[f[0]], Q[f[0]] - P[i]
                    c = u[0] * v[1] - u[1] * v[0]
                    if abs(c) < 1e-10:
                        continue
                    if c * c < tol:
                        return False
                    s = (d[0] * v[1] - d[1] * v[0]) / c
                    X = (s, 1 - s)
                else:
                    e1, e2, d = Q[f[1]] - Q[f[0]], Q[f[2]] - Q[f[0]], P[i] - Q[f[0]]
                    p, q = np.cross(u, e2), np.cross(d, e1)
                    c = p @ e1
                    if abs(c) < 1e-11:
                        continue
                    if abs(c) < tol:
                        return False
                    a, b, t = p @ d / c, q @ u / c, q @ e2 / c
                    X = (a, b, 1 - a - b, t, 1 - t)
                if not all(_clear(x, tol) for x in X):
                    return False
    return True


def near_pair(g, dens=(30, 60, 100, 200, 400, 1000)):
    """two cells that nearly coincide or nearly touch: some vertices moved by a small fraction of the edges"""
    r = g.rnd
    while True:
        T = g.simplex(*r.choice([(1, 0, 1), (2, 0, 1), (1, 1, 1)]), 0.1)
        den = r.choice(dens)
        if r.random() < 0.3:
            # a facet of U cuts a small corner off T: U holds all but the corner, or the corner alone
            k = r.choice([x for x in (5, 10, 20, 40, 100) if x <= max(dens)])
            D = g.dim
            P = [[-2 * k if i != j else 1 + 2 * k * (D - 1) for j in range(D)] for i in range(D)]     # on the cutting plane, times k
            P.append([r.choice([-3, 3]) * k] * D)
            V = T[r.sample(range(g.nv), g.nv)]
            U = np.array([weighted(g, V, [k - sum(p)] + p, k) for p in P])
            if clear_pair(g, T, U):
                return (T, U) if r.random() < 0.5 else (U, T)
            continue
        V = T
        if r.random() < 0.3:                        # nearly touching along a facet instead of nearly coinciding
            V = T.copy()
            V[0] = g.comb2(g.comb(list(T[1:]), [1] * (g.nv - 1)), T[0], 2, -1)
        U = []
        for i in range(g.nv):
            w = [r.choice([-1, 0, 1]) for _ in range(g.nv)]
            if r.random() < 0.5:
                w = [0] * g.nv
            w[i] = 0
            w[i] = den - sum(w)
            U.append(weighted(g, V, w, den))
        U = np.array(U)
        if clear_pair(g, T, U):
            return (T, U) if r.random() < 0.5 else (U, T)


def weighted(g, pts, w, den):
    """sum w_i p_i / den, sum(w) == den, weights may be negative"""
    st, K = g.style, g.geo.K
    res = []
    for i in range(6):
        s = K(0)
        for p, k in zip(pts, w):
            s = s + st.frm(p[i]) * K(k, 0, den)
        res.append(st.canon(s))
    return np.array(res, dtype=np.int64)


def near(mon, prop, pkg, seed, n):
    ns = load(pkg)
    g = Gen(pkg, seed_of(prop, "near", pkg, seed))
    r = g.rnd
    for it in range(n):
        T, U = near_pair(g)
        A, B = np.array([T]), np.array([U])
        R = mon.call(ns.ods.intersection, A, B, rng=r.randrange(1 << 30))
        if isinstance(R, Failure):
            mon.case("failed", (A, B))
            continue
        pr, exp = intersection_problems(g, A, B, R)
        ne = not exp.is_zero()
        mon.case("nearly coincident" if ne else "nearly touching", (A, B), ne)
        for p in pr:
            mon.bad("%s intersection (nearly coincident cells): %s" % (pkg, p), A=A, B=B, R=R)


def along(g, p, q, s):
    """p + s*(q-p) for an exact number s"""
    st = g.style
    return np.array([st.canon(st.frm(a) + (st.frm(b) - st.frm(a)) * s) for a, b in zip(p, q)], dtype=np.int64)


def tip_pair(g, dens=(20, 30, 50, 80), tight=0.955):
    """two long cells that overlap at their tips only: their enclosing balls barely overlap too"""
    r = g.rnd
    K = g.geo.K
    while True:
        p, d = g.point(1, 0, 1), g.point(2, 1, 1)
        z = np.array([[0, 0, 1]] * 6)
        d = g.comb2(d, z, r.choice([2, 3, 4]), 0)
        q = g.add6(p, d)
        tip = along(g, p, q, K(1, 0, r.choice(dens)))
        far = along(g, p, q, -K(r.choice([1, 2, 3]), 0, 2))

        def base(c):
            e = [g.point(1, 0, 1) for _ in range(g.dim - 1)]
            s = e[0] if g.dim == 2 else g.add6(e[0], e[1])
            return [g.add6(c, x) for x in e] + [g.comb2(c, s, 1, -1)]
        T, U = np.array([p] + base(q)), np.array([tip] + base(far))
        if g.quality(T) < 0.03 or g.quality(U) < 0.03 or not clear_pair(g, T, U):
            continue

        def ball(c):
            f = np.array([[float(x) for x in g.geo.perp(v)[:g.dim]] for v in c])
            m = f.mean(axis=0)
            return m, max(np.linalg.norm(f - m, axis=1))
        (m1, r1), (m2, r2) = ball(T), ball(U)
        if np.linalg.norm(m1 - m2) > tight * (r1 + r2):
            return T, U


def ratio_pair(g):
    """a cell and a part of it whose measure shares one number with the measure of the cell, or is nearly the same"""
    r = g.rnd
    K, st = g.geo.K, g.style
    from .geom import tet_vol6, tri_area2
    while True:
        T = g.simplex(*r.choice([(1, 0, 1), (2, 0, 1), (1, 1, 1), (2, 1, 1)]), 0.1)
        c = [tuple(g.geo.perp(v)[:g.dim]) for v in T]
        v = abs(tet_vol6(c) if g.dim == 3 else tri_area2(c)) * K(1, 0, 6 if g.dim == 3 else 2)
        a, b, d = st.canon(v)
        k = r.randrange(4)
        if k == 0:
            w = st.frm([a, b + r.choice([-4, -3, -2, -1, 1, 2, 3, 4]), d])
        elif k == 1:
            w = st.frm([a + r.choice([-4, -3, -2, -1, 1, 2, 3, 4]), b, d])
        elif k == 2:
            w = st.frm([a, b, d + r.randint(1, 3)])
        else:
            w = v * (K(1) - K(1, 0, r.choice([3000, 10000, 30000])))
        if not 0.05 * float(v) < float(w) < float(v):
            continue
        s = w * v.inv()
        i, j = r.sample(range(g.nv), 2)
        U = T.copy()
        U[j] = along(g, T[i], T[j], s)
        if clear_pair(g, T, U):
            return T, U


def scattered(g, n, mult=12):
    """n disjoint cells, some of them far away; and a second object that meets a few of them"""
    r = g.rnd
    T = [g.simplex(1, 0, 1, 0.12) for _ in range(3)]
    z = np.array([[0, 0, 1]] * 6)
    d = [None] * g.dim
    # well separated grid in internal space: multiples of vectors with long internal components
    while True:
        d = [g.comb2(g.point(1, 0, 1), z, mult, 0) for _ in range(g.dim)]
        M = np.array([[float(x) for x in g.geo.perp(v)[:g.dim]] for v in d])
        if abs(np.linalg.det(M)) > 0.3 * np.prod(np.linalg.norm(M, axis=1)) and min(np.linalg.norm(M, axis=1)) > 8:
            break
    side = int(np.ceil(n ** (1 / g.dim)))
    pos = []
    while len(pos) < n:
        k = len(pos)
        idx = [k // side ** j % side for j in range(g.dim)]
        if k == n - 1 and r.random() < 0.7:
            idx = [(side * 3 if mult > 4 else side + 1) * r.choice([-1, 1])] * g.dim
        v = z
        for i, e in zip(idx, d):
            v = g.add6(v, g.comb2(e, z, i, 0))
        pos.append(v)
    A = np.array([g.shift([T[r.randrange(3)]], v)[0] for v in pos])
    B = []
    for k in [0] if mult <= 4 else set([n - 1, r.randrange(n), r.randrange(n)][:r.randint(1, 3)]):
        U = g.simplex(1, 0, 1, 0.12)
        if mult <= 4 or r.random() < 0.4:          # a part of the cell itself
            U = np.array([g.comb([A[k][0], v], [1, 1]) for v in A[k]])
        else:
            U = g.shift([U], pos[k])[0]
        B.append(U)
    o = list(range(n))
    r.shuffle(o)
    return g.shuffle_vertices(A[o]), g.shuffle_vertices(np.array(B))


def extra(mon, prop, pkg, seed, n, many=()):
    """tips, nearly equal parts, many cells"""
    ns = load(pkg)
    g = Gen(pkg, seed_of(prop, "extra", pkg, seed))
    r = g.rnd
    L = []
    for _ in range(n):
        T, U = tip_pair(g)
        L.append(("overlap at the tips", g.shuffle_vertices(np.array([T])), g.shuffle_vertices(np.array([U]))))
        T, U = ratio_pair(g)
        L.append(("part with related measure", g.shuffle_vertices(np.array([T])), g.shuffle_vertices(np.array([U]))))
    for m in many:
        L.append(("many cells",) + scattered(g, m))
    for kind, A, B in L:
        if r.random() < 0.5:
            A, B = B, A
        both = [(A, B), (B, A)] if kind == "many cells" else [(A, B)]
        for A, B, mode in [(x, y, m) for x, y in both for m in ((None, "simple") if kind == "part with related measure" else (r.choice([None, "standard", "simple"]),))]:
            args = (A, B) if mode is None else (A, B, mode)
            R = mon.call(ns.ods.intersection, *args, rng=r.randrange(1 << 30))
            if isinstance(R, Failure):
                mon.case("failed", (A, B, mode))
                continue
            pr, exp = intersection_problems(g, A, B, R)
            ne = not exp.is_zero()
            mon.case(kind, (A, B, mode), ne)
            for p in pr:
                mon.bad("%s intersection (%s, %s): %s" % (pkg, mode, kind, p), A=A, B=B, R=R)
