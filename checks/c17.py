"""C17 identity of points and simplices in internal space"""
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen
from vlib import complexes as cx

PROP = "C17"
RULE = ("sets of 6D vectors with exact duplicates, with other 6D representatives of the same internal point, and near misses (differing in one "
        "coordinate or one vertex); removal of doublings must keep exactly one of each class and only given vectors; equivalence, shared-face "
        "and shared-edge tests must agree with exact comparison of internal coordinates; merging two segments only if they are collinear "
        "and meet at one end. Non-trivial: all; distinct by arguments.")
MIN = {}
for _p in ("ico2", "dode2"):
    for _k in ("set with aliases", "same vertex", "other vertex", "same edge", "other edge", "same triangle", "other triangle", "adjacent",
               "not adjacent", "segments merge", "segments stay", "sorted", "removed"):
        MIN[_p + "." + _k] = 40
MIN["ico2.same cell"] = MIN["ico2.other cell"] = 40


def run(mon, pkg, seed, n):
    ns = load(pkg)
    u = ns.utils
    g = Gen(pkg, seed_of(PROP, pkg, seed))
    r = g.rnd

    def truth(kind, f, args, want):
        mon.case("%s.%s" % (pkg, kind), (f.__name__, args), sample={"pkg": pkg, "kind": kind, "f": f.__name__, "args": args} if mon.evals % 211 == 7 else None)
        x = mon.call(f, *args)
        if isinstance(x, Failure):
            return
        if x is None or isinstance(x, np.ndarray) and x.ndim:
            mon.bad("%s %s (%s): not a truth value" % (pkg, f.__name__, kind), args=args)
        else:
            mon.ok(bool(x) == want, "%s: %s is %s for a case that is: %s" % (pkg, f.__name__, bool(x), kind), args=args)

    def al(v):
        return g.alias(v) if r.random() < 0.5 else v.copy()

    def near(v):
        """a vector with a slightly different internal component (and possibly nearly the same physical one)"""
        for _ in range(100):
            w = v.copy()
            i = r.randrange(6 if pkg == "ico2" else 4)
            d = r.choice([[1, 0, 1], [0, 1, 1], [1, 0, 100], [-1, 1, 1], [13, -8, 1], [34, -21, 1], [-317811, 196418, 1], [12586269025, -7778742049, 1]] if pkg == "ico2" else
                         [[1, 0, 1], [0, 1, 1], [1, 0, 100], [-1, 1, 1], [26, -30, 1], [97, -112, 1], [262087, -302632, 1], [708158977, -817711552, 1]])
            t = np.array([[0, 0, 1]] * 6)
            t[i] = d
            w = g.add6(w, t)
            if r.random() < 0.3:            # the same numerators over another denominator; opposite; exchanged
                k = r.choice([2, 3, 7, 101, -1])
                w = np.array([[x[0] * np.sign(k), x[1] * np.sign(k), x[2] * abs(k)] for x in v])
                w = g.add6(w, np.array([[0, 0, 1]] * 6))
            if cx.pkey(g, w) != cx.pkey(g, v):
                return w
        return g.add6(v, np.array([[1, 0, 1]] + [[0, 0, 1]] * 5))

    def perm(c):
        return np.array([al(c[i]) for i in r.sample(range(len(c)), len(c))])

    for it in range(n):
        # --- sets
        base = [g.point(3, 2, 3) for _ in range(r.randint(1, 6))]
        if r.random() < 0.5:
            base.append(near(base[0]))
        V = []
        for v in base:
            for _ in range(r.randint(1, 3)):
                V.append(al(v))
        r.shuffle(V)
        V = np.array(V)
        if r.random() < 0.3 and len(V) % 2 == 0:
            V = V.reshape(-1, 2, 6, 3)
        W = V.reshape(-1, 6, 3)
        R = mon.call(u.remove_doubling, V)
        key = lambda v: tuple(int(x) for x in np.asarray(v).reshape(-1))
        mon.case(pkg + ".set", V)
        if not isinstance(R, Failure):
            a = sorted(key(v) for v in R)
            mon.ok(a == sorted({key(v) for v in W}), "%s remove_doubling: not each distinct vector exactly once" % pkg, V=V, got=R)
        R = mon.call(u.remove_doubling_in_perp_space, V)
        mon.case(pkg + ".set with aliases", V)
        if not isinstance(R, Failure):
            a = [cx.pkey(g, v) for v in R]
            mon.ok(len(a) == len(set(a)), "%s remove_doubling_in_perp_space: a point appears twice" % pkg, V=V, got=R)
            mon.ok(set(a) == {cx.pkey(g, v) for v in W}, "%s remove_doubling_in_perp_space: points lost or changed" % pkg, V=V, got=R)
            given = {key(v) for v in W}
            mon.ok(all(key(v) in given for v in R), "%s remove_doubling_in_perp_space: a vector that was not given" % pkg, V=V, got=R)
        # --- set difference of vectors
        T = np.array([r.choice(list(W)) if r.random() < 0.7 else near(W[0]) for _ in range(r.randint(1, 4))])
        if r.random() < 0.2:
            T = W[::-1].copy()
        for name, f, B in (("remove_vectors", u.remove_vectors, T), ("remove_vector", u.remove_vector, T[0])):
            R = mon.call(f, W, B)
            mon.case("%s.removed" % pkg, (name, W, B))
            if not isinstance(R, Failure):
                gone = {key(v) for v in B.reshape(-1, 6, 3)}
                mon.ok(R is not None and [key(v) for v in R] == [key(v) for v in W if key(v) not in gone],
                       "%s %s: not the vectors that remain" % (pkg, name), V=W, remove=B, got=R)
        S = mon.call(u.sort_vctors, W)
        mon.case(pkg + ".sorted", W)
        if not isinstance(S, Failure):
            mon.ok(sorted(key(v) for v in S) == sorted(key(v) for v in W), "%s sort_vctors: not a permutation" % pkg, V=W, got=S)
            x = [cx.pkey(g, v)[0] for v in S]
            mon.ok(all(float(b - a_) > -1e-9 for a_, b in zip(x, x[1:])), "%s sort_vctors: not in order" % pkg, V=W, got=S)
        # --- vertices, edges, triangles, cells
        v = base[0]
        truth("same vertex", u.equivalent_vertices, (v, al(v)), True)
        truth("other vertex", u.equivalent_vertices, (v, near(v)), False)
        truth("same vertex", u.equivalent, (v, al(v)), True)
        truth("other vertex", u.equivalent, (v, near(v)), False)
        c = g.simplex(2, 1, 2, 0.1)
        for k, name, f in ((2, "edge", u.equivalent_edges), (3, "triangle", u.equivalent_triangles)) + \
                (((4, "cell", u.equivalent_tetrahedra),) if pkg == "ico2" else ()):
            s = c[:k]
            truth("same " + name, f, (s, perm(s)), True)
            o = s.copy()
            o[r.randrange(k)] = near(o[0]) if r.random() < 0.5 else g.comb([o[0], o[1]], [1, 1])
            if len({cx.pkey(g, x) for x in o}) == k and {cx.pkey(g, x) for x in o} != {cx.pkey(g, x) for x in s}:
                truth("other " + name, f, (s, perm(o)), False)
                truth("other " + name, u.equivalent, (s, perm(o)), False)
            truth("same " + name, u.equivalent, (s, perm(s)), True)
            truth("same " + name, u.equivalent, (s[None], perm(s)[None]), True)
            if k > 2:
                truth("other " + name, u.equivalent, (s, perm(s[:k - 1])), False)
                truth("other " + name, u.equivalent, (s[:k - 1], perm(s)), False)
        # --- adjacency
        d = c.copy()
        j = r.randrange(g.nv)
        while cx.pkey(g, d[j]) in {cx.pkey(g, x) for x in c}:
            d[j] = near(c[j])
        e = d.copy()
        i = (j + 1) % g.nv
        while cx.pkey(g, e[i]) in {cx.pkey(g, x) for x in c} | {cx.pkey(g, d[j])}:
            e[i] = near(c[i])
        conn = u.check_connectivity_tetrahedra if pkg == "ico2" else u.check_connectivity_triangles
        comm = u.get_common_triangle_in_two_tetrahedra if pkg == "ico2" else u.get_common_edge_in_two_triangles
        truth("adjacent", conn, (c, perm(d)), True)
        truth("not adjacent", conn, (c, perm(e)), False)
        truth("not adjacent", conn, (c, perm(c)), False)
        X = mon.call(comm, c, perm(d))
        if not isinstance(X, Failure):
            want = frozenset(cx.pkey(g, c[q]) for q in range(g.nv) if q != j)
            mon.ok(X is not None and len(X) == g.dim and frozenset(cx.pkey(g, x) for x in X) == want, "%s: wrong common face of two cells" % pkg, c=c, d=d, got=X)
        X = mon.call(comm, c, perm(e))
        if not isinstance(X, Failure):
            mon.ok(X is None, "%s: a common face reported for cells that share none" % pkg, c=c, e=e, got=X)
        # --- merging segments
        a, b = c[0], c[1]
        w = r.randint(1, 3)
        m = g.comb([a, b], [w, r.randint(1, 3)])
        S1, S2 = perm(np.array([a, m])), perm(np.array([m, b]))
        X = mon.call(u.two_segment_into_one, S1, S2)
        mon.case(pkg + ".segments merge", (S1, S2))
        if not isinstance(X, Failure):
            mon.ok(X is not None and {cx.pkey(g, x) for x in X} == {cx.pkey(g, a), cx.pkey(g, b)}, "%s: two collinear segments not merged to their outer ends" % pkg,
                   S1=S1, S2=S2, got=X)
        k = r.randrange(4)
        if k == 0:
            S1, S2 = perm(np.array([a, m])), perm(np.array([m, c[2]]))          # corner
        elif k == 1:
            S1, S2 = perm(np.array([a, m])), perm(np.array([a, b]))             # same side
        elif k == 2:
            m2 = g.comb([m, b], [1, 1])
            S1, S2 = perm(np.array([a, m])), perm(np.array([m2, b]))            # gap
        else:
            S1, S2 = perm(np.array([a, c[2]])), perm(np.array([m, b]))          # no common end
        X = mon.call(u.two_segment_into_one, S1, S2)
        mon.case(pkg + ".segments stay", (S1, S2))
        if not isinstance(X, Failure):
            mon.ok(X is None, "%s: segments merged that do not continue each other (kind %d)" % (pkg, k), S1=S1, S2=S2, got=X)


def jobs(tier, seed):
    n, k = (40, 8) if tier == "quick" else (400, 16)
    return [("run", {"pkg": p, "seed": seed * 1000 + i, "n": n}) for i in range(k) for p in ("ico2", "dode2")]
