"""C02 exact vector, matrix and centroid algebra"""
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen

PROP = "C02"
RULE = ("random vectors/matrices over the package's number field (small, sparse, large, non-reduced and signed "
        "entries; sizes 1..7; duplicated and opposite rows) driven through every vector and matrix operation; each "
        "entry compared with an independent exact evaluation and required canonical. Distinct by (operation, "
        "operands).")
MIN = {}
for _p in ("ico2", "dode2"):
    for _o in ("add_vectors", "sub_vectors", "mul_vector", "mul_vectors3", "mul_vectors4", "outer_product",
               "inner_product", "dot_product22", "dot_product32", "dot_product33", "dot_product_1_22",
               "dot_product_1_23", "det_matrix", "centroid", "centroid_obj", "mtrixcal", "matrixpow"):
        MIN["%s.%s" % (_p, _o)] = 40


def flat(arr):
    """list of (a,b,c) python triples"""
    a = np.asarray(arr)
    assert a.shape[-1] == 3
    return [tuple(int(x) for x in t) for t in a.reshape(-1, 3)]


def want_list(style, ks):
    return [style.canon(k) for k in ks]


def check(mon, pkg, op, style, r, want, shape, args):
    name = "%s.%s" % (pkg, op)
    mon.case(name, (op,) + tuple(args),
             sample={"op": name, "args": args, "want": [list(map(str, w)) for w in want_list(style, want)][:6]}
             if mon.evals % 1501 == 7 else None)
    wl = want_list(style, want)
    fits = all(max(map(abs, w)) < 2**45 for w in wl)    # intermediates of a sum can be a little larger
    if isinstance(r, Failure):
        if fits:
            mon.bad("%s failed: %s" % (name, r.text), args=args)
        return
    if r is None:
        mon.bad("%s returned nothing" % name, args=args)
        return
    a = np.asarray(r)
    if a.shape != shape:
        mon.bad("%s returned shape %s, expected %s" % (name, a.shape, shape), args=args)
        return
    got = flat(a)
    if got != wl:
        bad = [i for i in range(len(wl)) if got[i] != wl[i]]
        i = bad[0]
        val = got[i][2] != 0 and style.frm(got[i]) == want[i]
        mon.bad("%s: %s" % (name, "entry not in canonical form" if val else "wrong value"), args=args, index=i,
                got=got[i], want=wl[i])


def run(mon, pkg, seed, n):
    ns = load(pkg)
    m = ns.math1
    g = Gen(pkg, seed_of(PROP, pkg, seed))
    st = g.style
    r = g.rnd
    K = g.geo.K

    def vec(k, mode):
        mag, cm = mode
        v = g.vec(k, mag, cm)
        if r.random() < 0.15:
            v = v * r.choice([2, 3, 6])          # not in lowest terms
        if r.random() < 0.1:
            v = v * -1                           # negative denominators
        return v

    def F(v):
        return [st.frm(t) for t in v]

    def ssum(xs):
        s = K(0)
        for x in xs:
            s = s + x
        return s
    for it in range(n):
        mode = r.choice([(5, 4), (5, 4), (30, 12), (1000, 60), (2, 1), (10**6, 1000)])
        k = r.choice([1, 2, 3, 3, 4, 6, 6, 7])
        u, v = vec(k, mode), vec(k, mode)
        if r.random() < 0.1:
            v = u.copy()
        if r.random() < 0.1:
            v = np.array([[-t[0], -t[1], t[2]] for t in u])
        U, V = F(u), F(v)
        c = np.array(g.num(*mode))
        C = st.frm(c)
        q = dict(quiet=True)
        check(mon, pkg, "add_vectors", st, mon.call(m.add_vectors, u, v, **q), [a + b for a, b in zip(U, V)], (k, 3), (u, v))
        check(mon, pkg, "sub_vectors", st, mon.call(m.sub_vectors, u, v, **q), [a - b for a, b in zip(U, V)], (k, 3), (u, v))
        check(mon, pkg, "mul_vector", st, mon.call(m.mul_vector, u, c, **q), [a * C for a in U], (k, 3), (u, c))
        check(mon, pkg, "inner_product", st, mon.call(m.inner_product, u, v, **q),
              [ssum(a * b for a, b in zip(U, V))], (3,), (u, v))
        check(mon, pkg, "dot_product22", st, mon.call(m.dot_product, u, v, **q),
              [ssum(a * b for a, b in zip(U, V))], (3,), (u, v))
        u3, v3 = vec(3, mode), vec(3, mode)
        if r.random() < 0.1:
            v3 = u3.copy()
        A, B = F(u3), F(v3)
        check(mon, pkg, "outer_product", st, mon.call(m.outer_product, u3, v3, **q),
              [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]], (3, 3), (u3, v3))
        if it % 3:
            continue
        # sets
        s = r.randint(1, 5)
        vs = np.array([vec(6, mode) for _ in range(s)])
        check(mon, pkg, "mul_vectors3", st, mon.call(m.mul_vectors, vs, c, **q),
              [x * C for w in vs for x in F(w)], vs.shape, (vs, c))
        ob = np.array([[vec(6, mode) for _ in range(g.nv)] for _ in range(r.randint(1, 4))])
        check(mon, pkg, "mul_vectors4", st, mon.call(m.mul_vectors, ob, c, **q),
              [x * C for ce in ob for w in ce for x in F(w)], ob.shape, (ob, c))
        # matrices
        a_, t_, b_ = r.randint(1, 6), r.randint(1, 6), r.randint(1, 6)
        small = (5, 4) if mode[0] > 1000 else mode
        m1 = np.array([vec(t_, small) for _ in range(a_)])
        m2 = np.array([vec(b_, small) for _ in range(t_)])
        w2 = vec(t_, small)
        M1, M2, W2 = [F(x) for x in m1], [F(x) for x in m2], F(w2)
        check(mon, pkg, "dot_product32", st, mon.call(m.dot_product, m1, w2, **q),
              [ssum(M1[i][j] * W2[j] for j in range(t_)) for i in range(a_)], (a_, 3), (m1, w2))
        check(mon, pkg, "dot_product33", st, mon.call(m.dot_product, m1, m2, **q),
              [ssum(M1[i][l] * M2[l][j] for l in range(t_)) for i in range(a_) for j in range(b_)],
              (a_, b_, 3), (m1, m2))
        im = np.array([[r.randint(-9, 9) for _ in range(t_)] for _ in range(a_)])
        check(mon, pkg, "dot_product_1_22", st, mon.call(m.dot_product_1, im, w2, **q),
              [ssum(K(int(im[i][j])) * W2[j] for j in range(t_)) for i in range(a_)], (a_, 3), (im, w2))
        check(mon, pkg, "dot_product_1_23", st, mon.call(m.dot_product_1, im, m2, **q),
              [ssum(K(int(im[i][l])) * M2[l][j] for l in range(t_)) for i in range(a_) for j in range(b_)],
              (a_, b_, 3), (im, m2))
        d = np.array([vec(3, small) for _ in range(3)])
        if r.random() < 0.2:
            d[2] = d[0]
        D = [F(x) for x in d]
        det = K(0)
        for i, j, l, sg in ((0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (2, 1, 0, -1), (1, 0, 2, -1), (0, 2, 1, -1)):
            t = D[0][i] * D[1][j] * D[2][l]
            det = det + t if sg > 0 else det - t
        check(mon, pkg, "det_matrix", st, mon.call(m.det_matrix, d, **q), [det], (3,), (d,))
        co = [np.array(g.num(*small)) for _ in range(6)]
        w6 = vec(6, small)
        check(mon, pkg, "mtrixcal", st, mon.call(m.mtrixcal, *co, w6, **q),
              [ssum(st.frm(x) * y for x, y in zip(co, F(w6)))], (3,), tuple(co) + (w6,))
        # centroids
        kk = r.choice([1, 2, 3, 4, 4, 5, 8])
        pts = np.array([vec(6, small) for _ in range(kk)])
        P = [F(p) for p in pts]
        check(mon, pkg, "centroid", st, mon.call(m.centroid, pts, **q),
              [ssum(p[i] for p in P) * K(1, 0, kk) for i in range(6)], (6, 3), (pts,))
        ob = np.array([[vec(6, small) for _ in range(g.nv)] for _ in range(r.randint(1, 6))])
        if r.random() < 0.3:
            ob = g.relate(ob, 3)
        if it % 600 == 0:                        # as many cells as a symmetric domain has
            ob = np.array([[vec(6, (5, 4)) for _ in range(g.nv)] for _ in range(r.choice([120, 137, 260]))])
        allp = [F(p) for ce in ob for p in ce]
        check(mon, pkg, "centroid_obj", st, mon.call(m.centroid_obj, ob, **q),
              [ssum(p[i] for p in allp) * K(1, 0, len(allp)) for i in range(6)], (6, 3), (ob,))
        # integer matrix powers
        kk = r.choice([2, 3, 6])
        while True:
            ma = np.array([[r.randint(-1, 1) for _ in range(kk)] for _ in range(kk)])
            dt = round(np.linalg.det(ma))
            if dt in (1, -1):
                break
        p = r.randint(-6, 6)
        if r.random() < 0.2:                     # finite order: high powers stay exact
            ma = np.zeros((kk, kk), dtype=int)
            for i_, j_ in enumerate(r.sample(range(kk), kk)):
                ma[i_][j_] = r.choice([1, -1])
            p = r.randint(-130, 130)
        res = mon.call(m.matrixpow, ma, p, **q)
        mon.case("%s.matrixpow" % pkg, (ma, p))
        want = np.linalg.matrix_power(np.rint(np.linalg.inv(ma)).astype(int) if p < 0 else ma, abs(p))
        if isinstance(res, Failure) or res is None or np.asarray(res).shape != ma.shape or \
                np.abs(np.asarray(res, dtype=float) - want).max() > 1e-6 * max(1, np.abs(want).max()):
            mon.bad("%s.matrixpow: wrong matrix power" % pkg, ma=ma, p=p, got=None if isinstance(res, Failure) else res)


def jobs(tier, seed):
    n, k = (2000, 4) if tier == "quick" else (6000, 8)
    return [("run", {"pkg": p, "seed": seed * 1000 + i, "n": n}) for i in range(k) for p in ("ico2", "dode2")]
