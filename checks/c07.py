"""C07 similarity (self-similar inflation/deflation) of dodecagonal domains"""
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen
from vlib.geom import tri_area2

PROP = "C07"
RULE = ("random triangles, objects and vectors scaled by every exponent -9..9; exact checks on the real results: integer "
        "lattice matrix, squared physical/internal lengths scale by (2+sqrt3)^m and (2-sqrt3)^m, exponents add (m then n "
        "equals m+n, -m undoes m), zero is the identity, commutation with the twelve-fold rotation, area law, dummy axes "
        "untouched. Distinct by (object, m).")
MIN = {"matrix": 15, "vec": 300, "obj": 100, "compose": 100}


def run(mon, seed, n):
    ns = load("dode2")
    S = ns.symmetry
    g = Gen("dode2", seed_of(PROP, seed))
    geo, K, st, r = g.geo, g.geo.K, g.style, g.rnd
    lam = K(2, 1, 1)                       # 2+sqrt3, unit of norm 1

    def power(x, m):
        y = K(1)
        for _ in range(abs(m)):
            y = y * (x if m > 0 else x.inv())
        return y

    def n2(p):
        s = geo.zero
        for x in p:
            s = s + x * x
        return s
    mats = {}
    for m in range(-9, 10):
        M = mon.call(S.similarity, m)
        if isinstance(M, Failure):
            return
        M = np.asarray(M, dtype=float)
        mon.case("matrix", repr((m, M.tolist())), m != 0)
        mon.ok(M.shape == (6, 6) and np.all(M == np.rint(M)), "similarity matrix is not an integer matrix", m=m)
        mats[m] = np.rint(M).astype(object)
    I = np.identity(6, dtype=int).astype(object)
    for m in mats:
        mon.ok(np.all(mats[m].dot(mats[-m]) == I), "similarity(-m) does not undo similarity(m)", m=m)
        for k in mats:
            if m + k in mats:
                mon.ok(np.all(mats[m].dot(mats[k]) == mats[m + k]), "similarity exponents do not add", m=m, n=k)
        det = round(np.linalg.det(mats[m].astype(float)))
        mon.ok(det in (1, -1), "similarity matrix is not unimodular", m=m)
    ops = S.dodesymop()
    rot = np.rint(np.asarray(ops[1])).astype(int).astype(object)
    for m in mats:
        mon.ok(np.all(mats[m].dot(rot) == rot.dot(mats[m])), "similarity does not commute with the rotation", m=m)
    for it in range(n):
        m = r.randint(-9, 9)
        v = g.point(3, 3, 4) if r.random() < 0.6 else g.vec(6, 9, 5)
        w = mon.call(S.similarity_vec, v, m)
        if isinstance(w, Failure):
            continue
        mon.case("vec", (v, m), m != 0, sample={"v": v, "m": m, "result": w} if it % 97 == 5 else None)
        want = []
        for rr in range(6):
            s = geo.zero
            for c in range(6):
                s = s + K(int(mats[m][rr][c])) * st.frm(v[c])
            want.append(st.canon(s))
        mon.ok([tuple(map(int, t)) for t in w] == want, "similarity_vec is not the lattice matrix applied to the vector",
               v=v, m=m, got=w)
        mon.ok(n2(geo.par(w)[:2]) == n2(geo.par(v)[:2]) * power(lam, m), "physical length does not scale by the similarity ratio",
               v=v, m=m, got=w)
        mon.ok(n2(geo.perp(w)[:2]) == n2(geo.perp(v)[:2]) * power(lam, -m), "internal length does not scale by the inverse ratio",
               v=v, m=m, got=w)
        mon.ok(st.frm(w[4]) == st.frm(v[4]) and st.frm(w[5]) == st.frm(v[5]), "periodic axes were scaled", v=v, m=m, got=w)
        if it % 3 == 0:
            obj = np.array([[g.point(3, 2, 3) for _ in range(3)] for _ in range(r.randint(1, 4))])
            o2 = mon.call(ns.od.similarity, obj, m)
            o3 = mon.call(S.similarity_obj, obj, m)
            t2 = mon.call(S.similarity_triangle, obj[0], m)
            mon.case("obj", (obj, m), m != 0)
            if any(isinstance(x, Failure) for x in (o2, o3, t2)):
                continue
            o2 = np.asarray(o2)
            mon.ok(o2.shape == obj.shape and np.array_equal(o2, o3) and np.array_equal(o2[0], t2),
                   "object, triangle and vector similarity disagree", obj=obj, m=m)
            for c1, c2 in zip(obj, o2):
                a1 = abs(tri_area2([geo.perp(x)[:2] for x in c1]))
                a2 = abs(tri_area2([geo.perp(x)[:2] for x in c2]))
                mon.ok(a2 == a1 * power(lam, -m), "area does not follow the similarity law", cell=c1, m=m, got=c2)
                for x, y in zip(c1, c2):
                    y2 = [tuple(map(int, t)) for t in np.asarray(mon.call(S.similarity_vec, x, m))]
                    mon.ok([tuple(map(int, t)) for t in y] == y2, "a vertex of the scaled object is misplaced", m=m, x=x, got=y)
            k = r.randint(-4, 4)
            mm = r.randint(-4, 4)
            a = mon.call(ns.od.similarity, mon.call(ns.od.similarity, obj, mm), k)
            b = mon.call(ns.od.similarity, obj, mm + k)
            mon.case("compose", (obj, mm, k))
            if not isinstance(a, Failure) and not isinstance(b, Failure):
                mon.ok(np.array_equal(a, canon(st, b)) or np.array_equal(canon(st, a), canon(st, b)),
                       "scaling twice differs from scaling once by the summed exponent", obj=obj, m=mm, n=k)


def canon(st, o):
    o = np.asarray(o)
    return np.array([st.canon(st.frm(t)) for t in o.reshape(-1, 3)]).reshape(o.shape)


def jobs(tier, seed):
    n, k = (600, 8) if tier == "quick" else (6000, 8)
    return [("run", {"seed": seed * 1000 + i, "n": n}) for i in range(k)]
