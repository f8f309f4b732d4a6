"""C22 compiled packages: symmetric expansion, site symmetry, similarity"""
import numpy as np
from vlib import legacy
from vlib.mon import seed_of, Failure
from vlib.gen import Gen, group
from checks.c04 import mats, matmul
from checks.c05 import Act, compare, obj_and_centre
from checks.c06 import stabiliser, sites

PROP = "C22"
RULE = ("pyqcstrc.dode and pyqcstrc.ico compiled from the working tree; objects and centres as in C05, sites as in C06 "
        "(rational), exponents -9..11, objects up to 140 (thorough 1100) cells; images compared as multisets with the independent exact action of the point group "
        "(dode: about the centre; ico: about the origin, then moved to the centre), stabilisers and cosets with exact "
        "arithmetic, similarity with the exact scaling law. Distinct by arguments.")
MIN = {"ico.symmetric": 20, "dode.symmetric": 100, "dode.site": 150, "dode.nontrivial stabiliser": 40, "dode.site without symmetry": 20,
       "dode.similarity": 200, "ico.orbit": 20, "dode.orbit": 40, "dode.one operator": 300, "ico.one operator": 100,
       "dode.many cells": 2, "ico.many cells": 2}
ASSUMPTIONS = ["sites with rational coordinates in the unit cell"]


def prepare(scratch):
    legacy.build(scratch, {"dode": ["occupation_domain"], "ico": ["symmetry", "occupation_domain"]})


def zero():
    return np.array([[0, 0, 1]] * 6)


class Shifted:
    """ico convention: the operator acts about the origin, the result is moved to the centre"""

    def __init__(self, act):
        self.a = act

    def vec(self, i, v, c):
        st = self.a.g.style
        w = self.a.vec(i, v, zero())
        return tuple(st.canon(st.frm(x) + st.frm(y)) for x, y in zip(w, c))


def dode(mon, seed, n):
    od, S = legacy.load(mon, "dode", "occupation_domain", "symmetry12")
    g = Gen("dode2", seed_of(PROP, "d", seed))
    r, st = g.rnd, g.style
    ops = mats(mon.call(S.dodesymop))
    G = sorted(group("dode2"))
    if ops is None or sorted(ops) != G:
        mon.bad("dode: the operator list is not the group 12mm", n=len(ops or []))
        return
    mon.ok(ops[0] == tuple(tuple(int(i == j) for j in range(6)) for i in range(6)), "dode: operator 0 is not the identity")
    act = Act(g, ops)
    allsites = sites(g, 2 * n, (100, 1000))
    for it in range(n):
        obj, c, mode = obj_and_centre(g, r.choice([1, 1, 2, 3]))
        Z = zero()
        want = [tuple(sorted(act.vec(i, v, c) for v in ce)) for i in range(24) for ce in obj]
        flat = obj.reshape(-1, 6, 3)
        compare(mon, "dode.generator_obj_symmetric_triangle", mon.call(S.generator_obj_symmetric_triangle, flat, c), want, 3, obj=obj, centre=c)
        w0 = [tuple(sorted(act.vec(i, v, Z) for v in ce)) for i in range(24) for ce in obj]
        compare(mon, "dode.symmetric_12", mon.call(od.symmetric_12, obj), w0, 3, obj=obj)
        compare(mon, "dode.symmetric_12(single)", mon.call(od.symmetric_12, obj[0]),
                [tuple(sorted(act.vec(i, v, Z) for v in obj[0])) for i in range(24)], 3, obj=obj[0])
        for _ in range(4):
            i = r.randrange(24)
            w = [tuple(sorted(act.vec(i, v, c) for v in ce)) for ce in obj]
            mon.case("dode.one operator", (obj, c, i))
            compare(mon, "dode.generator_symmetric_obj_0", mon.call(S.generator_symmetric_obj_0, obj, c, i), w, 3, obj=obj, centre=c, index=i)
            compare(mon, "dode.generator_obj_symmetric_triangle_0", mon.call(S.generator_obj_symmetric_triangle_0, obj[0], c, i), w[:1], 3,
                    obj=obj[0], centre=c, index=i)
            compare(mon, "dode.generator_obj_symmetric_vec_0", mon.call(S.generator_obj_symmetric_vec_0, flat[0], i),
                    [(act.vec(i, flat[0], Z),)], 1, v=flat[0], index=i)
            q = mon.call(S.symop_vec, np.array(ops[i]), flat[0], c)
            if not isinstance(q, Failure):
                compare(mon, "dode.symop_vec", np.array(q).reshape(1, 6, 3), [(act.vec(i, flat[0], c),)], 1, v=flat[0], centre=c, index=i)
        lst = r.sample(range(24), r.randint(1, 6))
        compare(mon, "dode.specific_symop", mon.call(S.generator_obj_symmetric_triangle_specific_symop, flat, c, [np.array(ops[i]) for i in lst]),
                [tuple(sorted(act.vec(i, v, c) for v in ce)) for i in lst for ce in obj], 3, obj=obj, centre=c, list=lst)
        res = mon.call(S.generator_obj_symmetric_vec, flat, c)
        compare(mon, "dode.generator_obj_symmetric_vec", res, [(act.vec(i, x, c),) for i in range(24) for x in flat], 1, v=flat, centre=c)
        v = flat[0] if r.random() < .5 else np.array([[r.randint(-1, 1), 0, 1] for _ in range(4)] + [[0, 0, 1]] * 2)
        if it % 3 == 2:                                   # different points of one internal component
            v = g.alias(r.choice([c, zero(), v]))
            v[4:] = [[0, 0, 1]] * 2
            mon.hit("dode.orbit of a point with physical component only", int(g.geo.perp(v) == g.geo.perp(c)))
        orbit = {act.vec(i, v, c) for i in range(24)}
        mon.case("dode.orbit", (v, c))
        compare(mon, "dode.generator_equivalent_vec", mon.call(S.generator_equivalent_vec, v, c), [(x,) for x in orbit], 1, v=v, centre=c)
        # site symmetry, cosets, expansion by the site symmetry
        for site in allsites[2 * it:2 * it + 2]:
            site[4] = [0, 0, 1]
            if any(int(t[1]) for t in site):
                site = np.array([[int(t[0]), 0, int(t[2])] for t in site])
                site = np.array([[0, 0, 1] if t[0] == 0 else t for t in site.tolist()])
            H = stabiliser(g, ops, site)
            res = mon.call(od.site_symmetry, site)
            mon.case("dode.site", (site,), len(H) > 1, sample={"site": site, "stabiliser": H} if it % 31 == 3 else None)
            mon.hit("dode.nontrivial stabiliser" if len(H) > 1 else "dode.site without symmetry")
            if not isinstance(res, Failure):
                h, cs = (list(map(int, x)) for x in res)
                mon.ok(sorted(h) == H, "dode: site symmetry is not the stabiliser of the site", site=site, got=h, want=H)
                seen = [frozenset(ops.index(matmul(ops[a], ops[b])) for b in H) for a in cs]
                mon.ok(len(cs) * len(H) == 24 and len(set(seen)) == len(seen) and (set().union(*seen) if seen else set()) == set(range(24)),
                       "dode: coset list does not name every coset once", site=site, got=cs, want=H)
            o = obj if r.random() < .7 else obj[0]
            cells_ = o.reshape(-1, 3, 6, 3)
            res = mon.call(od.symmetric, o, site)
            mon.case("dode.symmetric", (o, site))
            compare(mon, "dode.symmetric", res, [tuple(sorted(act.vec(i, v, site) for v in ce)) for i in H for ce in cells_], 3,
                    obj=o, site=site, operators=H)


def similar(mon, seed, n):
    od = legacy.load(mon, "dode", "occupation_domain")
    g = Gen("dode2", seed_of(PROP, "s", seed))
    geo, K, st, r = g.geo, g.geo.K, g.style, g.rnd
    lam = K(2, 1, 1)

    def power(x, m):
        y = K(1)
        for _ in range(abs(m)):
            y = y * (x if m > 0 else x.inv())
        return y

    def n2(p):
        return p[0] * p[0] + p[1] * p[1]
    can = lambda o: [tuple(st.canon(st.frm(t))) for t in np.asarray(o).reshape(-1, 3)]
    for it in range(n):
        obj = np.array([[g.point(3, 2, 3) if r.random() < .7 else g.vec(6, 5, 4) for _ in range(3)] for _ in range(r.randint(1, 3))])
        if r.random() < .4:
            obj = g.relate(obj, r.randint(1, 4))
        if r.random() < .2:
            obj[r.randrange(len(obj)), r.randrange(3)] = zero()
        m, k = r.randint(-6, 6) if r.random() < .8 else r.choice([-9, -7, 7, 8, 11]), r.randint(-3, 3)
        a = mon.call(od.similarity, obj, m)
        mon.case("dode.similarity", (obj, m), m != 0)
        if isinstance(a, Failure):
            continue
        a = np.asarray(a)
        if a.shape != obj.shape:
            mon.bad("dode.similarity: wrong shape", obj=obj, m=m, shape=a.shape)
            continue
        for v, w in zip(obj.reshape(-1, 6, 3), a.reshape(-1, 6, 3)):
            mon.ok(n2(geo.par(w)) == n2(geo.par(v)) * power(lam, m), "dode.similarity: physical length off the law", v=v, m=m, got=w)
            mon.ok(n2(geo.perp(w)) == n2(geo.perp(v)) * power(lam, -m), "dode.similarity: internal length off the law", v=v, m=m, got=w)
            mon.ok(can(w[4:]) == can(v[4:]), "dode.similarity: periodic axes scaled", v=v, m=m, got=w)
            mon.ok([tuple(map(int, t)) for t in w] == can(w), "dode.similarity: not canonical", v=v, m=m, got=w)
            if all(int(t[2]) == 1 and int(t[1]) == 0 for t in v):
                mon.ok(all(int(t[2]) == 1 and int(t[1]) == 0 for t in w), "dode.similarity: left the lattice", v=v, m=m, got=w)
        b, c = mon.call(od.similarity, a, k), mon.call(od.similarity, obj, m + k)
        if not isinstance(b, Failure) and not isinstance(c, Failure):
            mon.ok(can(b) == can(c), "dode.similarity: exponents do not add", obj=obj, m=m, n=k)
        s = mon.call(od.similarity, obj[0], m)
        mon.ok(not isinstance(s, Failure) and can(s) == can(a[0]), "dode.similarity: single triangle differs", obj=obj[0], m=m)


def ico(mon, seed, n):
    od, S = legacy.load(mon, "ico", "occupation_domain", "symmetry")
    g = Gen("ico2", seed_of(PROP, "i", seed))
    r, st = g.rnd, g.style
    G = sorted(group("ico2"))
    act = Shifted(Act(g, G))
    # the operators themselves: images of the six axes
    res = mon.call(S.generator_obj_symmetric_vec, np.array([[[int(i == j), 0, 1] for j in range(6)] for i in range(6)]), zero())
    ops = None
    if not isinstance(res, Failure) and np.asarray(res).shape == (120, 6, 6, 3):
        a = np.asarray(res)[:, :, :, 0]
        ops = [tuple(tuple(int(a[k][j][i]) for j in range(6)) for i in range(6)) for k in range(120)]
    if ops is None or sorted(ops) != G:
        mon.bad("ico: the images of the axes are not the group m-3-5")
        return
    mine = Shifted(Act(g, ops))
    for it in range(n):
        obj, c, mode = obj_and_centre(g, r.choice([1, 1, 2, 3]))
        want = [tuple(sorted(act.vec(i, v, c) for v in ce)) for i in range(120) for ce in obj]
        mon.case("ico.symmetric", (obj, c))
        flat = obj.reshape(-1, 6, 3)
        compare(mon, "ico.symmetric", mon.call(od.symmetric, obj, c), want, 4, obj=obj, centre=c)
        w1 = [tuple(sorted(act.vec(i, v, c) for v in obj[0])) for i in range(120)]
        compare(mon, "ico.symmetric(single)", mon.call(od.symmetric, obj[0], c), w1, 4, obj=obj[0], centre=c)
        compare(mon, "ico.symmetric(vector)", mon.call(od.symmetric, flat[0], c), [(act.vec(i, flat[0], c),) for i in range(120)], 1,
                v=flat[0], centre=c)
        tri = obj[:, :3].copy()
        compare(mon, "ico.generator_obj_symmetric_surface", mon.call(S.generator_obj_symmetric_surface, tri.reshape(-1, 6, 3), c),
                [tuple(sorted(act.vec(i, v, c) for v in ce)) for i in range(120) for ce in tri], 3, obj=tri, centre=c)
        for _ in range(5):
            i = r.randrange(120)
            w = [tuple(sorted(mine.vec(i, v, c) for v in ce)) for ce in obj]
            mon.case("ico.one operator", (obj, c, i))
            compare(mon, "ico.generator_obj_symmetric_tetrahedron_0", mon.call(S.generator_obj_symmetric_tetrahedron_0, flat, c, i), w, 4,
                    obj=obj, centre=c, index=i)
            q = mon.call(S.symop_vec, np.array(ops[i]), flat[0], c)
            if not isinstance(q, Failure):
                compare(mon, "ico.symop_vec", np.array(q).reshape(1, 6, 3), [(mine.vec(i, flat[0], c),)], 1, v=flat[0], centre=c, index=i)
        lst = r.sample(range(120), r.randint(1, 6))
        compare(mon, "ico.specific_symop", mon.call(S.generator_obj_symmetric_tetrahedron_specific_symop, flat, c, [np.array(ops[i]) for i in lst]),
                [tuple(sorted(mine.vec(i, v, c) for v in ce)) for i in lst for ce in obj], 4, obj=obj, centre=c, list=lst)
        v = flat[0] if r.random() < .4 else np.array([[r.randint(-1, 1), 0, 1] for _ in range(6)])
        if it % 3 == 2:
            v = g.alias(r.choice([c, zero(), v]))
        orb0 = {act.vec(i, v, zero()) for i in range(120)}
        orbit = {act.vec(i, v, c) for i in range(120)}
        mon.case("ico.orbit", (v, c))
        compare(mon, "ico.generator_equivalent_vec", mon.call(S.generator_equivalent_vec, v), [(x,) for x in orb0], 1, v=v)
        res = mon.call(S.generator_equivalent_vectors, v.reshape(1, 6, 3), c)
        if not isinstance(res, Failure):
            got = [g.geo.perp(x) for x in np.asarray(res).reshape(-1, 6, 3)]
            want = {g.geo.perp(x) for x in orbit}
            mon.ok(len(got) == len(set(got)) and set(got) == want, "ico.generator_equivalent_vectors: not each internal-space image once",
                   v=v, centre=c)


def many(mon, pkg, seed, n):
    """objects of many cells, part of them related or repeated"""
    g = Gen(pkg + "2", seed_of(PROP, "many", pkg, seed))
    r, st = g.rnd, g.style
    nv = g.nv
    if pkg == "dode":
        od, S = legacy.load(mon, "dode", "occupation_domain", "symmetry12")
        ops = mats(mon.call(S.dodesymop))
        if ops is None or sorted(ops) != sorted(group("dode2")):
            mon.bad("dode: the operator list is not the group 12mm", n=len(ops or []))
            return
    else:
        od, S = legacy.load(mon, "ico", "occupation_domain", "symmetry")
        ops = sorted(group("ico2"))
    act = Act(g, ops)
    if pkg == "ico":
        act = Shifted(act)
    N = len(ops)
    obj, c, mode = obj_and_centre(g, 1)
    obj = np.array([[g.point(2, 1, 2) for _ in range(nv)] for _ in range(max(1, n // 2))])
    obj = g.relate(obj, n - len(obj))
    flat = obj.reshape(-1, 6, 3)
    memo = {}

    def img(i, v, z):
        k = (i, v.tobytes(), z.tobytes())
        if k not in memo:
            memo[k] = act.vec(i, v, z)
        return memo[k]
    Z = zero()
    mon.case("%s.many cells" % pkg, (obj, c), sample={"pkg": pkg, "cells": len(obj), "centre": c})
    if pkg == "dode":
        want = [tuple(sorted(img(i, v, c) for v in ce)) for i in range(N) for ce in obj]
        compare(mon, "dode.generator_obj_symmetric_triangle", mon.call(S.generator_obj_symmetric_triangle, flat, c), want, nv, obj=obj, centre=c)
        if n < 100:
            compare(mon, "dode.symmetric_12", mon.call(od.symmetric_12, obj), [tuple(sorted(img(i, v, Z) for v in ce)) for i in range(N) for ce in obj],
                    nv, obj=obj)
        i = r.randrange(N)
        compare(mon, "dode.generator_symmetric_obj_0", mon.call(S.generator_symmetric_obj_0, obj, c, i),
                [tuple(sorted(img(i, v, c) for v in ce)) for ce in obj], nv, obj=obj, centre=c, index=i)
        site = np.array([[r.choice([0, 1]), 0, 2] if r.random() < .5 else [0, 0, 1] for _ in range(4)] + [[0, 0, 1]] * 2)
        site = np.array([[0, 0, 1] if t[0] == 0 else t for t in site.tolist()])
        H = stabiliser(g, ops, site)
        compare(mon, "dode.symmetric", mon.call(od.symmetric, obj, site), [tuple(sorted(img(i, v, site) for v in ce)) for i in H for ce in obj], nv,
                obj=obj, site=site, operators=H)
        m = r.randint(-5, 5)
        a = mon.call(od.similarity, obj, m)
        if not isinstance(a, Failure) and np.asarray(a).shape == obj.shape:
            a = np.asarray(a)
            for j in set([0, 1, len(obj) - 1, len(obj) - 2] + r.sample(range(len(obj)), min(len(obj), 12))):
                b = mon.call(od.similarity, obj[j], m)
                mon.ok(not isinstance(b, Failure) and np.array_equal(np.asarray(b).reshape(a[j].shape), a[j]),
                       "dode.similarity: a cell of a large object is scaled otherwise than alone", obj=obj[j], m=m, cells=len(obj))
        else:
            mon.bad("dode.similarity: no object of the same shape", m=m, cells=len(obj))
    else:
        want = [tuple(sorted(img(i, v, c) for v in ce)) for i in range(N) for ce in obj]
        compare(mon, "ico.symmetric", mon.call(od.symmetric, obj, c), want, nv, obj=obj, centre=c)
        tri = obj[:, :3].copy()
        compare(mon, "ico.generator_obj_symmetric_surface", mon.call(S.generator_obj_symmetric_surface, tri.reshape(-1, 6, 3), c),
                [tuple(sorted(img(i, v, c) for v in ce)) for i in range(N) for ce in tri], 3, obj=tri, centre=c)
        V = np.array([[[r.randint(-1, 1), 0, 1] for _ in range(6)] for _ in range(r.randint(2, 4))])
        if r.random() < .5:
            V = np.concatenate([V, [g.alias(V[0])]])
        res = mon.call(S.generator_equivalent_vectors, V, c)
        if not isinstance(res, Failure):
            got = [g.geo.perp(x) for x in np.asarray(res).reshape(-1, 6, 3)]
            want = {g.geo.perp(img(i, v, c)) for v in V for i in range(N)}
            mon.ok(len(got) == len(set(got)) and set(got) == want, "ico.generator_equivalent_vectors: not each internal-space image once",
                   v=V, centre=c)


def jobs(tier, seed):
    k, nd, ni, ns = (7, 15, 5, 40) if tier == "quick" else (8, 200, 90, 900)
    sizes = [("dode", 140), ("dode", 45), ("ico", 24), ("ico", 9)] if tier == "quick" else [("dode", 1100), ("dode", 300), ("ico", 110), ("dode", 70), ("ico", 40)]
    out = [("many", {"pkg": p, "seed": seed * 1000 + i, "n": m}) for i in range(1 if tier == "quick" else 3) for p, m in sizes]
    for i in range(k):
        s = seed * 1000 + i
        out += [("ico", {"seed": s, "n": ni}), ("dode", {"seed": s, "n": nd}), ("similar", {"seed": s, "n": ns})]
    return out
