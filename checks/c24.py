"""C24 compiled packages: measures, translation, identity of points, surfaces, outlines and point tests"""
import numpy as np
from vlib import legacy
from vlib import complexes as cx, isect
from vlib.mon import seed_of, Failure
from vlib.gen import Gen
from vlib.geom import in_tet, in_tri
from checks.c09 import exact, thin
from checks.c10 import comb_w, fp, margin
from checks.c14 import bag

PROP = "C24"
RULE = ("pyqcstrc.dode and pyqcstrc.ico are compiled from the working tree. Measures and translations: random, flat, thin, "
        "subdivided and shifted objects against the exact measure and the exact sums. Identity: lists of points with repetitions and "
        "several 6D representatives of one internal point. Surfaces, outlines, edges: conforming objects, compared as sets of exact "
        "points with the facets belonging to one cell, the maximal border segments, the distinct edges; fans of a convex outline "
        "against the exact area. Point tests: points known to be inside, on the boundary or clearly outside. Non-trivial: all but "
        "zero shifts; distinct by arguments.")
MIN = {"dode.area": 150, "ico.volume": 150, "dode.shift": 100, "ico.shift": 100, "dode.doubling": 100, "ico.doubling": 100,
       "dode.outline": 80, "dode.outline1": 80, "dode.fan": 15, "ico.surface": 40, "ico.edges": 40, "ico.equivalent": 100,
       "dode.inside": 100, "dode.outside": 100, "ico.inside": 100, "ico.outside": 100, "dode.grid": 8, "ico.grid": 8,
       "dode.on segment": 60, "dode.off segment": 60, "ico.on segment": 60, "ico.off segment": 60,
       "ico.pierces": 60, "ico.passes by": 60, "dode.segments cross": 40, "dode.segments apart": 40,
       "dode.zero measure": 5, "ico.zero measure": 5, "dode kind many": 2, "ico kind many": 2, "dode kind related": 20, "ico kind related": 20,
       "dode kind whole domain": 1, "ico kind slices": 2, "dode kind slices": 2, "dode.point test with many cells": 2,
       "ico.point test with many cells": 2, "dode.tiny measure": 2, "ico.tiny measure": 2}
ASSUMPTIONS = ["objects are conforming for surfaces and outlines; cells are not degenerate for point tests"]


def prepare(scratch):
    legacy.build(scratch, {"dode": ["occupation_domain", "utils12", "numericalc12"], "ico": ["occupation_domain", "utils", "numericalc"]})


def mods(mon, pkg):
    return legacy.load(mon, pkg, *(("occupation_domain", "utils12", "numericalc12") if pkg == "dode"
                                   else ("occupation_domain", "utils", "numericalc")))


def C(a):
    return np.ascontiguousarray(np.asarray(a, dtype=np.int64))


def canon6(g, v):
    return tuple(tuple(int(x) for x in g.style.canon(g.style.frm(t))) for t in v)


def num3(mon, g, pkg, name, res, want, **d):
    if isinstance(res, Failure) or res is None or len(res) != 3:
        mon.bad("%s.%s: no value" % (pkg, name), why=getattr(res, "text", None), **d)
        return
    got = tuple(int(x) for x in res)
    mon.ok(got == tuple(g.style.canon(want)), "%s.%s: wrong or not canonical" % (pkg, name), got=got, want=g.style.canon(want), **d)


def points_same(mon, g, what, res, want, **d):
    """res: array of 6D points, compared with a list of exact canonical points in order"""
    if isinstance(res, Failure):
        mon.bad("%s gave no value" % what, why=res.text, **d)
        return
    a = np.asarray(res)
    if a.size != len(want) * 18:
        mon.bad("%s: wrong shape" % what, got=a.shape, **d)
        return
    got = [tuple(tuple(int(x) for x in t) for t in v) for v in a.reshape(-1, 6, 3)]
    mon.ok(got == want, "%s: wrong or not canonical" % what, got=a, **d)


def measures(mon, pkg, seed, n):
    od, u, nc = mods(mon, pkg)
    g = Gen(pkg + "2", seed_of(PROP, "m", pkg, seed))
    r, st = g.rnd, g.style
    dode = pkg == "dode"
    vol = u.obj_area_6d if dode else u.obj_volume_6d
    vol1 = u.triangle_area_6d if dode else u.tetrahedron_volume_6d
    name = "area" if dode else "volume"
    q = dict(quiet=True)
    for it in range(n):
        kind = r.choice(["rand", "multi", "flat", "thin", "sub", "thin", "coarse", "related", "related"])
        if it == n // 2:
            kind = "many"
        if kind == "rand":
            obj = np.array([g.simplex(3, 2, 3, minm=0.0)])
        elif kind == "multi":
            obj = np.array([g.simplex(3, 2, 3, minm=0.0) for _ in range(r.randint(2, 5))])
        elif kind == "related":
            obj = g.relate([g.simplex(2, 1, 2, minm=0.0)], r.randint(1, 5))
        elif kind == "many":
            obj = np.array([g.simplex(1, 1, 1, minm=0.0) for _ in range(r.choice([60, 120]))])
            obj = g.relate(obj, 30) if r.random() < .5 else np.concatenate([obj] * r.choice([2, 3]))
        elif kind == "coarse":
            obj = np.array([[g.point(12, 12, 4) for _ in range(g.nv)]])
        elif kind == "flat":
            c = g.simplex(2, 1, 2)
            w = [r.randint(0, 3) for _ in range(g.nv - 1)]
            if sum(w) == 0:
                w[0] = 1
            c[-1] = g.comb([c[j] for j in range(g.nv - 1)], w)
            r.shuffle(c)
            obj = np.array([c])
        elif kind == "thin":
            obj = np.array([thin(g)])
            if np.abs(obj).max() > 400:
                # products of the 64-bit algorithm must fit
                continue
        else:
            obj = g.subdivide([g.simplex(2, 1, 2) for _ in range(r.randint(1, 2))], r.randint(1, 3), wmax=2)
        obj = C(obj)
        want = exact(g, obj)
        mon.case("%s.%s" % (pkg, name), (obj,), not want.is_zero(),
                 sample={"pkg": pkg, "obj": obj, "measure": list(map(str, st.canon(want)))} if it % 131 == 7 else None)
        mon.hit("%s kind %s" % (pkg, kind))
        if want.is_zero():
            mon.hit("%s.zero measure" % pkg)
        elif float(want) < 1e-2:
            mon.hit("%s.tiny measure" % pkg)
        num3(mon, g, pkg, name, mon.call(vol, obj, **q), want, obj=obj)
        num3(mon, g, pkg, "cell " + name, mon.call(vol1, C(obj[-1]), **q), exact(g, obj[-1:]), obj=obj)
        num3(mon, g, pkg, name + " after reordering", mon.call(vol, C(g.shuffle_vertices(obj)), **q), want, obj=obj)
        if not dode:
            num3(mon, g, pkg, "od.volume", mon.call(od.volume, obj, **q), want, obj=obj)
            scale = max(1.0, max(abs(float(x)) for c in obj for v in c for x in g.geo.perp(v))) ** g.dim
            for f, o, w in ((nc.obj_volume_6d_numerical, obj, want), (nc.tetrahedron_volume_6d_numerical, C(obj[0]), exact(g, obj[:1]))):
                x = mon.call(f, o, **q)
                mon.ok(not isinstance(x, Failure) and abs(x - float(w)) <= 1e-8 * scale, "ico.numerical volume differs from the exact one",
                       obj=o, got=getattr(x, "text", x), want=float(w))
        # translation: every vertex moves by exactly the vector, whatever the vector
        kind = r.choice(["lattice", "zero", "rat", "irr", "field"])
        if kind == "lattice":
            d = [[r.randint(-3, 3), 0, 1] for _ in range(6)]
        elif kind == "zero":
            d = [[0, 0, 1]] * 6
        elif kind == "rat":
            d = [[r.randint(-5, 5), 0, r.randint(1, 4)] for _ in range(6)]
        elif kind == "irr":
            d = [[0, r.randint(-3, 3), 1] for _ in range(6)]
        else:
            d = g.vec(6, 3, 2)
        if dode:
            d = list(d)[:4] + [[0, 0, 1]] * 2
        d = C(d)
        w = [tuple(tuple(int(x) for x in st.canon(st.frm(a) + st.frm(b))) for a, b in zip(v, d)) for c in obj for v in c]
        for f in (od.shift, u.shift_object):
            res = mon.call(f, obj, d, 0, **q)
            mon.case(pkg + ".shift", (f.__name__, obj, d), kind != "zero")
            points_same(mon, g, "%s.%s" % (pkg, f.__name__), res, w, obj=obj, shift=d)
        # identity of points
        base = [g.point(2, 1, 2) for _ in range(r.randint(1, 4))]
        pts = []
        if r.random() < .4:                 # points that agree in all but one coordinate, its irrational part or its denominator
            p = base[0].copy()
            k = r.randrange(6 if not dode else 4)
            t = list(map(int, p[k]))
            p[k] = st.canon(st.frm(r.choice([[t[0] + 1, t[1], t[2]], [t[0], t[1] + 1, t[2]], [t[0], t[1], t[2] + 1], [-t[0], t[1], t[2]], [t[0], -t[1], t[2]],
                                             [t[1], t[0], t[2]]])))
            base.append(p)
        if r.random() < .4:                 # the same numerators in internal space
            base.append(np.array([st.canon(st.frm(t) * g.geo.K(1, 0, 7)) for t in base[0]]))
        size = r.choice([2, 4, 6, 8])
        if it % 20 == 5:
            size = r.choice([60, 140])
            base += [g.point(2, 1, 2) for _ in range(size // 3)]
        for _ in range(size):
            p = r.choice(base)
            pts.append(g.alias(p, 1) if r.random() < .4 else p.copy())
        P = C(pts)
        P4 = P.reshape(len(P) // 2, 2, 6, 3)
        internal = lambda v: cx.pkey(g, v)
        for f, arg, key in ((u.remove_doubling_dim3, P, lambda v: tuple(map(tuple, v.tolist()))), (u.remove_doubling_dim4, P4, lambda v: tuple(map(tuple, v.tolist()))),
                            (u.remove_doubling_dim3_in_perp_space, P, internal), (u.remove_doubling_dim4_in_perp_space, P4, internal)):
            res = mon.call(f, arg, **q)
            mon.case(pkg + ".doubling", (f.__name__, arg))
            if isinstance(res, Failure) or np.asarray(res).ndim != 3:
                mon.bad("%s.%s gave no list of points" % (pkg, f.__name__), pts=arg, why=getattr(res, "text", None))
                continue
            ks = [key(v) for v in res]
            mon.ok(len(set(ks)) == len(ks) and set(ks) == {key(v) for v in P},
                   "%s.%s does not keep every point exactly once" % (pkg, f.__name__), pts=arg, got=res)
            inp = {tuple(map(tuple, v.tolist())) for v in P}
            mon.ok(all(tuple(map(tuple, np.asarray(v).tolist())) in inp for v in res), "%s.%s returns a point that was not given" % (pkg, f.__name__),
                   pts=arg, got=res)
        if not dode:
            a, b = g.point(3, 2, 3), g.point(3, 2, 3)
            half = st.frm([1, 0, 2])
            w = [tuple(tuple(int(x) for x in st.canon((st.frm(s) + st.frm(t)) * half)) for s, t in zip(a, b))]
            points_same(mon, g, "ico.middle_position", mon.call(u.middle_position, a, b, **q), w, a=a, b=b)


def compare(mon, g, pkg, what, got, want, obj):
    if isinstance(got, Failure) or got is None:
        mon.bad("%s %s: no value" % (pkg, what), obj=obj, why=getattr(got, "text", None))
        return None
    got = np.asarray(got)
    if got.ndim != 4 or got.shape[2:] != (6, 3):
        mon.bad("%s %s: not a set of simplices" % (pkg, what), obj=obj, shape=got.shape)
        return None
    b = bag(g, got)
    if b != want:
        miss = sum(max(0, n - b.get(k, 0)) for k, n in want.items())
        extra = sum(max(0, n - want.get(k, 0)) for k, n in b.items())
        mon.bad("%s %s: %d missing, %d superfluous or repeated (of %d)" % (pkg, what, miss, extra, sum(want.values())), obj=obj, got=got)
        return None
    return got


def surfaces(mon, pkg, seed, n):
    od, u, nc = mods(mon, pkg)
    g = Gen(pkg + "2", seed_of(PROP, "s", pkg, seed))
    r = g.rnd
    q = dict(quiet=True)
    one = lambda it: {k: 1 for k in it}
    for it in range(n):
        kind, A = cx.make(g, 10)
        if it == n // 2 and pkg == "dode":
            kind, A = "whole domain", cx.symmetric_star(g)
        elif it in (n // 2, n // 3):
            m = r.choice([12, 18, 24] if pkg == "ico" else [9, 14, 19]) if it == n // 2 else r.choice([40, 60] if pkg == "ico" else [45, 70, 110])
            kind, A = "slices", cx.slices(g, m)
        elif it % 7 == 3:                   # size of the cells
            f = r.choice([20, 100]) if r.random() < .5 else -r.choice([10, 30])
            A = np.array([[[g.style.canon(g.style.frm(t) * g.geo.K(f) if f > 0 else g.style.frm(t) * g.geo.K(1, 0, -f)) for t in v] for v in c] for c in A])
            kind = "large" if f > 0 else "small"
        A = C(A)
        cells = cx.cells_p(g, A)
        ed = cx.faces(cells, 2)
        mon.hit("%s kind %s" % (pkg, kind.split(",")[0]))
        if pkg == "dode":
            mon.case("dode.outline", A)
            compare(mon, g, pkg, "outline", mon.call(od.outline, A, **q), one(e for e, k in ed.items() if k == 1), A)
            mon.case("dode.outline1", A, sample={"kind": kind, "cells": len(A), "border": len(cx.outline(g, A))} if it % 23 == 3 else None)
            compare(mon, g, pkg, "outline1", mon.call(od.outline1, A, **q), one(cx.outline(g, A)), A)
            # the fan of a convex domain from a point inside it covers the domain
            if kind.split(",")[0] in ("one cell", "refined cell"):
                p = C(g.comb(list(A[0]), [1] * 3))
                T = mon.call(od.triangulation, A, p, **q)
                mon.case("dode.fan", (A, p))
                if isinstance(T, Failure) or np.asarray(T).ndim != 4:
                    mon.bad("dode.triangulation gave no object", obj=A, why=getattr(T, "text", None))
                else:
                    mon.ok(exact(g, T) == exact(g, A), "dode.triangulation: the triangles do not cover the domain", obj=A, got=T)
                    mon.ok(all(cx.pkey(g, p) in [cx.pkey(g, v) for v in t] for t in T), "dode.triangulation: a triangle misses the centre", obj=A)
        else:
            fc = cx.faces(cells, 3)
            bd = [f for f, k in fc.items() if k == 1]
            mon.case("ico.surface", A, sample={"kind": kind, "cells": len(A), "surface": len(bd)} if it % 17 == 2 else None)
            S = mon.call(od.gen_surface, A, **q)
            compare(mon, g, pkg, "surface", S, one(bd), A)
            mon.case("ico.edges", A)
            compare(mon, g, pkg, "edges of the surface", mon.call(od.generate_edges, A, **q), one(cx.faces([tuple(f) for f in bd], 2)), A)
            compare(mon, g, pkg, "edges of the cells", mon.call(u.generator_obj_edge, A, 0, **q), one(ed), A)
            # identity of triangles and edges
            T = [c[list(ix)] for c in A for ix in ((0, 1, 2), (1, 2, 3), (0, 2, 3), (0, 1, 3))]
            for _ in range(4):
                a, b = r.choice(T), r.choice(T)
                if r.random() < .5:
                    b = np.array([g.alias(v, 1) for v in a])[r.sample(range(3), 3)]
                same = {cx.pkey(g, v) for v in a} == {cx.pkey(g, v) for v in b}
                for f in (u.equivalent_triangle, u.equivalent_triangle_1):
                    x = mon.call(f, C(a).ravel(), C(b).ravel(), **q)
                    mon.case("ico.equivalent", (f.__name__, a, b))
                    mon.ok(not isinstance(x, Failure) and int(x) == (0 if same else 1), "ico.%s is wrong" % f.__name__, a=a, b=b, got=getattr(x, "text", x))
                e, f_ = a[:2], b[r.sample(range(3), 2)]
                same = {cx.pkey(g, v) for v in e} == {cx.pkey(g, v) for v in f_}
                x = mon.call(u.equivalent_edge, C(e), C(f_), **q)
                mon.ok(not isinstance(x, Failure) and int(x) == (0 if same else 1), "ico.equivalent_edge is wrong", a=e, b=f_, got=getattr(x, "text", x))


def points(mon, pkg, seed, n):
    od, u, nc = mods(mon, pkg)
    g = Gen(pkg + "2", seed_of(PROP, "p", pkg, seed))
    r = g.rnd
    dode = pkg == "dode"
    D, inc = g.dim, (in_tri if dode else in_tet)
    q = dict(quiet=True)

    def al(v):
        return C(g.alias(v, 1) if r.random() < 0.3 else v)

    def expect(kind, f, args, want):
        mon.case("%s.%s" % (pkg, kind), (f.__name__, args))
        x = mon.call(f, *args, **q)
        mon.ok(not isinstance(x, Failure) and int(x) == want, "%s.%s is wrong for a case that is %s" % (pkg, f.__name__, kind),
               args=args, got=getattr(x, "text", x), want=want)
    for it in range(n):
        m, b, cm = r.choice([(1, 0, 1), (2, 0, 1), (1, 1, 1), (2, 1, 2)])
        c = g.simplex(m, b, cm, 0.1)
        den = r.choice([4, 6, 9, 12])
        for inside in (True, True, False):
            w = [0] * g.nv
            if inside:
                for _ in range(den):
                    w[r.randrange(g.nv)] += 1
                wd = den
            else:
                wd = r.choice([12, 25, 50])
                w = [r.randint(-2, 6) for _ in range(g.nv)]
                w[r.randrange(g.nv)] = -r.choice([1, 2, 30])
                w[max(range(g.nv), key=lambda j: w[j])] += wd - sum(w)
            p = comb_w(g, list(c), w, wd)
            k = "inside" if inside else "outside"
            if dode:
                expect(k, nc.inside_outside_triangle, (al(p), C(c), 0), 0 if inside else 1)
            else:
                expect(k, nc.inside_outside_tetrahedron, (al(p),) + tuple(al(v) for v in c), 0 if inside else 1)
        near(g, nc, c, al, expect)
        # a set of cells: interior points strictly inside one cell, outside points clear of all
        obj = C(g.subdivide([c] + ([g.simplex(m, b, cm, 0.1)] if r.random() < .4 else []), r.randint(0, 3), 2))
        cells = cx.cells_p(g, obj)
        for _ in range(4):
            lam = np.array([r.random() for _ in range(g.nv)]) + 0.05
            j = r.randrange(len(obj))
            lam /= lam.sum()
            if r.random() < .5:
                lam[r.randrange(g.nv)] -= r.choice([.2, .5, 1.5])
                lam /= lam.sum() or 1
            pf = sum(l * fp(g, v) for l, v in zip(lam, obj[j]))
            ms = [fmargin(pf, [[float(x) for x in v] for v in cc], D) for cc in cells]
            if max(ms) > .005:
                want = 0
            elif max(ms) < -.005:
                want = 1
            else:
                continue
            if dode:
                expect("inside" if want == 0 else "outside", nc.inout_occupation_domain_numerical, (obj, np.array(pf), 0), want)
            else:
                expect("inside" if want == 0 else "outside", nc.inside_outside_obj, (list(map(float, pf)), obj), want)
        if it == n // 2:                    # many cells, far apart
            obj2 = C(isect.scattered(g, 70 if dode else 40)[0])
            fc = [[[float(x) for x in v] for v in cc] for cc in cx.cells_p(g, obj2)]
            mon.hit("%s.point test with many cells" % pkg)
            for j in [0, 1, len(obj2) - 2, len(obj2) - 1] + r.sample(range(len(obj2)), 12):
                lam = np.array([r.random() for _ in range(g.nv)]) + .05
                lam /= lam.sum()
                if r.random() < .3:
                    lam[r.randrange(g.nv)] -= r.choice([.5, 1.5])
                    lam /= lam.sum() or 1
                pf = sum(l * fp(g, v) for l, v in zip(lam, obj2[j]))
                mm = max(fmargin(pf, cc, D) for cc in fc)
                if abs(mm) < .01:
                    continue
                if dode:
                    expect("inside" if mm > 0 else "outside", nc.inout_occupation_domain_numerical, (obj2, np.array(pf), 0), int(mm < 0))
                else:
                    expect("inside" if mm > 0 else "outside", nc.inside_outside_obj, (list(map(float, pf)), obj2), int(mm < 0))
        # grid of points inside the object
        if it % 12 == 0:
            F = np.array([[float(x) for x in p] + [0.] * (3 - D) for cc in cells for p in cc])
            hi = F.max(axis=0)
            if min(hi[:D]) > .2:
                ns = [3, 3, 3 if not dode else 0]
                step = [float(hi[k]) / (3.3 + r.random()) if hi[k] > 0 else 1.0 for k in range(3)]
                got = mon.call(u.get_points_inside_obj, obj, step, ns, **q)
                mon.case(pkg + ".grid", (obj, step))
                if isinstance(got, Failure):
                    mon.bad("%s.get_points_inside_obj gave no value" % pkg, obj=obj, why=got.text)
                else:
                    G_ = {tuple(int(round(x / s)) for x, s in zip(p, step)) for p in got}
                    mon.ok(len(G_) == len(got), "%s.get_points_inside_obj repeats a point" % pkg, obj=obj, step=step)
                    for i in range(ns[0] + 1):
                        for j in range(ns[1] + 1):
                            for k in range(ns[2] + 1):
                                pf = [i * step[0], j * step[1], k * step[2]]
                                mm = max(fmargin(pf, [[float(x) for x in v] for v in cc], D) for cc in cells)
                                if abs(mm) > .005:
                                    mon.ok(((i, j, k) in G_) == (mm > 0), "%s.get_points_inside_obj: a grid point is wrong" % pkg,
                                           obj=obj, step=step, point=pf, inside=bool(mm > 0))
        # points and segments
        A, B = c[0], c[1]
        L = np.linalg.norm(fp(g, A) - fp(g, B))
        if L > .3:
            d = r.choice([2, 3, 5, 8])
            k = r.randint(0, d) if d < 8 else r.randint(1, 7)
            if 0 < k < d:
                expect("on segment", nc.point_on_segment, (al(comb_w(g, [A, B], [d - k, k], d)), al(A), al(B)), 0)
            k = r.choice([d + 1, 2 * d])
            expect("off segment", nc.point_on_segment, (al(comb_w(g, [A, B], [d - k, k], d)), al(A), al(B)), 1)
            expect("off segment", nc.point_on_segment, (al(comb_w(g, [A, B, c[2]], [d - 1, d - 1, 2], 2 * d)), al(A), al(B)), 2)
        # crossing tests, general position
        w = [r.randint(1, 5) for _ in range(3)] if not dode else [r.randint(1, 5) for _ in range(2)]
        hit = r.random() < .5
        if not dode:
            if not hit:
                w[r.randrange(3)] = -r.randint(1, 3)
            if sum(w) <= 0:
                continue
            tri, top = c[:3], c[3]
            x = comb_w(g, list(tri), w, sum(w))
            k = r.randint(1, 3)
            bot = comb_w(g, [x, top], [1 + k, -k], 1)
            seg = [top, bot] if r.random() < .5 else [bot, top]
            if hit and r.random() < .4:
                # stops short of the triangle
                seg = [top, comb_w(g, [x, top], [4, 1], 5)]
                r.shuffle(seg)
                hit = False
            if max(np.abs(s).max() for s in seg) < 10**6:
                expect("pierces" if hit else "passes by", nc.check_intersection_segment_surface_numerical,
                       (al(seg[0]), al(seg[1])) + tuple(al(v) for v in tri), 0 if hit else 1)
        else:
            if not hit:
                w[r.randrange(2)] = -r.randint(1, 3)
            if sum(w) <= 0:
                continue
            x = comb_w(g, [c[0], c[1]], w, sum(w))
            k = r.randint(1, 3)
            bot = comb_w(g, [x, c[2]], [1 + k, -k], 1)
            s1, s2 = np.array([al(c[0]), al(c[1])]), np.array([al(c[2]), al(bot)])
            if r.random() < .5:
                s1, s2 = s2, s1
            kk = "segments cross" if hit else "segments apart"
            expect(kk, nc.check_intersection_two_segment_numerical, (C(s1), C(s2), 0), 0 if hit else 1)
            # a segment and the border of a triangle
            if hit:
                expect(kk, nc.check_intersection_line_segment_triangle, (C([al(x), al(bot)]), C(c), 0), 0) if False else None


def near(g, nc, c, al, expect):
    """clear by little more than the tolerance (1e-6) of the predicates"""
    r = g.rnd
    fl = np.array([fp(g, v) for v in c])
    den = r.choice([300, 3000, 30000, 240000])
    k = r.randrange(3)
    if k == 0:
        sgn = r.choice([-1, 1])
        i = r.randrange(g.nv)
        w = [r.randint(1, 4) * (den // 20) for _ in c]
        w[i] = sgn
        w[i - 1] += den - sum(w)
        p = comb_w(g, list(c), w, den)
        if g.dim == 2:
            if np.linalg.norm(np.cross(fl[1] - fl[0], fl[2] - fl[0])) / den > 4e-6:
                expect("inside" if sgn > 0 else "outside", nc.inside_outside_triangle, (al(p), C(c), 0), int(sgn < 0))
                expect("inside" if sgn > 0 else "outside", nc.inout_occupation_domain_numerical, (C([c]), fp(g, p), 0), int(sgn < 0))
        else:
            expect("inside" if sgn > 0 else "outside", nc.inside_outside_tetrahedron, (al(p),) + tuple(al(v) for v in c), int(sgn < 0))
            expect("inside" if sgn > 0 else "outside", nc.inside_outside_obj, (fp(g, p).tolist(), C([c])), int(sgn < 0))
    elif k == 1:
        A, B = c[0], c[1]
        m = r.choice(["beyond", "beside", "on"])
        P = comb_w(g, [A, B, c[2]], {"beyond": [-1, den + 1, 0], "beside": [den // 2, den - 1 - den // 2, 1], "on": [1, den - 1, 0]}[m], den)
        p, a, b = fp(g, P), fl[0], fl[1]
        off = np.linalg.norm(p - a) * np.linalg.norm(b - a) - np.dot(p - a, b - a)
        if m == "on":
            expect("on segment", nc.point_on_segment, (al(P), al(A), al(B)), 0)
        elif m == "beyond" or off > 4e-6:
            expect("off segment", nc.point_on_segment, (al(P), al(A), al(B)), 1 if m == "beyond" else 2)
    else:
        m = r.choice(["short", "side", "angle"])
        n = g.nv - 1
        X = comb_w(g, list(c[:n]), [2, 1] if n == 2 else [2, 1, 1], n + 1)
        top = c[n]
        if m == "short":
            seg = [top, comb_w(g, [X, top], [den - 1, 1], den)]
        elif m == "side":
            w = [-1, den + 1] if n == 2 else [-1, den // 3, den + 1 - den // 3]
            r.shuffle(w)
            Y = comb_w(g, list(c[:n]), w, den)
            seg = [top, comb_w(g, [Y, top], [3, -1], 2)]
        else:
            q = den // 4
            seg = [comb_w(g, [X, c[1], c[0], top], [den, q, -q - 1, 1], den), comb_w(g, [X, c[1], c[0], top], [den, -q, q + 1, -1], den)]
        f = np.array([fp(g, v) for v in seg])
        if n == 3:
            if abs(np.dot(np.cross(fl[1] - fl[0], fl[2] - fl[0]), f[1] - f[0])) < 4e-6:
                return
            hit = m == "angle"
            expect("pierces" if hit else "passes by", nc.check_intersection_segment_surface_numerical,
                   (al(seg[0]), al(seg[1])) + tuple(al(v) for v in c[:3]), 0 if hit else 1)
        else:
            if np.sum(np.cross(fl[1] - fl[0], f[1] - f[0]) ** 2) < 4e-6:
                return
            s1, s2 = [np.array([al(v) for v in x]) for x in (c[:2], seg)]
            if r.random() < .5:
                s1, s2 = s2, s1
            expect("segments cross" if m == "angle" else "segments apart", nc.check_intersection_two_segment_numerical,
                   (C(s1), C(s2), 0), 0 if m == "angle" else 1)


def fmargin(p, cell, D):
    """smallest barycentric coordinate (>0 inside)"""
    M = np.array([[cell[j][k] for j in range(D + 1)] for k in range(D)] + [[1.0] * (D + 1)])
    return float(np.linalg.solve(M, np.array([p[k] for k in range(D)] + [1.0])).min())


def jobs(tier, seed):
    a, b, c, k = (60, 22, 60, 4) if tier == "quick" else (600, 150, 600, 8)
    out = []
    for i in range(k):
        for p in ("ico", "dode"):
            s = seed * 1000 + i
            out += [("surfaces", {"pkg": p, "seed": s, "n": b if p == "ico" else 2 * b}), ("measures", {"pkg": p, "seed": s, "n": a}),
                    ("points", {"pkg": p, "seed": s, "n": c})]
    return out
