"""C09 volume (area) of an occupation domain"""
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen
from vlib.geom import Solid

PROP = "C09"
RULE = ("simplices and objects: random, flat (zero measure), thin with large coefficients (the exact value is tiny), permuted "
        "vertices, subdivided objects, symmetric images, shifted copies, single cells and nested sets; the reported "
        "measure must equal the exact non-negative measure computed independently, canonical; the numerical measure must "
        "agree to 1e-9 relative to the object scale. Non-trivial: positive measure; distinct by object.")
MIN = {"ico2.volume": 200, "dode2.volume": 200, "ico2.zero measure": 5, "dode2.zero measure": 5, "ico2.tiny measure": 5,
       "dode2.tiny measure": 5, "ico2.plain numerical": 200, "dode2.plain numerical": 200, "ico2.additive": 20, "dode2.additive": 20}


def exact(g, obj):
    s = Solid(g.geo, np.asarray(obj).reshape(-1, g.nv, 6, 3), g.dim)
    return s.measure() * g.geo.K(1, 0, 6 if g.dim == 3 else 2)


def thin(g):
    """simplex whose exact measure is a product of powers of the ring's small unit"""
    r = g.rnd
    t = g.simplex(3, 2, 3)
    st, K = g.style, g.geo.K
    # scale every vertex difference by unit^-k, written with large coefficients
    k = r.randint(6, 16) if g.pkg == "ico2" else r.randint(3, 9)
    if g.pkg == "ico2":
        u = (1, -1, 1)      # 1 - tau
    else:
        u = (2, -2, 1)      # 2 - sqrt3
    U = K(1)
    for _ in range(k):
        U = U * st.frm(u)
    out = []
    for v in t:
        out.append([st.canon(st.frm(v[i]) * U) for i in range(6)])
    return np.array(out, dtype=np.int64)


def run(mon, pkg, seed, n):
    ns = load(pkg)
    g = Gen(pkg, seed_of(PROP, pkg, seed))
    r, st = g.rnd, g.style
    vol = ns.od.volume
    vol6 = ns.utils.obj_volume_6d if pkg == "ico2" else ns.utils.obj_area_6d
    vol1 = ns.utils.tetrahedron_volume_6d if pkg == "ico2" else ns.utils.triangle_area_6d
    vol3 = ns.utils.tetrahedron_volume if pkg == "ico2" else ns.utils.triangle_area
    num = ns.numericalc.obj_volume_6d_numerical
    num1 = ns.numericalc.tetrahedron_volume_6d_numerical if pkg == "ico2" else ns.numericalc.triangle_volume_6d_numerical

    def check(name, f, obj, want, arg=None):
        res = mon.call(f, obj if arg is None else arg)
        if isinstance(res, Failure):
            return
        if res is None or np.asarray(res).shape != (3,):
            mon.bad("%s.%s: no value" % (pkg, name), obj=obj)
            return
        got = tuple(int(x) for x in res)
        if got != st.canon(want):
            w = st.frm(got) if got[2] else None
            why = "negative" if w is not None and w == -want else \
                ("not canonical" if w is not None and w == want else "wrong")
            mon.bad("%s.%s: %s measure" % (pkg, name, why), obj=obj, got=got, want=st.canon(want))

    # as many cells as a symmetric domain has
    many = np.array([g.simplex(4, 3, 5, minm=0.0) for _ in range(r.choice([130, 260]) if n < 1000 else 1500)])
    many = np.concatenate([many] * (5 if n < 1000 else 1))
    mon.hit("%s.many cells" % pkg)
    check("volume of many cells", vol, many, exact(g, many))
    for it in range(n):
        kind = r.choice(["rand", "rand", "multi", "flat", "thin", "sub", "sub", "coarse"])
        if kind == "rand":
            obj = np.array([g.simplex(3, 2, 3, minm=0.0)])
        elif kind == "multi":
            obj = np.array([g.simplex(4, 3, 5, minm=0.0) for _ in range(r.randint(2, 6))])
        elif kind == "coarse":
            obj = np.array([[g.point(60, 60, 12) for _ in range(g.nv)] for _ in range(2)])
        elif kind == "flat":
            c = g.simplex(3, 2, 3)
            w = [r.randint(0, 3) for _ in range(g.nv - 1)]
            if sum(w) == 0:
                w[0] = 1
            c[-1] = g.comb([c[j] for j in range(g.nv - 1)], w)
            r.shuffle(c)
            obj = np.array([c])
        elif kind == "thin":
            obj = np.array([thin(g) for _ in range(r.randint(1, 2))])
        else:
            base = [g.simplex(3, 2, 3) for _ in range(r.randint(1, 2))]
            obj = g.subdivide(base, r.randint(1, 4), wmax=3)
            mon.case("%s.additive" % pkg, (obj,))
            mon.ok(exact(g, obj) == exact(g, np.array(base)), "generator inconsistency")
            check("volume of parts vs whole", vol, obj, exact(g, np.array(base)))
        if r.random() < 0.2:
            obj = g.relate(obj, r.randint(1, 3))
        want = exact(g, obj)
        mon.case("%s.volume" % pkg, (obj,), not want.is_zero(),
                 sample={"pkg": pkg, "obj": obj, "measure": list(map(str, st.canon(want)))} if it % 131 == 7 else None)
        mon.hit("%s kind %s" % (pkg, kind))
        if want.is_zero():
            mon.hit("%s.zero measure" % pkg)
        elif float(want) < 1e-4:
            mon.hit("%s.tiny measure" % pkg)
        check("volume", vol, obj, want)
        check("volume of 6D object", vol6, obj, want)
        check("volume of single cell", vol, obj[0], exact(g, obj[:1]))
        check("cell volume", vol1, obj[-1], exact(g, obj[-1:]))
        check("volume of a nested set", vol6, np.array([obj, obj[::-1]]), want + want)
        sh = g.shuffle_vertices(obj)
        check("volume after reordering", vol, sh, want)
        p3 = np.array([[st.canon(x) for x in g.geo.perp(v)] for v in obj[0]], dtype=np.int64)
        check("volume of projected cell", vol3, p3, exact(g, obj[:1]))
        scale = max(1.0, max(abs(float(x)) for c in obj for v in c for x in g.geo.perp(v))) ** g.dim
        for nm, f, o, wv in (("numerical volume", num, obj, float(want)), ("numerical cell volume", num1, obj[0], float(exact(g, obj[:1])))):
            x = mon.call(f, o)
            if not isinstance(x, Failure):
                mon.ok(abs(float(x) - wv) <= 1e-9 * scale * 10, "%s.%s differs from the exact measure" % (pkg, nm), obj=o,
                       got=float(x), want=wv)
        # the plain numerical measures, of given coordinates
        nc = ns.numericalc
        c3 = np.array([[float(x) for x in g.geo.perp(v)] for v in obj[0]])
        c3 = np.hstack([c3, np.zeros((len(c3), 3 - c3.shape[1]))])
        a3 = np.cross(c3[1] - c3[0], c3[2] - c3[0])
        want3 = float(np.sqrt(a3 @ a3)) / 2
        p3x = np.array([[st.canon(x) for x in g.geo.perp(v)] for v in obj[0][:3]], dtype=np.int64)
        if p3x.shape[1] == 2:
            p3x = np.concatenate([p3x, np.array([[[0, 0, 1]]] * 3)], axis=1)
        plain = [("numerical area of a triangle", nc.triangle_area_numerical, c3[:3], want3),
                 ("area of a triangle of given coordinates", nc.triangle_area, p3x, want3)]
        if pkg == "ico2":
            co = np.array([[[float(x) for x in g.geo.perp(v)] for v in c] for c in obj])
            plain += [("numerical volume of given coordinates", nc.tetrahedron_volume_numerical, c3, float(exact(g, obj[:1]))),
                      ("numerical volume of an object of given coordinates", nc.obj_volume_numerical, co, float(want))]
        for nm, f, o, wv in plain:
            x = mon.call(f, o)
            if not isinstance(x, Failure):
                mon.ok(abs(float(x) - wv) <= 1e-8 * max(scale, 1.0) ** 1.5, "%s.%s differs from the exact measure" % (pkg, nm), obj=o,
                       got=float(x), want=wv)
        mon.hit(pkg + ".plain numerical")
        if it % 5 == 0:
            # invariance through the library's own operations
            d = g.vec(6, 4, 3)
            if pkg == "dode2":
                d[4] = d[5] = [0, 0, 1]
            s = mon.call(ns.od.shift, obj, d)
            if not isinstance(s, Failure):
                check("volume after shift", vol, s, want)
            i = r.randrange(24)
            s = mon.call(ns.od.symmetric_0, obj, d, i)
            if not isinstance(s, Failure):
                check("volume after a symmetry operation", vol, s, want)


def jobs(tier, seed):
    n, k = (250, 4) if tier == "quick" else (2500, 8)
    return [("run", {"pkg": p, "seed": seed * 1000 + i, "n": n}) for i in range(k) for p in ("ico2", "dode2")]
