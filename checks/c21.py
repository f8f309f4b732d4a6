"""C21 compiled packages: exact scalar and vector arithmetic, determinants, projections"""
import random
import numpy as np
from vlib import legacy
from vlib.mon import seed_of, Failure
from vlib.gen import Gen
from checks.c01 import operand

PROP = "C21"
RULE = ("pyqcstrc.dode and pyqcstrc.ico are compiled from the working tree; operands from the magnitude classes of C01, "
        "bounded so that the 64-bit products the code forms fit (2^29 for +,-,*; 2^19 for division), vectors and "
        "matrices of such numbers; every result is compared with the unbounded-integer field implementation and must "
        "be the canonical triple; numerical projections with the exact value. Non-trivial: operands non-zero; "
        "distinct by (operation, operands).")
MIN = {"dode.add": 2000, "dode.mul": 2000, "dode.div": 2000, "ico.add": 2000, "ico.mul": 2000, "ico.div": 2000,
       "dode.projection": 400, "ico.projection": 400, "ico.det_matrix": 300, "dode.det_matrix": 300,
       "intermediate beyond 2^53": 500, "ico.projection_perp": 300, "dode.numeric": 500, "ico.numeric": 500}
ASSUMPTIONS = ["operands small enough that the 64-bit products of the algorithm do not overflow"]


def prepare(scratch):
    legacy.build(scratch, {"dode": ["math12", "numericalc12"], "ico": ["math1", "numericalc"]})


def small(r, x, lim):
    """scale an operand into the magnitude range"""
    while max(map(abs, x)) > lim:
        k = r.randint(2, 1 << 12)
        s = [int(v / k) if abs(v) < 2**53 else v // k for v in x]
        x = [s[0], s[1], s[2] if s[2] else 1]
    return x


def scal(mon, pkg, st, op, f, x, y):
    X, Y = st.frm(x), st.frm(y)
    args = [int(v) for v in x] + [int(v) for v in y]
    if op == "div" and Y.is_zero():
        r = mon.call(f, *args, quiet=True)
        mon.case("div by zero", (pkg, x, y))
        if isinstance(r, (list, tuple)) and len(r) == 3:
            mon.bad("%s: division by zero returned a number" % pkg, x=x, y=y, got=r)
        return
    want = {"add": lambda: X + Y, "sub": lambda: X - Y, "mul": lambda: X * Y, "div": lambda: X / Y}[op]()
    wt = tuple(st.canon(want))
    if max(map(abs, x)) * max(map(abs, y)) >= 2**53 or op == "div" and max(map(abs, x)) * max(map(abs, y)) >= 2**34:
        mon.hit("intermediate beyond 2^53")
    r = mon.call(f, *args, quiet=True)
    mon.case("%s.%s" % (pkg, op), (op, x, y), not X.is_zero() and not Y.is_zero(),
             sample={"op": pkg + "." + op, "x": x, "y": y, "want": [str(v) for v in wt]} if mon.evals % 997 == 1 else None)
    if isinstance(r, Failure):
        mon.bad("%s.%s gave no value: %s" % (pkg, op, r.text), x=x, y=y)
    elif tuple(int(v) for v in r) != wt:
        mon.bad("%s.%s is not the canonical exact result" % (pkg, op), x=x, y=y, got=r, want=wt)


def scalars(mon, pkg, seed, n):
    m = legacy.load(mon, pkg, "math12" if pkg == "dode" else "math1")
    g = Gen(pkg + "2", seed_of(PROP, pkg, seed))
    st = g.style
    r = g.rnd
    for it in range(n):
        for op in ("add", "sub", "mul", "div"):
            lim = 2**29 if op != "div" else 2**19
            x, y = (small(r, operand(r, r.randrange(12)), r.choice([lim, lim, 1000, 2**15])) for _ in range(2))
            if r.random() < 0.15:                       # products beyond 2^53 that still fit in 64 bits
                x, y = ([r.randint(-lim, lim), r.randint(-lim, lim), r.randint(1, lim)] for _ in range(2))
            if r.random() < 0.15:
                y = list(x) if r.random() < 0.5 else [-x[0], -x[1], x[2]]
            scal(mon, pkg, st, op, getattr(m, op, None), x, y) if hasattr(m, op) else mon.bad("%s has no %s" % (pkg, op))


def cmp(mon, pkg, op, st, res, want, args, n=None):
    mon.case("%s.%s" % (pkg, op), (op,) + tuple(args))
    if isinstance(res, Failure) or res is None:
        mon.bad("%s.%s gave no value" % (pkg, op), args=args, why=getattr(res, "text", None))
        return
    got = [tuple(int(v) for v in t) for t in np.asarray(res).reshape(-1, 3)]
    w = [tuple(st.canon(v)) for v in want]
    if got != w:
        mon.bad("%s.%s is not the canonical exact result" % (pkg, op), args=args, got=got, want=w)


def vectors(mon, pkg, seed, n):
    dode = pkg == "dode"
    m, nc = legacy.load(mon, pkg, "math12" if dode else "math1", "numericalc12" if dode else "numericalc")
    g = Gen(pkg + "2", seed_of(PROP, "v", pkg, seed))
    st, geo, r = g.style, g.geo, g.rnd
    q = dict(quiet=True)

    def X(v):
        return [st.frm(t) for t in v]

    def vec(k):
        c = r.random()
        if c < 0.2:
            v = [[r.randint(-9, 9), 0, 1] for _ in range(k)]
        elif c < 0.3:
            v = [[0, 0, 1]] * k
            v = [list(t) for t in v]
            v[r.randrange(k)] = g.num(3, 3)
        elif c < 0.9:
            return g.vec(k, 9, 7)
        else:
            return g.vec(k, 60, 12)
        return np.array(v, dtype=np.int64)

    def numeric(op, res, want, scale, args):
        mon.case("%s.numeric" % pkg, (op,) + tuple(args))
        if isinstance(res, Failure) or res is None:
            mon.bad("%s.%s gave no value" % (pkg, op), args=args, why=getattr(res, "text", None))
            return
        a, w = np.asarray(res, dtype=float).ravel(), np.asarray(want, dtype=float).ravel()
        if a.shape != w.shape or not np.all(np.abs(a - w) <= 1e-11 * max(1.0, scale)):
            mon.bad("%s.%s differs from the exact value" % (pkg, op), args=args, got=a, want=w)
    for it in range(n):
        v, w = vec(6), vec(6)
        if r.random() < .15:                    # related and repeated coordinates
            w = [v.copy(), v * np.array([-1, -1, 1]), v[::-1].copy(), np.roll(v, 1, axis=0)][r.randrange(4)]
        elif r.random() < .12:
            v = np.array([v[0]] * 6) if r.random() < .5 else np.array([v[0], v[1]] * 3)
        V, W = X(v), X(w)
        s = small(r, operand(r, r.choice([0, 1, 2, 5, 6, 10, 11])), 2000)
        S = st.frm(s)
        cmp(mon, pkg, "add_vectors", st, mon.call(m.add_vectors, v, w, **q), [a + b for a, b in zip(V, W)], (v, w))
        if dode:
            cmp(mon, pkg, "sub_vectors", st, mon.call(m.sub_vectors, v, w, **q), [a - b for a, b in zip(V, W)], (v, w))
        cmp(mon, pkg, "mul_vector", st, mon.call(m.mul_vector, v, s, **q), [a * S for a in V], (v, s))
        if it % 3 == 0:
            vs = np.array([vec(6) for _ in range(r.randint(1, 4) if it % 30 else r.choice([24, 70]))])
            if len(vs) > 2 and r.random() < .4:
                vs[-1] = vs[0]
            cmp(mon, pkg, "mul_vectors", st, mon.call(m.mul_vectors, vs, s, **q), [a * S for u in vs for a in X(u)], (vs, s))
        a3, b3, c3 = v[:3].copy(), w[:3].copy(), vec(3)
        A, B, C = V[:3], W[:3], X(c3)
        cr = [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]]
        cmp(mon, pkg, "outer_product", st, mon.call(m.outer_product, a3, b3, **q), cr, (a3, b3))
        d = A[0] * B[0] + A[1] * B[1] + A[2] * B[2]
        cmp(mon, pkg, "dot_product", st, mon.call(m.dot_product, *a3, *b3, **q), [d], (a3, b3))
        if not dode:
            cmp(mon, pkg, "inner_product", st, mon.call(m.inner_product, a3, b3, **q), [d], (a3, b3))
        if max(abs(int(t)) for t in np.concatenate([a3, b3, c3]).ravel()) <= 60:
            det = cr[0] * C[0] + cr[1] * C[1] + cr[2] * C[2]
            cmp(mon, pkg, "det_matrix", st, mon.call(m.det_matrix, a3, b3, c3, **q), [det], (a3, b3, c3))
        pa, pe = list(geo.par(v)), list(geo.perp(v))
        cmp(mon, pkg, "projection", st, mon.call(m.projection, *v, **q), pa + pe, (v,))
        cmp(mon, pkg, "projection3", st, mon.call(m.projection3, *v, **q), pe, (v,))
        fv = [float(x) for x in V]
        sc = max(map(abs, fv)) * 8 + 8
        fp, fe = [float(x) for x in pa], [float(x) for x in pe]
        if dode:
            numeric("get_internal_component_numerical", mon.call(nc.get_internal_component_numerical, v, **q), fe, sc, (v,))
            numeric("projection_numerical", mon.call(nc.projection_numerical, v, **q), fp + fe, sc, (v,))
            numeric("projection_1_numerical", mon.call(nc.projection_1_numerical, *fv, **q), fp + fe, sc, (v,))
            u = np.array([[r.uniform(-.5, .5) for _ in range(2)] for _ in range(2)])
            if r.random() < .15:
                u[:] = 0
            # phason strain: the internal component is sheared by the physical one
            fi = [fe[0] + u[0][0] * fp[0] + u[1][0] * fp[1], fe[1] + u[0][1] * fp[0] + u[1][1] * fp[1], fe[2]]
            numeric("projection_2_numerical", mon.call(nc.projection_2_numerical, *fv, *u.ravel(), **q), fp + fi, sc, (v, u))
            numeric("projection_numerical_phason_1", mon.call(nc.projection_numerical_phason_1, v, u, **q), fp + fi, sc, (v, u))
            numeric("get_internal_component_phason_numerical", mon.call(nc.get_internal_component_phason_numerical, v, u, **q), fi, sc, (v, u))
        else:
            numeric("projection_numerical", mon.call(nc.projection_numerical, *fv, **q), fp + fe, sc, (v,))
            numeric("projection3_numerical", mon.call(nc.projection3_numerical, *fv, **q), fe, sc, (v,))
            res = mon.call(m.projection_perp, *v, **q)
            mon.case("ico.projection_perp", (v,))
            if isinstance(res, Failure) or np.asarray(res).shape != (6, 3):
                mon.bad("ico.projection_perp gave no 6D vector", v=v, why=getattr(res, "text", None))
            else:
                mon.ok(list(geo.perp(res)) == pe, "ico.projection_perp changed the internal component", v=v, got=res)
                mon.ok(all(x.is_zero() for x in geo.par(res)), "ico.projection_perp result has a physical component", v=v, got=res)
            fa, fb, fc = (np.array([float(x) for x in t]) for t in (A, B, C))
            numeric("triangle_area", mon.call(m.triangle_area, a3, b3, c3, **q),
                    np.linalg.norm(np.cross(fb - fa, fc - fa)) / 2, 2000 + sc * sc, (a3, b3, c3))
            if it % 4 == 0:
                tet = np.array([g.vec(6, 5, 4) for _ in range(4)])
                T = [X(t) for t in tet]
                quarter = st.frm([1, 0, 4])
                cmp(mon, pkg, "centroid", st, mon.call(m.centroid, tet, **q),
                    [(T[0][i] + T[1][i] + T[2][i] + T[3][i]) * quarter for i in range(6)], (tet,))
                k = r.randint(3, 6) if r.random() < .85 else 15
                base = [g.point(2, 1, 2) for _ in range(3)]
                pts = list(base)
                planar = r.random() < .6
                for _ in range(k - 3):
                    wgt = [r.randint(-3, 3) for _ in range(2)]
                    pts.append(g.comb(base, wgt + [1 - sum(wgt)]) if planar else g.point(2, 1, 2))
                if k > 3 and planar and r.random() < .4:       # one point off the plane by very little
                    fi = [1, 1]
                    while len(fi) < r.randint(6, 18):
                        fi.append(fi[-1] + fi[-2])
                    t = pts[-1].copy()
                    j = r.randrange(6)
                    t[j] = st.canon(st.frm(t[j]) + st.frm([fi[-1], -fi[-2], 1] if r.random() < .5 else [-fi[-2], fi[-3], 1]))
                    pts[-1] = t
                    mon.hit("ico.nearly coplanar")
                if k > 3 and r.random() < .3:                  # the first points on a line, or one point repeated
                    j = r.randint(2, 3)
                    t = r.choice([0, 1, 2, -2])
                    pts[j] = g.comb([pts[0], pts[1]], [3 - t, t]) if r.random() < .7 else g.alias(pts[r.randrange(2)], 1)
                    if r.random() < .3:
                        pts[1] = pts[0].copy()
                    mon.hit("ico.first points on a line")
                E = [geo.perp(p) for p in pts]
                from vlib import geom
                cop = True
                for e1 in E[1:]:
                    for e2 in E[1:]:
                        nrm = geom.cross(geom.sub(e1, E[0]), geom.sub(e2, E[0]))
                        cop = cop and all(geom.dot(nrm, geom.sub(e, E[0])).is_zero() for e in E[1:])
                P = np.array(pts)
                got = mon.call(m.coplanar_check, P, **q)
                mon.case("ico.coplanar_check", (P,), len(pts) > 3)
                mon.hit("ico.coplanar" if cop else "ico.not coplanar")
                mon.ok(not isinstance(got, Failure) and int(got) == (1 if cop else 0),
                       "ico.coplanar_check is wrong", pts=P, got=getattr(got, "text", got), want=cop)


def jobs(tier, seed):
    n, v, k = (1500, 250, 4) if tier == "quick" else (15000, 2500, 8)
    out = []
    for i in range(k):
        for p in ("ico", "dode"):
            out.append(("scalars", {"pkg": p, "seed": seed * 1000 + i, "n": n}))
            out.append(("vectors", {"pkg": p, "seed": seed * 1000 + i, "n": v}))
    return out
