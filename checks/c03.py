"""C03 projections onto the physical and internal spaces"""
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen
from checks.c02 import check

PROP = "C03"
RULE = ("random 6D vectors (lattice vectors, rational, field-valued, large, negative-denominator) and sets of them; the "
        "exact projections are compared entry by entry with an independent exact matrix, the numerical ones with the "
        "exact value evaluated to 120 bits (tolerance 1e-12 relative to the coordinate size); the "
        "internal-space 6D representative must keep the internal and lose the physical component. Distinct by vector.")
MIN = {"ico2.projection": 500, "ico2.projection3": 500, "ico2.projection_perp": 500, "ico2.numeric": 500,
       "dode2.projection": 500, "dode2.projection3": 500, "dode2.numeric": 500}
TOL = 1e-11


def close(a, b, scale=1.0):
    return abs(float(a) - float(b)) <= TOL * max(1.0, scale)


def farr(x):
    return np.asarray(x, dtype=float)


def run(mon, pkg, seed, n):
    ns = load(pkg)
    m, nc = ns.math1, ns.numericalc
    g = Gen(pkg, seed_of(PROP, pkg, seed))
    st, geo, r = g.style, g.geo, g.rnd
    K = geo.K
    q = dict(quiet=True)

    def numeric(op, res, want, scale, args):
        mon.case("%s.numeric" % pkg, (op,) + tuple(args))
        mon.hit("%s.%s" % (pkg, op))
        if isinstance(res, Failure) or res is None:
            mon.bad("%s.%s gave no value" % (pkg, op), args=args, why=getattr(res, "text", None))
            return
        a = farr(res)
        w = farr(want)
        if a.shape != w.shape and a.size == w.size and a.ndim == w.ndim + 1:
            a = a.reshape(w.shape)               # (2,3) or (6,): same six numbers
        if a.shape != w.shape:
            mon.bad("%s.%s returned shape %s, expected %s" % (pkg, op, a.shape, w.shape), args=args)
            return
        if not np.all(np.abs(a - w) <= TOL * max(1.0, scale)):
            mon.bad("%s.%s differs from the exact value" % (pkg, op), args=args, got=a, want=w)
    for it in range(n):
        kind = r.choice(["lattice", "basis", "rat", "field", "field", "large", "neg"])
        if kind == "lattice":
            v = np.array([[r.randint(-9, 9), 0, 1] for _ in range(6)])
        elif kind == "basis":
            v = np.array([[0, 0, 1]] * 6)
            v[r.randrange(6)] = g.num(3, 3)
        elif kind == "rat":
            v = np.array([[r.randint(-20, 20), 0, r.randint(1, 12)] for _ in range(6)])
        elif kind == "field":
            v = g.vec(6, 9, 7)
        elif kind == "large":
            v = g.vec(6, 5000, 50)
        else:
            v = g.vec(6, 9, 7) * -1
        pa, pe = list(geo.par(v)), list(geo.perp(v))
        check(mon, pkg, "projection", st, mon.call(m.projection, v, **q), pa + pe, (2, 3, 3), (v,))
        check(mon, pkg, "projection3", st, mon.call(m.projection3, v, **q), pe, (3, 3), (v,))
        V = [st.frm(t) for t in v]
        if pkg == "ico2":
            res = mon.call(m.projection_perp, v, **q)
            # the 6D vector lying in internal space with the same internal component
            mon.case("ico2.projection_perp", (v,))
            if isinstance(res, Failure) or res is None or np.asarray(res).shape != (6, 3):
                mon.bad("ico2.projection_perp gave no 6D vector", v=v, why=getattr(res, "text", None))
            else:
                c_ok = all(tuple(int(x) for x in t) == st.canon(st.frm(t)) for t in res)
                mon.ok(c_ok, "ico2.projection_perp result not canonical", v=v, got=res)
                mon.ok(list(geo.perp(res)) == pe, "ico2.projection_perp changed the internal component", v=v, got=res)
                mon.ok(all(x.is_zero() for x in geo.par(res)),
                       "ico2.projection_perp result has a physical component", v=v, got=res)
        # ---- numerical side ------------------------------------------------
        fv = [float(x) for x in V]
        sc = max(map(abs, fv)) * 8
        if True:
            numeric("numeric_value", mon.call(nc.numeric_value, v[0], **q), fv[0], max(abs(int(v[0][0])), abs(int(v[0][1]))), (v[0],))
            numeric("numerical_vector", mon.call(nc.numerical_vector, v, **q), fv, sc, (v,))
            fp, fe = [float(x) for x in pa], [float(x) for x in pe]
            numeric("get_internal_component_numerical", mon.call(nc.get_internal_component_numerical, v, **q), fe, sc, (v,))
            numeric("projection3_numerical", mon.call(nc.projection3_numerical, np.array(fv), **q), fe, sc, (v,))
            numeric("projection_numerical", mon.call(nc.projection_numerical, np.array(fv), **q), fp + fe, sc, (v,))
            numeric("length_numerical", mon.call(nc.length_numerical, v, **q), _len(pkg, fv, fp, fe), sc * 4, (v,))
        if it % 4 == 0:
            k = r.randint(1, 5)
            vs = np.array([g.vec(6, 9, 7) for _ in range(k)])
            FV = [[float(st.frm(t)) for t in w] for w in vs]
            E = [[float(x) for x in geo.perp(w)] for w in vs]
            P = [[float(x) for x in geo.par(w)] for w in vs]
            sc = 200
            numeric("numerical_vectors", mon.call(nc.numerical_vectors, vs, **q), FV, sc, (vs,))
            numeric("get_internal_component_sets_numerical", mon.call(nc.get_internal_component_sets_numerical, vs, **q), E, sc, (vs,))
            numeric("projection3_sets_numerical", mon.call(nc.projection3_sets_numerical, np.array(FV), **q), E, sc, (vs,))
            numeric("projection_sets_numerical", mon.call(nc.projection_sets_numerical, np.array(FV), **q),
                    [p + e for p, e in zip(P, E)], sc, (vs,))
            numeric("distance_in_perp_space", mon.call(ns.intsct.distance_in_perp_space, vs[0], vs[-1], **q),
                    float(np.linalg.norm(np.subtract(E[0], E[-1]))), sc, (vs[0], vs[-1]))


def _len(pkg, fv, fp, fe):
    return float(np.linalg.norm(fv))


def jobs(tier, seed):
    n, k = (1500, 4) if tier == "quick" else (12000, 8)
    return [("run", {"pkg": p, "seed": seed * 1000 + i, "n": n}) for i in range(k) for p in ("ico2", "dode2")]
