"""C04 the operator lists are the complete point groups (m-3-5, order 120; 12mm, order 24)"""
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen, group

PROP = "C04"
RULE = ("the operator list of each package is observed several times (fresh calls, after use) "
        "and compared with the group computed independently from the exact Gram "
        "matrices of the projected lattice basis: size, distinctness, identity, closure (all products), inverses, "
        "integrality, exact isometry on both subspaces for random vectors. An evaluation is one operator, one product "
        "or one image of a vector; distinct by value.")
MIN = {"ico2.product": 14400, "dode2.product": 576, "ico2.isometry": 1000, "dode2.isometry": 500, "ico2.op": 120,
       "dode2.op": 24}


def mats(ops):
    out = []
    for o in ops:
        a = np.asarray(o, dtype=float)
        if a.shape != (6, 6) or not np.all(a == np.rint(a)):
            return None
        out.append(tuple(tuple(int(x) for x in row) for row in a))
    return out


def matmul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(6)) for j in range(6)) for i in range(6))


def run(mon, pkg, seed, n):
    ns = load(pkg)
    f = ns.symmetry.icosasymop if pkg == "ico2" else ns.symmetry.dodesymop
    G = group(pkg)
    order = 120 if pkg == "ico2" else 24
    assert len(G) == order
    g = Gen(pkg, seed_of(PROP, pkg, seed))
    first = None
    for rep in range(3):
        ops = mon.call(f)
        if isinstance(ops, Failure):
            return
        L = mats(ops)
        if L is None:
            mon.bad("%s: an operator is not an integer 6x6 matrix" % pkg)
            return
        for o in L:
            mon.case("%s.op" % pkg, repr(o), sample={"pkg": pkg, "operator": o} if mon.evals % 50 == 3 else None)
        mon.ok(len(L) == order, "%s: %d operators instead of %d" % (pkg, len(L), order))
        mon.ok(len(set(L)) == len(L), "%s: an operator is listed twice" % pkg, distinct=len(set(L)))
        mon.ok(set(L) == G, "%s: the list is not the full point group" % pkg, missing=len(G - set(L)),
               foreign=len(set(L) - G), example=list(set(L) - G)[:1])
        I = tuple(tuple(int(i == j) for j in range(6)) for i in range(6))
        mon.ok(L and L[0] == I, "%s: operator 0 is not the identity" % pkg)
        if first is None:
            first = L
            S = set(L)
            bad = 0
            for a in L:
                for b in L:
                    p = matmul(a, b)
                    mon.case("%s.product" % pkg, repr(p), nontrivial=a != I and b != I)
                    if p not in S:
                        bad += 1
            mon.ok(bad == 0, "%s: %d products leave the list" % (pkg, bad))
        else:
            mon.ok(L == first, "%s: the operator order changed between calls" % pkg, rep=rep)
    # isometry of both subspaces, through the library's own action on vectors
    ops = mon.call(f)
    zero = np.array([[0, 0, 1]] * 6)
    for _ in range(n):
        v = g.vec(6, 9, 5) if g.rnd.random() < 0.7 else g.vec(6, 400, 30)
        i = g.rnd.randrange(len(ops))
        w = mon.call(ns.symmetry.symop_vec, ops[i], v, zero)
        if isinstance(w, Failure):
            continue
        mon.case("%s.isometry" % pkg, (i, v))
        geo = g.geo
        want = [sum((geo.K(first[i][r][c]) * geo.frm(v[c]) for c in range(6)), geo.zero) for r in range(6)]
        mon.ok([tuple(int(x) for x in t) for t in w] == [g.style.canon(x) for x in want],
               "%s: operator %d applied to a vector gives the wrong vector" % (pkg, i), v=v, got=w)

        def n2(p):
            s = geo.zero
            for x in p:
                s = s + x * x
            return s
        mon.ok(n2(geo.par(v)) == n2(geo.par(w)) and n2(geo.perp(v)) == n2(geo.perp(w)),
               "%s: operator %d does not preserve lengths in a subspace" % (pkg, i), v=v, got=w)


def jobs(tier, seed):
    n, k = (1000, 3) if tier == "quick" else (8000, 4)
    return [("run", {"pkg": p, "seed": seed * 1000 + i, "n": n}) for i in range(k) for p in ("ico2", "dode2")]
