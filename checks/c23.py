"""C23 compiled package dode: structure generation from occupation domains"""
import contextlib
import io
import os
import numpy as np
from vlib import legacy
from vlib.mon import seed_of, Failure
from vlib.gen import Gen

PROP = "C23"
RULE = ("pyqcstrc.dode compiled from the working tree; one to six domains of 1..40 triangles (also one domain at two positions) at positions of the cell, external shifts, "
        "origin shifts (none, generic, along one axis), phason matrices (none, full, diagonal, single entry, balanced, small), nmax 0..4. The generated list and the "
        "written file are compared, atom by atom, with the section computed independently: every 4D lattice vector of the box, "
        "point in triangle by signed areas. Lattice points nearer than 1e-3 to a border (but not on it) make a case "
        "inadmissible. Non-trivial: some but not all lattice vectors selected; distinct by arguments.")
MIN = {"structure": 40, "file": 40, "atoms": 1000, "phason": 12, "phason with zero entries": 6, "border points": 2, "several domains": 10,
       "inout": 500, "large box": 3, "domain of many cells": 8}
ASSUMPTIONS = ["no lattice point inside the tolerance band of a border"]
S3 = np.sqrt(3) / 2


def prepare(scratch):
    legacy.build(scratch, {"dode": ["occupation_domain"]})


P = np.array([[S3, 1, 0, -.5, 0, 0], [-.5, 0, 1, S3, 0, 0], [0, 0, 0, 0, 1, 0]])
Q = np.array([[-S3, 1, 0, -.5, 0, 0], [-.5, 0, 1, -S3, 0, 0], [0, 0, 0, 0, 0, 1]])


def fl(v):
    return np.array([(int(t[0]) + S3 * int(t[1])) / int(t[2]) for t in v])


def strain(e, i, u):
    """internal component sheared by the physical one"""
    i = np.array(i, dtype=float)
    i[0] += u[0][0] * e[0] + u[1][0] * e[1]
    i[1] += u[0][1] * e[0] + u[1][1] * e[1]
    return i


def where(p, tri):
    """1 inside, 0 on the border, -1 outside, None in the band"""
    t = [np.asarray(x[:2]) for x in tri]
    a = (t[1][0] - t[0][0]) * (t[2][1] - t[0][1]) - (t[1][1] - t[0][1]) * (t[2][0] - t[0][0])
    if a < 0:
        t[1], t[2] = t[2], t[1]
    d = []
    for k in range(3):
        A, B = t[k], t[(k + 1) % 3]
        d.append(((B[0] - A[0]) * (p[1] - A[1]) - (B[1] - A[1]) * (p[0] - A[0])) / np.hypot(*(B - A)))
    m = min(d)
    if m > 1e-3:
        return 1
    if m < -1e-3:
        return -1
    if abs(m) < 1e-10:
        return 0
    return None


def domain(g, cells=None):
    """non-overlap is not required: the union counts"""
    r = g.rnd
    out = []
    while len(out) < (cells or r.randint(1, 4)):
        if out and r.random() < .5:
            c = np.array([out[-1][r.randrange(3)], g.point(2, 1, 2), g.point(2, 1, 2)])
        else:
            c = np.array([g.point(2, 1, 2) for _ in range(3)])
        if r.random() < .3:
            c[0] = [[r.randint(-1, 1), 0, 1] for _ in range(4)] + [[0, 0, 1]] * 2      # a vertex on a lattice point
        T = [Q @ fl(v) for v in c]
        e = [np.hypot(*(T[i] - T[j])[:2]) for i, j in ((0, 1), (1, 2), (0, 2))]
        a = abs((T[1] - T[0])[0] * (T[2] - T[0])[1] - (T[1] - T[0])[1] * (T[2] - T[0])[0]) / 2
        if a > .05 and min(e) > .2 and max(e) < 8 and 2 * a / max(e) > .1:
            out.append(c)
    return np.array(out)


def site(g, big=False):
    r = g.rnd
    if r.random() < .4:
        return np.array([[0, 0, 1]] * 6)
    if r.random() < .5:
        return np.array([g.style.canon(g.style.frm([r.randint(-2, 2), 0, r.choice([1, 2, 3])])) for _ in range(4)] + [[0, 0, 1]] * 2)
    v = g.vec(6, 3, 3)
    v[5] = [0, 0, 1]
    return v


def run(mon, seed, n, large=False):
    od, st12, nc = legacy.load(mon, "dode", "occupation_domain", "strc12", "numericalc12")
    g = Gen("dode2", seed_of(PROP, seed))
    r = g.rnd
    it = 0
    tries = 0
    while it < n and tries < 40 * n:
        tries += 1
        k = r.choice([1, 1, 2, 3]) if not large else r.choice([1, 2])
        if it == 0 and not large:
            k = 6
        cells = r.choice([25, 40]) if not large and it in (1, 4) else None
        objs = [domain(g, cells) for _ in range(1 if cells else k)]
        k = len(objs)
        if cells:
            mon.hit("domain of many cells tried")
        if k > 1 and r.random() < .4:           # one domain at two positions, equal elements
            objs[k - 1] = objs[0]
        pos = [site(g) for _ in range(k)]
        esh = [site(g) for _ in range(k)]
        nmax = r.choice([0, 1, 1, 1, 2]) if not large else r.choice([3, 4])
        if cells:
            nmax = r.choice([1, 2])
        sh = [0.0] * 6 if r.random() < .3 else [r.uniform(-.5, .5) for _ in range(4)] + [0.0, 0.0]
        if r.random() < .25:
            sh = [0.0] * 6
            sh[r.randrange(4)] = r.choice([1.0, -2.0, .5, .25])
        kind = r.choice(["none", "none", "none", "full", "diag", "single", "balanced", "small"])
        u = np.zeros((2, 2))
        if kind == "full":
            u = np.array([[r.uniform(-.3, .3) for _ in range(2)] for _ in range(2)])
        elif kind == "diag":
            u[0][0], u[1][1] = r.uniform(-.3, .3), r.uniform(-.3, .3)
        elif kind == "balanced":                # entries that add up to zero, or with zero determinant
            a = r.choice([-.2, .15, .3])
            u = np.array(r.choice([[[a, 0], [0, -a]], [[0, a], [-a, 0]], [[a, -a], [a, -a]], [[a, a], [-a, -a]], [[a, a], [a, a]]]))
        elif kind == "small":
            u = np.array([[r.choice([-1, 1]) * r.uniform(.004, .03) for _ in range(2)] for _ in range(2)])
        elif kind == "single":
            u[r.randrange(2)][r.randrange(2)] = r.choice([-.3, -.1, .2, .25])
        tris = [[[Q @ fl(v) for v in t] for t in o] for o in objs]
        s = np.array(sh)
        si = strain(P @ s, Q @ s, u)
        want = {}
        bad = False
        border = 0
        R = range(-nmax, nmax + 1)
        for h in ((a, b, c, d) for a in R for b in R for c in R for d in R):
            hv = np.array(list(h) + [0, 0], dtype=float)
            e, i = P @ hv, Q @ hv
            q = strain(e, i, u) - si
            for m in range(k):
                w = [where(q, t) for t in tris[m]]
                if any(x == 1 for x in w):
                    ins = True
                elif any(x is None for x in w):
                    bad = True
                    break
                else:
                    ins = any(x == 0 for x in w)
                    border += ins
                if ins:
                    want[(m,) + h] = e - P @ fl(pos[m]) - P @ fl(esh[m])
            if bad:
                break
        if bad:
            continue
        it += 1
        full = k * len(R) ** 4
        ctx = dict(objs=[o.tolist() for o in objs], positions=[p.tolist() for p in pos], shifts=[x.tolist() for x in esh], origin_shift=sh,
                   phason=u.tolist(), nmax=nmax)
        mon.case("structure", repr(ctx), 0 < len(want) < full, sample={"nmax": nmax, "domains": k, "phason": kind, "atoms": len(want)} if it % 7 == 0 else None)
        if kind != "none":
            mon.hit("phason")
            if kind in ("diag", "single"):
                mon.hit("phason with zero entries")
        if border:
            mon.hit("border points")
        if k > 1:
            mon.hit("several domains")
        if cells:
            mon.hit("domain of many cells")
        if nmax > 2:
            mon.hit("large box")
        mon.hit("atoms", len(want))
        pm = np.array([[0.0]]) if kind == "none" else u
        a = mon.call(st12.strc, objs, pos, pm, nmax, esh, sh, 0)
        judge(mon, "strc", a, want, ctx)
        # the file
        option = r.randrange(2)
        names = [r.choice(["Mn", "Cr", "Ni", "Si", "V"]) + (str(j) if r.random() < .6 else "") for j in range(k)]
        fn = r.choice(["s%d_%d", "S.%d.%d", "_%d_%d_", "s p %d %d", "%d-%d.xyz"]) % (seed, it)
        path = mon.scratch
        with open(os.path.join(path, fn + ".xyz"), "w") as f:
            f.write("stale\n" * 3000)
        res = mon.call(od.qcstrc, objs, pos, path, fn, names, u, nmax, esh, sh, 0, option)
        mon.case("file", (repr(ctx), option))
        if not isinstance(res, Failure):
            L = open(os.path.join(path, fn + ".xyz")).read().splitlines()
            rows = [x.split() for x in L[2:]]
            mon.ok(L and L[0].strip() == str(len(want)), "the file announces the wrong number of atoms", got=L[:1], want=len(want), **ctx)
            mon.ok(len(rows) == len(want), "the file has a wrong number of atoms", got=len(rows), want=len(want), **ctx)
            try:
                got = sorted((x[0],) + tuple(round(float(y), 5) + 0.0 for y in x[1:4]) + (tuple(map(int, x[5:9])) if option else ()) for x in rows)
                L2 = [(names[key[0]], p, key[1:]) for key, p in want.items()]
                free = [list(x) for x in got]
                miss = 0
                for nm, p, h in L2:
                    for x in free:
                        if x[0] == nm and all(abs(x[1 + j] - p[j]) < 3e-5 for j in range(3)) and (not option or tuple(x[4:8]) == tuple(h)):
                            free.remove(x)
                            break
                    else:
                        miss += 1
                mon.ok(not miss and not free, "the file does not list the atoms of the structure", missing=miss, foreign=free[:2], option=option, **ctx)
            except (ValueError, IndexError) as ex:
                mon.bad("the file cannot be read: %s" % ex, lines=L[:4], **ctx)
        # deformed domain
        for _ in range(8):
            m = r.randrange(k)
            uu = u if kind != "none" else np.array([[.1, -.2], [.05, .15]])
            p = np.array([r.uniform(-3, 3), r.uniform(-3, 3), 0.0])
            w1 = [where(p, t) for t in tris[m]]
            td = [[strain(P @ fl(v), Q @ fl(v), uu) for v in t] for t in objs[m]]
            if min(abs((t[1] - t[0])[0] * (t[2] - t[0])[1] - (t[1] - t[0])[1] * (t[2] - t[0])[0]) for t in td) < .02:
                continue
            w2 = [where(p, t) for t in td]
            for f, w, args in ((nc.inout_occupation_domain_numerical, w1, (objs[m], p, 0)), (nc.inout_occupation_domain_phason_numerical, w2, (objs[m], p, uu, 0))):
                if any(x == 1 for x in w) or all(x == -1 for x in w):
                    res = mon.call(f, *args)
                    mon.case("inout", (f.__name__, repr(args)))
                    if not isinstance(res, Failure):
                        mon.ok(int(res) == (0 if any(x == 1 for x in w) else 1), "%s is wrong" % f.__name__, obj=objs[m], point=p, phason=uu, got=res)


def judge(mon, what, a, want, ctx):
    if isinstance(a, Failure):
        return
    a = np.asarray(a)
    if len(want) == 0:
        mon.ok(a.size == 0, "%s lists atoms although no lattice vector is inside" % what, got=len(a), **ctx)
        return
    if a.ndim != 2 or a.shape[1] != 8:
        mon.bad("%s returned an unexpected array" % what, shape=a.shape, want=len(want), **ctx)
        return
    got = {}
    for row in a:
        key = tuple(int(round(x)) for x in row[3:8])
        mon.ok(key not in got, "%s lists an atom twice" % what, key=key, **ctx)
        got[key] = row[:3]
    miss, extra = set(want) - set(got), set(got) - set(want)
    mon.ok(not miss and not extra, "%s selects the wrong lattice vectors" % what, missing=sorted(miss)[:3], foreign=sorted(extra)[:3], **ctx)
    for key in set(want) & set(got):
        if np.abs(np.asarray(got[key]) - want[key]).max() > 1e-9:
            mon.bad("%s puts an atom at the wrong place" % what, key=key, got=got[key], want=want[key], **ctx)
            break


def jobs(tier, seed):
    n = 9 if tier == "quick" else 120
    return ([("run", {"seed": seed * 1000 + 500 + i, "n": 1 if tier == "quick" else 8, "large": True}) for i in range(6)] +
            [("run", {"seed": seed * 1000 + i, "n": n}) for i in range(8)])
