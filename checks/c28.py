"""C28 results depend on the arguments only: not on earlier calls, later changes of arrays by the caller, verbosity, random state, threads"""
import contextlib
import copy
import io
import os
import random
import sys
import threading
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen
from vlib import complexes as cx
from vlib import isect

PROP = "C28"
RULE = ("histories over both packages in one process: an operation is called, then other operations on other arguments run, the arrays "
        "returned so far and the argument arrays are overwritten by the caller, the random generators are reseeded, the directory "
        "changed; the same call repeated with equal arguments must give the same result (same numbers, or the same set of cells), with the "
        "arguments unchanged, also with verbose output. In further runs four threads make such calls at the same time with a switch interval of "
        "10 microseconds and every result is compared with the one of a sequential run. Non-trivial: all; distinct by (operation, arguments).")
MIN = {"calls with a result": 600, "repeated after a history": 600, "repeated with verbose": 60, "results overwritten": 400, "arguments overwritten": 400,
       "in threads": 200, "thread switches between calls": 50}


def ops(pkg, ns, d):
    """name -> function making (callable, args, has verbose)"""
    m, nu, u, s, it, od, ods = ns.math1, ns.numericalc, ns.utils, ns.symmetry, ns.intsct, ns.od, ns.ods
    ico = pkg == "ico2"
    nv = 4 if ico else 3

    def cells(g, k=5):
        return cx.make(g, k)[1]

    def fl(g, v):
        return np.array([[float(x) for x in g.geo.perp(p)] for p in v])

    def files(path, base, obj):
        od.write_xyz(obj, path=path, basename=base)
        return od.read_xyz(path, base)

    def vesta(path, base, obj):
        od.write_vesta(obj, path=path, basename=base, select="simple")
        return open(os.path.join(path, base + ".vesta")).read()
    O = {
        "add": lambda g: (m.add, (g.num(), g.num())),
        "sub": lambda g: (m.sub, (g.num(), g.num())),
        "mul": lambda g: (m.mul, (g.num(), g.num())),
        "div": lambda g: (m.div, (g.num(), np.array([g.rnd.randint(1, 5), g.rnd.randint(0, 3), 1]))),
        "add_vectors": lambda g: (m.add_vectors, (g.vec(6), g.vec(6))),
        "sub_vectors": lambda g: (m.sub_vectors, (g.vec(6), g.vec(6))),
        "mul_vector": lambda g: (m.mul_vector, (g.vec(6), g.num())),
        "mul_vectors": lambda g: (m.mul_vectors, (g.vecs(3), g.num())),
        "outer_product": lambda g: (m.outer_product, (g.vec(3), g.vec(3))),
        "inner_product": lambda g: (m.inner_product, (g.vec(3), g.vec(3))),
        "projection": lambda g: (m.projection, (g.vec(6),)),
        "projection3": lambda g: (m.projection3, (g.vec(6),)),
        "centroid": lambda g: (m.centroid, (g.simplex(),)),
        "centroid_obj": lambda g: (m.centroid_obj, (cells(g),)),
        "numerical_vector": lambda g: (nu.numerical_vector, (g.vec(6),)),
        "internal": lambda g: (nu.get_internal_component_numerical, (g.vec(6),)),
        "internal sets": lambda g: (nu.get_internal_component_sets_numerical, (g.vecs(3),)),
        "coplanar": lambda g: (m.coplanar_check, (np.array(list(g.simplex()) + [g.point()]),)),
        "inside": lambda g: (nu.inside_outside_obj_tau, (g.point(1, 0, 2), cells(g, 3))),
        "group": lambda g: (s.icosasymop if ico else s.dodesymop, ()),
        "symop_vec": lambda g: (s.symop_vec, ((s.icosasymop() if ico else s.dodesymop())[g.rnd.randrange(12)], g.vec(6, 2, 2), g.lattice())),
        "symmetric": lambda g: (od.symmetric, (np.array([g.simplex(1, 0, 1)]), g.lattice())),
        "symmetric_0": lambda g: (od.symmetric_0, (cells(g, 3), g.lattice(), g.rnd.randrange(12))),
        "equivalent vectors": lambda g: (s.generator_equivalent_vec, (g.vec(6, 2, 2), g.lattice())),
        "shift": lambda g: (od.shift, (cells(g), g.vec(6, 2, 2))),
        "volume": lambda g: (od.volume, (cells(g),)),
        "doubling": lambda g: (u.remove_doubling_in_perp_space, (cells(g).reshape(-1, 6, 3),)),
        "doubling 6D": lambda g: (u.remove_doubling, (cells(g).reshape(-1, 6, 3),)),
        "edges": lambda g: (u.generator_unique_edges, (cells(g, 4),)),
        "hull": lambda g: (u.generate_convex_hull, (cells(g, 4),)),
        "points": lambda g: (u.tetrahedralization_points if ico else u.triangulation_points, (g.simplex(),)),
        "equivalent": lambda g: (u.equivalent, (cells(g, 3), cells(g, 3))),
        "segments": lambda g: (it.intersection_two_segment, (np.array([g.point(), g.point()]), np.array([g.point(), g.point()]))),
        "distance": lambda g: (it.distance_in_perp_space, (g.point(), g.point())),
        "xyz": lambda g: (files, (d, "f%d" % g.rnd.randrange(3), cells(g))),
        "vesta": lambda g: (vesta, (d, "f%d" % g.rnd.randrange(3), cells(g, 3))),
        "podatm": lambda g: (lambda o, p: od.obj2podatm(o, 1, p, "t") and None, (np.array([g.simplex()]), d)),
        "border": lambda g: (od.generate_border_edges, (cells(g, 4),)),
        "simplification": lambda g: (od.simplification, (cells(g, 4),), True),
        "intersection": lambda g: (ods.intersection, pair(g), True),
        "intersection simple": lambda g: (ods.intersection, pair(g) + ("simple",), True),
        "intersection convex": lambda g: (ods.intersection_convex, (np.array([g.simplex(1, 0, 1)]), np.array([g.simplex(1, 0, 1)])), True),
    }
    if ico:
        O["volumes"] = lambda g: (u.obj_volume_6d, (cells(g),))
        O["surface"] = lambda g: (u.generator_surface_1, (cells(g, 4),), True)
    else:
        O["volumes"] = lambda g: (u.obj_area_6d, (cells(g),))
        O["outline"] = lambda g: (od.outline, (cells(g, 4),))
        O["similarity"] = lambda g: (od.similarity, (cells(g, 4), g.rnd.randint(-2, 2)))
        O["site"] = lambda g: (s.site_symmetry, (site(g), 4))
        O["coset"] = lambda g: (s.coset, (site(g), 4))
        O["translation"] = lambda g: (s.translation, (4,))

    def pair(g):
        return isect.make(g)[1:]

    def site(g):
        den = g.rnd.choice([1, 2, 3])
        return np.array([[g.rnd.randrange(den), 0, den] if den > 1 else [0, 0, 1] for _ in range(4)] + [[0, 0, 1]] * 2)
    return O


def frozen(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(frozen(y) for y in x)
    return copy.copy(x)


def same(g, a, b):
    if isinstance(a, Failure) or isinstance(b, Failure):
        return isinstance(a, Failure) and isinstance(b, Failure)
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        x, y = np.asarray(a), np.asarray(b)
    except ValueError:
        return len(a) == len(b) and all(same(g, p, q) for p, q in zip(a, b))
    if x.shape != y.shape:
        return False
    if np.array_equal(x, y):
        return True
    if x.dtype.kind == "f":
        return bool(np.allclose(x, y, rtol=1e-12, atol=1e-12))
    if x.ndim >= 3 and x.shape[-2:] == (6, 3):          # the same set in another order
        def key(z):
            z = z.reshape(-1, int(np.prod(z.shape[1:-2])), 6, 3)
            return sorted(sorted(tuple(int(t) for t in v.reshape(-1)) for v in c) for c in z)
        return key(x) == key(y)
    return False


def scribble(x, r):
    """what a caller may do with an array that belongs to him"""
    if isinstance(x, np.ndarray) and x.flags.writeable and x.size:
        if x.dtype.kind in "if":
            x[...] = r.choice([0, 1, 7, -3])
        return 1
    if isinstance(x, list):
        n = sum(scribble(y, r) for y in x)
        x.reverse()
        if r.random() < 0.5:
            x.clear()
        return n + 1
    if isinstance(x, tuple):
        return sum(scribble(y, r) for y in x)
    return 0


def setup(mon, seed, tag):
    P = {}
    for pkg in ("ico2", "dode2"):
        g = Gen(pkg, seed_of(PROP, tag, pkg, seed))
        d = os.path.join(mon.scratch, pkg)
        os.makedirs(d, exist_ok=True)
        P[pkg] = (g, ops(pkg, load(pkg), d))
    return P


def make(P, r, only=None):
    pkg = r.choice(["ico2", "dode2"])
    g, O = P[pkg]
    name = only if only in O else r.choice(sorted(O))
    t = O[name](g)
    return pkg, g, name, t[0], t[1], len(t) > 2


def run(mon, seed, n):
    P = setup(mon, seed, "run")
    r = random.Random(seed_of(PROP, "order", seed))
    names = sorted({k for p in P for k in P[p][1]})
    old = []                        # calls made so far: (pkg, g, name, f, args, verbose, result then)
    mine = []                       # arrays that belong to the caller
    for it in range(n):
        pkg, g, name, f, args, vb = make(P, r, names[(seed * 7 + it) % len(names)])
        keep = frozen(args)
        R = mon.call(f, *args, rng=r.randrange(1 << 30), quiet=True)
        mon.hit("failed calls" if isinstance(R, Failure) else "calls with a result")
        mon.case("call", (pkg, name, keep), sample={"pkg": pkg, "operation": name} if it % 29 == 5 else None)
        old.append((pkg, g, name, f, keep, vb, frozen(R)))
        mine += [x for x in (R, args) if not isinstance(x, Failure)]
        if r.random() < 0.7:
            for x in r.sample(mine, min(len(mine), 4)):
                k = scribble(x, r)
                mon.hit("results overwritten" if x is not args else "arguments overwritten", k)
        if r.random() < 0.1:
            sub = os.path.join(mon.scratch, "cwd%d" % r.randrange(3))
            os.makedirs(sub, exist_ok=True)
            os.chdir(sub)
        for _ in range(2):
            # the latest call of one operation again after the history since then
            pkg, g, name, f, keep, vb, R0 = old[max(0, len(old) - 1 - int(r.expovariate(0.15)))]
            a = frozen(keep)
            kw = {}
            if vb and r.random() < 0.5:
                kw = {"verbose": r.choice([1, 2])}
                mon.hit("repeated with verbose")
            R1 = mon.call(f, *a, rng=r.randrange(1 << 30), quiet=True, **kw)
            mon.case("repeated after a history", (pkg, name, keep))
            if not same(g, R0, R1):
                mon.bad("%s %s: the same call gives another result later%s" % (pkg, name, " (verbose)" if kw else ""), args=keep, first=R0, later=R1)
            mon.hit("arguments overwritten", scribble(a, r))
            mine.append(R1)
            if r.random() < 0.6:
                mon.hit("results overwritten", scribble(R1, r))
        if len(mine) > 60:
            mine = r.sample(mine, 20)
    os.chdir("/")


def threads(mon, seed, n):
    P = setup(mon, seed, "threads")
    r = random.Random(seed_of(PROP, "torder", seed))
    calls = []
    while len(calls) < n:
        c = make(P, r)
        if c[2] in ("xyz", "vesta", "podatm"):            # files are shared on purpose; not a matter of threads
            continue
        calls.append(c)
    want = []
    for pkg, g, name, f, args, vb in calls:
        want.append(frozen(mon.call(f, *frozen(args), quiet=True)))
    work = [(i, t) for t in range(4) for i in range(len(calls))]
    r.shuffle(work)
    out, log = {}, []
    lists = [[w for w in work if w[1] == t] for t in range(4)]

    def go(L):
        for i, t in L:
            pkg, g, name, f, args, vb = calls[i]
            a = frozen(args)
            log.append(t)
            try:
                with np.errstate(all="ignore"):
                    R = f(*a)
                out[i, t] = (frozen(R), same(g, a, args) or not args)
                if t % 2:
                    scribble(R, random.Random(i))
            except Exception as e:                                            # noqa: BLE001
                out[i, t] = (Failure("%s: %s" % (type(e).__name__, e)), True)
    iv = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    T = [threading.Thread(target=go, args=(L,)) for L in lists]
    with contextlib.redirect_stdout(io.StringIO()):
        for t in T:
            t.start()
        for t in T:
            t.join()
    sys.setswitchinterval(iv)
    mon.hit("thread switches between calls", sum(a != b for a, b in zip(log, log[1:])))
    for (i, t), (R, ok) in sorted(out.items()):
        pkg, g, name, f, args, vb = calls[i]
        mon.case("in threads", (pkg, name, args, t))
        if not same(g, want[i], R):
            mon.bad("%s %s: another result when other threads work at the same time" % (pkg, name), args=args, alone=want[i],
                    threaded=getattr(R, "text", R))
        mon.ok(ok, "%s %s: arguments modified" % (pkg, name), args=args)


def jobs(tier, seed):
    k, n, t, m = (12, 100, 4, 40) if tier == "quick" else (24, 400, 12, 120)
    return [("run", {"seed": seed * 1000 + i, "n": n}) for i in range(k)] + [("threads", {"seed": seed * 1000 + i, "n": m}) for i in range(t)]
