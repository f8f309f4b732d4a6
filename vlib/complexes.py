"""workloads: conforming complexes (two cells meet in a common face or not at all), convex or not,
and exact oracles for surface, edges, outline and convex hull"""
from itertools import combinations
import numpy as np
from .gen import group
from .geom import Solid, sub, cross, dot, clip, halfspaces, list_measure, tri_area2, box_apart, fbox, add, scale
from .isect import apply, unit, dedupe_cells


def pkey(g, v):
    return tuple(g.geo.perp(v)[:g.dim])


def cells_p(g, obj):
    return [tuple(pkey(g, v) for v in c) for c in obj]


def faces(cells, k):
    """{frozenset of k vertices: number of cells having it}"""
    cnt = {}
    for c in cells:
        for f in combinations(c, k):
            f = frozenset(f)
            cnt[f] = cnt.get(f, 0) + 1
    return cnt


def overlaps(g, c, cells):
    """does the simplex c overlap one of the (exact) cells with positive measure"""
    hs = halfspaces(c)
    bc = fbox(c)
    for d in cells:
        if box_apart(bc, fbox(d)):
            continue
        pc = clip([d], hs, g.dim)
        if pc and not list_measure(pc, g.dim, c).is_zero():
            return True
    return False


def meets_properly(c, d, dim):
    """two interior-disjoint simplices meet in a common face or not at all: every vertex of one on the
    other must be a vertex of it, and no edges cross (checked by vertices + exact segment tests)"""
    hc, hd = halfspaces(c), halfspaces(d)

    def inside(p, hs):
        return all((dot(n, p) - k).sign() >= 0 for n, k in hs)
    if any(p not in d and inside(p, hd) for p in c) or any(p not in c and inside(p, hc) for p in d):
        return False
    # no common point outside the common face: the intersection of the closed simplices is the hull of
    # the common vertices iff no edge of one crosses a face of the other elsewhere
    cv = set(c) & set(d)
    for x, y, hs in ((c, d, hd), (d, c, hc)):
        for a, b in combinations(x, 2):
            if a in cv and b in cv:
                continue
            # interval of the edge inside the other simplex
            K = type(a[0])
            lo, hi = K(0), K(1)
            e = sub(b, a)
            ok = True
            for n, k in hs:
                s, t = dot(n, a) - k, dot(n, e)
                if t.sign() == 0:
                    if s.sign() < 0:
                        ok = False
                        break
                else:
                    u = -(s / t)
                    if t.sign() > 0:
                        if u > lo:
                            lo = u
                    elif u < hi:
                        hi = u
            if not ok or lo > hi:
                continue
            if lo == hi and (lo.is_zero() and a in cv or lo == K(1) and b in cv):
                continue
            return False
    return True


def grow(g, obj, tries=12, minq=0.08):
    """glue one more cell on a boundary facet (conforming), or return obj unchanged"""
    r = g.rnd
    ex = cells_p(g, obj)
    fc = faces(ex, g.dim)
    border = [(i, k) for i, c in enumerate(ex) for k in range(g.nv)
              if fc[frozenset(c[:k] + c[k + 1:])] == 1]
    for _ in range(tries):
        i, k = r.choice(border)
        cell = obj[i].copy()
        w = [0] * g.nv
        # reflect roughly through the facet, with random weights
        rest = [j for j in range(g.nv) if j != k]
        from checks.c10 import comb_w
        den = r.choice([2, 3, 4])
        w = [0] * g.nv
        w[k] = -r.randint(1, den)
        left = den - w[k]
        for j in rest[:-1]:
            w[j] = r.randint(0, left)
            left -= w[j]
        w[rest[-1]] = left
        cell[k] = comb_w(g, obj[i], w, den)
        if g.quality(cell) < minq:
            continue
        c = tuple(pkey(g, v) for v in cell)
        if c[k] in {p for d in ex for p in d}:
            continue
        if any(not box_apart(fbox(c), fbox(d)) and not meets_properly(c, d, g.dim) for d in ex):
            continue
        if overlaps(g, c, ex):
            continue
        return np.concatenate([obj, cell[None]])
    return obj


def refine(g, obj, n):
    """conforming refinement by edge midpoints, facet or cell centres, identifying vertices by their
    internal component"""
    r = g.rnd
    for _ in range(n):
        c = obj[r.randrange(len(obj))]
        k = r.randint(2, g.nv)
        idx = r.sample(range(g.nv), k)
        p = g.comb([c[j] for j in idx], [1] * k)
        ks = {pkey(g, c[j]) for j in idx}
        new = []
        for e in obj:
            ek = [pkey(g, v) for v in e]
            if ks <= set(ek):
                for q in ks:
                    d = e.copy()
                    d[ek.index(q)] = p
                    new.append(d)
            else:
                new.append(e)
        obj = np.array(new)
    return obj


def alias_some(g, obj, p=0.3):
    out = obj.copy()
    for c in out:
        for i in range(len(c)):
            if g.rnd.random() < p:
                c[i] = g.alias(c[i], 1)
    return out


def make(g, maxcells=14):
    """(kind, conforming object)"""
    r = g.rnd
    mag, bm, cm = r.choice([(1, 0, 1), (2, 0, 1), (1, 1, 1), (2, 1, 2)])
    kind = r.choice(["one cell", "refined cell", "grown", "grown", "grown refined", "star", "star", "two parts", "sliced"])
    T = np.array([g.simplex(mag, bm, cm, 0.12)])
    if kind == "one cell":
        A = T
    elif kind == "refined cell":
        A = refine(g, T, r.randint(1, 3))
    elif kind.startswith("grown"):
        A = T
        for _ in range(r.randint(1, 4)):
            A = grow(g, A)
        if kind == "grown refined":
            A = refine(g, A, r.randint(1, 2))
    elif kind == "star":
        G_ = sorted(group(g.pkg))
        u = unit(g)
        n = r.randint(2, 8)
        if r.random() < 0.3:
            # images sharing one vertex direction, a connected patch
            Ms = [G_[0]]
        A = dedupe_cells(g, np.concatenate([apply(g, M, u) for M in r.sample(G_, n)]))
        if r.random() < 0.5:
            A = g.shift(A, g.lattice())
    elif kind == "sliced":
        # slices through one edge (3D) / one vertex (2D): long chains of collinear border segments
        n = r.randint(3, 5)
        P = [g.comb([T[0][0], T[0][1]], [n - i, i]) for i in range(n + 1)]
        A = np.array([np.concatenate([[P[i], P[i + 1]], T[0][2:]]) for i in range(n)])
        if r.random() < 0.4:
            A = grow(g, A)
    else:
        A = refine(g, T, r.randint(0, 1))
        B = g.shift(refine(g, T, r.randint(0, 1)), np.array([[25, 0, 1]] + [[0, 0, 1]] * 5))
        A = np.concatenate([A, B])
    if len(A) > maxcells:
        A = T
        kind = "one cell"
    if r.random() < 0.5:
        A = alias_some(g, A)
        kind += ", several 6D representatives"
    return kind, g.shuffle_vertices(A)


# ---- oracles --------------------------------------------------------------
def surface(g, obj):
    """set of boundary facets (frozensets of exact points)"""
    return {f for f, n in faces(cells_p(g, obj), g.dim).items() if n == 1}


def plane_of(tri):
    """canonical plane through three exact points: (n, k) scaled so that the first non-zero entry is 1"""
    a, b, c = tri
    n = cross(sub(b, a), sub(c, a))
    k = dot(n, a)
    for x in n:
        if not x.is_zero():
            i = x.inv()
            return tuple(y * i for y in n) + (k * i,)
    raise ValueError("flat triangle")


def maximal(segs):
    """merge collinear segments sharing an end point, repeatedly; returns set of frozensets"""
    segs = set(segs)
    changed = True
    while changed:
        changed = False
        ends = {}
        for s in segs:
            for p in s:
                ends.setdefault(p, []).append(s)
        for p, ss in ends.items():
            for s, t in combinations(ss, 2):
                a = next(x for x in s if x != p)
                b = next(x for x in t if x != p)
                if a == b:
                    continue
                u, v = sub(a, p), sub(b, p)
                if len(p) == 3:
                    col = all(x.is_zero() for x in cross(u, v))
                else:
                    col = (u[0] * v[1] - u[1] * v[0]).is_zero()
                if col and dot(u, v).sign() < 0:
                    segs.discard(s)
                    segs.discard(t)
                    segs.add(frozenset((a, b)))
                    changed = True
                    break
            if changed:
                break
    return segs


def outline(g, obj):
    """border edges: per plane of the surface, edges belonging to one triangle of that plane; merged"""
    if g.dim == 2:
        return maximal({e for e, n in faces(cells_p(g, obj), 2).items() if n == 1})
    groups = {}
    for f in surface(g, obj):
        t = tuple(f)
        groups.setdefault(plane_of(t), []).append(t)
    segs = set()
    for ts in groups.values():
        segs |= {e for e, n in faces(ts, 2).items() if n == 1}
    return maximal(segs)


def hull_halfspaces(pts, dim):
    pts = list(dict.fromkeys(pts))
    hs = {}
    for f in combinations(pts, dim):
        if dim == 3:
            n = cross(sub(f[1], f[0]), sub(f[2], f[0]))
        else:
            n = (f[0][1] - f[1][1], f[1][0] - f[0][0])
        if all(x.is_zero() for x in n):
            continue
        k = dot(n, f[0])
        sg = {(dot(n, p) - k).sign() for p in pts}
        if 1 in sg and -1 in sg:
            continue
        if -1 in sg:
            n, k = tuple(-x for x in n), -k
        i = next(abs(x) for x in n if not x.is_zero()).inv()
        hs[tuple(x * i for x in n) + (k * i,)] = 1
    return [(h[:-1], h[-1]) for h in hs]


def hull_measure(pts, dim):
    """dim! * measure of the convex hull"""
    hs = hull_halfspaces(pts, dim)
    K = type(pts[0][0])
    f = [[float(x) for x in p] for p in pts]
    m = int(max(abs(x) for p in f for x in p)) + 2
    z = K(0)
    big = K(8 * m)      # the slanted face x+y+z <= 6m is beyond 3m
    lo = K(-m)
    if dim == 3:
        T = ((lo, lo, lo), (big, lo, lo), (lo, big, lo), (lo, lo, big))
    else:
        T = ((lo, lo), (big, lo), (lo, big))
    pc = clip([T], hs, dim)
    return list_measure(pc, dim, T) if pc else z


def slices(g, n):
    """n slices of one cell through an edge (3D) / a vertex (2D): conforming, with common vertices"""
    T = g.simplex(2, 1, 1, 0.12)
    P = [g.comb([T[0], T[1]], [n - i, i]) for i in range(n + 1)]
    A = np.array([np.concatenate([[P[i], P[i + 1]], T[2:]]) for i in range(n)])
    return g.shuffle_vertices(A)


def symmetric_star(g):
    """the whole symmetric domain: images of a unit under every operator"""
    u = unit(g)
    return dedupe_cells(g, np.concatenate([apply(g, M, u) for M in sorted(group(g.pkg))]))
