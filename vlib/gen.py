"""Workload generators.  Everything is driven by one random.Random.

All objects are numpy int64 arrays in the package's own (a,b,c) number style.
The generator only uses integer arithmetic of its own.
"""
import random
from fractions import Fraction
from math import gcd
import numpy as np
from .field import ICO, DODE, K5, K3
from .geom import GI, GD, Solid, tet_vol6, tri_area2

Z = [0, 0, 1]


def red(a, b, c):
    g = gcd(a, b, c)
    if c < 0:
        g = -g
    return [a // g, b // g, c // g]


class Gen:
    def __init__(self, pkg, seed):
        self.pkg = pkg                      # 'ico2' | 'dode2'
        self.rnd = random.Random("%s/%s" % (pkg, seed))
        self.geo = GI if pkg == "ico2" else GD
        self.style = ICO if pkg == "ico2" else DODE
        self.dim = 3 if pkg == "ico2" else 2
        self.nv = self.dim + 1

    # ---- numbers ---------------------------------------------------------
    def num(self, mag=5, cmax=4, bmag=None):
        r = self.rnd
        k = r.random()
        if k < 0.08:
            return [0, 0, r.randint(1, cmax)]
        if k < 0.16:
            return [r.randint(-mag, mag), 0, r.randint(1, cmax)]
        if k < 0.24:
            return [0, r.randint(-mag, mag), r.randint(1, cmax)]
        b = mag if bmag is None else bmag
        return [r.randint(-mag, mag), r.randint(-b, b), r.randint(1, cmax)]

    def vec(self, n=6, mag=5, cmax=4, bmag=None):
        return np.array([self.num(mag, cmax, bmag) for _ in range(n)], dtype=np.int64)

    def vecs(self, k, n=6, mag=5, cmax=4, bmag=None):
        return np.array([self.vec(n, mag, cmax, bmag) for _ in range(k)], dtype=np.int64)

    # ---- points --------------------------------------------------------
    def point(self, mag=2, bmag=1, cmax=2):
        """6D point.  For dode2 the two dummy axes (5th, 6th) stay 0 so that the
        object lies in the 2D internal plane."""
        r = self.rnd
        n = 6 if self.pkg == "ico2" else 4
        v = [red(r.randint(-mag, mag), r.randint(-bmag, bmag), r.randint(1, cmax)) for _ in range(n)]
        v += [list(Z) for _ in range(6 - n)]
        return np.array(v, dtype=np.int64)

    def lattice(self, mag=1):
        r = self.rnd
        n = 6 if self.pkg == "ico2" else 4
        v = [[r.randint(-mag, mag), 0, 1] for _ in range(n)] + [list(Z) for _ in range(6 - n)]
        return np.array(v, dtype=np.int64)

    def simplex(self, mag=2, bmag=1, cmax=2, minm=0.15, maxtry=2000):
        """random non-degenerate simplex of reasonable shape"""
        for _ in range(maxtry):
            t = np.array([self.point(mag, bmag, cmax) for _ in range(self.nv)], dtype=np.int64)
            if self.quality(t) >= minm:
                return t
        raise RuntimeError("no simplex")

    def quality(self, t):
        P = [[float(c) for c in self.geo.perp(v)[:self.dim]] for v in t]
        A = np.array([np.subtract(P[i], P[0]) for i in range(1, self.nv)])
        d = abs(np.linalg.det(A))
        L = max(np.linalg.norm(np.subtract(P[i], P[j])) for i in range(self.nv) for j in range(i))
        if L < 0.4:
            return 0.0
        return d / L ** self.dim * (1 if L > 0.4 else 0)

    # ---- exact combination of 6D vectors ---------------------------------
    def comb(self, pts, w):
        """sum w_i p_i with integer weights, divided by sum(w)"""
        s = sum(w)
        out = []
        for i in range(len(pts[0])):
            a = b = Fraction(0)
            for p, k in zip(pts, w):
                a += Fraction(int(p[i][0]) * k, int(p[i][2]) * s)
                b += Fraction(int(p[i][1]) * k, int(p[i][2]) * s)
            c = a.denominator * b.denominator // gcd(a.denominator, b.denominator)
            out.append(red(int(a * c), int(b * c), c))
        return np.array(out, dtype=np.int64)

    def subdivide(self, cells, n, wmax=2):
        """split n times: interior, face or edge point; returns an interior-disjoint set
        of cells with the same union (cells need not be conforming)."""
        r = self.rnd
        cells = [np.array(c) for c in cells]
        for _ in range(n):
            i = r.randrange(len(cells))
            c = cells.pop(i)
            k = r.randint(2, self.nv)
            idx = r.sample(range(self.nv), k)
            p = self.comb([c[j] for j in idx], [r.randint(1, wmax) for _ in range(k)])
            for j in idx:
                d = c.copy()
                d[j] = p
                cells.append(d)
        r.shuffle(cells)
        return np.array(cells, dtype=np.int64)

    def subdivide_conforming(self, cells, n, wmax=2):
        """split edges/interiors so that the complex stays conforming (a split edge is split in
        every cell that contains it)."""
        r = self.rnd
        cells = [np.array(c) for c in cells]
        key = lambda v: tuple(int(x) for x in v.reshape(-1))
        for _ in range(n):
            c = cells[r.randrange(len(cells))]
            k = r.randint(2, self.nv)
            idx = r.sample(range(self.nv), k)
            p = self.comb([c[j] for j in idx], [r.randint(1, wmax) for _ in range(k)])
            ks = {key(c[j]) for j in idx}
            new = []
            for e in cells:
                ek = [key(v) for v in e]
                if ks <= set(ek):
                    for q in ks:
                        d = e.copy()
                        d[ek.index(q)] = p
                        new.append(d)
                else:
                    new.append(e)
            cells = new
        r.shuffle(cells)
        return np.array(cells, dtype=np.int64)

    def add6(self, u, v):
        return self.comb2(u, v, 1, 1)

    def comb2(self, u, v, k1, k2):
        out = []
        for x, y in zip(u, v):
            c1, c2 = int(x[2]), int(y[2])
            out.append(red(k1 * int(x[0]) * c2 + k2 * int(y[0]) * c1,
                           k1 * int(x[1]) * c2 + k2 * int(y[1]) * c1, c1 * c2))
        return np.array(out, dtype=np.int64)

    def shift(self, obj, d):
        return np.array([[self.add6(v, d) for v in c] for c in obj], dtype=np.int64)

    def shuffle_vertices(self, obj):
        out = []
        for c in obj:
            p = list(range(len(c)))
            self.rnd.shuffle(p)
            out.append(c[p])
        self.rnd.shuffle(out)
        return np.array(out, dtype=np.int64)


# --------------------------------------------------------------------------
# independent symmetry groups (oracle side), as 6x6 integer matrices
# --------------------------------------------------------------------------
_cache = {}


def group(pkg):
    """full point group computed from geometry alone: all signed permutations-like integer
    matrices that commute with the par/perp splitting, generated from generators found by
    matching projected basis vectors."""
    if pkg in _cache:
        return _cache[pkg]
    if pkg == "ico2":
        G = _ico_group()
    else:
        G = _dode_group()
    _cache[pkg] = G
    return G


def _ico_group():
    """All signed 6x6 permutation matrices mapping the 12 star vectors +-a_i of par space onto
    themselves by an orthogonal map (exact Gram matrix test)."""
    geo = GI
    cols = [tuple(geo.PAR[r][c] for r in range(3)) for c in range(6)]

    def dt(u, v):
        s = geo.zero
        for a, b in zip(u, v):
            s = s + a * b
        return s
    gram = [[dt(cols[i], cols[j]) for j in range(6)] for i in range(6)]
    sols = []

    def rec(img):
        k = len(img)
        if k == 6:
            sols.append(list(img))
            return
        for j in range(6):
            if any(j == x[0] for x in img):
                continue
            for s in (1, -1):
                ok = True
                for i, (ji, si) in enumerate(img):
                    g = gram[j][ji]
                    if s * si < 0:
                        g = -g
                    if g != gram[k][i]:
                        ok = False
                        break
                if ok:
                    img.append((j, s))
                    rec(img)
                    img.pop()
    rec([])
    mats = []
    for img in sols:
        M = [[0] * 6 for _ in range(6)]
        for k, (j, s) in enumerate(img):
            M[j][k] = s
        mats.append(tuple(map(tuple, M)))
    return set(mats)


def _dode_group():
    """12mm acting on the 4D dodecagonal lattice (5th and 6th axes fixed): all integer 4x4
    matrices acting orthogonally on par and perp space; found by exhaustive search over the
    images of the 4 basis vectors among the 12 star vectors."""
    geo = GD
    star = []
    # the 12 lattice vectors of the same length in par and perp space
    import itertools
    cols = [tuple(geo.PAR[r][c] for r in range(2)) + tuple(geo.PERP[r][c] for r in range(2)) for c in range(4)]

    def dt(u, v, lo):
        return u[lo] * v[lo] + u[lo + 1] * v[lo + 1]

    def emb(n):
        out = []
        for r in range(4):
            s = geo.zero
            for c in range(4):
                s = s + cols[c][r] * geo.K(n[c])
            out.append(s)
        return tuple(out)
    L0 = [(dt(cols[c], cols[c], 0), dt(cols[c], cols[c], 2)) for c in range(4)]
    cand = []
    for n in itertools.product((-1, 0, 1), repeat=4):
        if not any(n):
            continue
        e = emb(n)
        if (dt(e, e, 0), dt(e, e, 2)) in L0:
            cand.append((n, e))
    sols = []

    def rec(img):
        k = len(img)
        if k == 4:
            sols.append([x[0] for x in img])
            return
        for n, e in cand:
            if (dt(e, e, 0), dt(e, e, 2)) != L0[k]:
                continue
            if all(dt(e, img[i][1], 0) == dt(cols[k], cols[i], 0) and
                   dt(e, img[i][1], 2) == dt(cols[k], cols[i], 2) for i in range(k)):
                img.append((n, e))
                rec(img)
                img.pop()
    rec([])
    mats = []
    for img in sols:
        M = [[0] * 6 for _ in range(6)]
        for k, n in enumerate(img):
            for r in range(4):
                M[r][k] = n[r]
        M[4][4] = M[5][5] = 1
        mats.append(tuple(map(tuple, M)))
    return set(mats)


def _alias(self, v, mag=2):
    """another 6D vector with exactly the same internal component"""
    r, K, st = self.rnd, self.geo.K, self.style
    c = [st.frm([r.randint(-mag, mag), r.randint(-mag, mag), 1]) for _ in range(3)]
    if self.pkg == "ico2":
        k = [sum_((self.geo.PAR[i][j] * c[i] for i in range(3)), K(0)) for j in range(6)]
    else:
        t, h = st.frm([0, 1, 1]), st.frm([1, 0, 2])
        k = [c[0], t * c[0] + h * c[1], h * c[0] + t * c[1], c[1], K(0), K(0)]
    return np.array([st.canon(st.frm(a) + b) for a, b in zip(v, k)], dtype=np.int64)


def sum_(it, z):
    for x in it:
        z = z + x
    return z


Gen.alias = _alias


def _relate(self, obj, k=1):
    """object with k further cells related to its own: repeated (also with other vertex order), the same internal cell
    by other 6D vectors, sharing all vertices but one, opposite, scaled, with two coordinates exchanged"""
    r, st, K = self.rnd, self.style, self.geo.K
    out = [np.array(c) for c in obj]
    for _ in range(k):
        c = out[r.randrange(len(out))].copy()
        how = r.choice(["same", "order", "alias", "alias1", "share", "share", "minus", "scale", "swap"])
        if how == "order":
            p = list(range(len(c)))
            r.shuffle(p)
            c = c[p]
        elif how == "alias":
            c = np.array([self.alias(v) for v in c])
        elif how == "alias1":
            i = r.randrange(len(c))
            c[i] = self.alias(c[i])
        elif how == "share":
            j = r.randrange(len(c))
            c[j] = self.comb([c[j], c[j - 1]], [r.choice([1, 2, 3]), r.choice([1, -4])])
        elif how == "minus":
            c = c * np.array([-1, -1, 1])
        elif how == "scale":
            f = st.frm([r.choice([1, 1, 2, 0]), r.choice([0, 1]), r.choice([2, 3, 7])])
            if f.is_zero():
                f = K(1, 0, 5)
            c = np.array([[st.canon(st.frm(t) * f) for t in v] for v in c])
        elif how == "swap":
            i, j = r.sample(range(6 if self.pkg == "ico2" else 4), 2)
            c = c.copy()
            c[:, [i, j]] = c[:, [j, i]]
        out.insert(r.randint(0, len(out)), c)
    return np.array(out, dtype=np.int64)


Gen.relate = _relate
