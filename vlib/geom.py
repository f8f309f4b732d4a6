"""Independent exact geometry (oracle side)."""
from itertools import combinations
from .field import K5, K3, from_tau, from_sin

Z5, Z3 = K5(0), K3(0)


def k5(a, b=0, c=1):
    return from_tau((a, b, c))


def k3(a, b=0, c=1):
    return from_sin((a, b, c))


_t = (0, 1, 1)
_mt = (0, -1, 1)
_1 = (1, 0, 1)
_m1 = (-1, 0, 1)
_0 = (0, 0, 1)
_h = (1, 0, 2)
_mh = (-1, 0, 2)
# projection matrices, rows; written down from the definition of the icosahedral
# (Yamamoto setting) and dodecagonal lattices used in the documentation.
ICO_PAR = [[_1, _t, _t, _0, _m1, _0], [_t, _0, _0, _1, _t, _1], [_0, _1, _m1, _mt, _0, _t]]
ICO_PERP = [[_t, _m1, _m1, _0, _mt, _0], [_m1, _0, _0, _t, _m1, _t], [_0, _t, _mt, _1, _0, _m1]]
DODE_PAR = [[_t, _1, _0, _mh, _0, _0], [_mh, _0, _1, _t, _0, _0], [_0, _0, _0, _0, _1, _0]]
DODE_PERP = [[_mt, _1, _0, _mh, _0, _0], [_mh, _0, _1, _mt, _0, _0], [_0, _0, _0, _0, _0, _1]]


class Geo:
    """One package's number field, projections and helpers."""

    def __init__(self, name, K, frm, par, perp):
        self.name, self.K, self.frm = name, K, frm
        self.PAR = [[frm(x) for x in row] for row in par]
        self.PERP = [[frm(x) for x in row] for row in perp]
        self.zero = K(0)

    def vec(self, v):
        return [self.frm(t) for t in v]

    def lin(self, M, v):
        out = []
        for row in M:
            s = self.zero
            for a, b in zip(row, v):
                if not (a.p == 0 and a.q == 0):
                    s = s + a * b
            out.append(s)
        return out

    def perp(self, v6):
        return tuple(self.lin(self.PERP, self.vec(v6)))

    def par(self, v6):
        return tuple(self.lin(self.PAR, self.vec(v6)))


GI = Geo("ico2", K5, from_tau, ICO_PAR, ICO_PERP)
GD = Geo("dode2", K3, from_sin, DODE_PAR, DODE_PERP)


# --------------------------------------------------------------------------
# 3-vectors of field elements
# --------------------------------------------------------------------------
def sub(u, v):
    return tuple(a - b for a, b in zip(u, v))


def add(u, v):
    return tuple(a + b for a, b in zip(u, v))


def scale(u, k):
    return tuple(a * k for a in u)


def dot(u, v):
    s = u[0] * v[0]
    for a, b in zip(u[1:], v[1:]):
        s = s + a * b
    return s


def cross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])


def det3(a, b, c):
    return dot(a, cross(b, c))


def tet_vol6(t):
    """6 * signed volume"""
    return det3(sub(t[1], t[0]), sub(t[2], t[0]), sub(t[3], t[0]))


def orient(a, b, c, d):
    return det3(sub(b, a), sub(c, a), sub(d, a)).sign()


def tet_planes(t):
    """inward half spaces (n, k): n.x - k >= 0 inside"""
    pl = []
    for i in range(4):
        o = [t[j] for j in range(4) if j != i]
        n = cross(sub(o[1], o[0]), sub(o[2], o[0]))
        k = dot(n, o[0])
        if (dot(n, t[i]) - k).sign() < 0:
            n = scale_neg(n)
            k = -k
        pl.append((n, k))
    return pl


def scale_neg(n):
    return tuple(-a for a in n)


def in_tet(p, t, planes=None):
    """1 strictly inside, 0 on the boundary, -1 outside"""
    res = 1
    for n, k in (planes or tet_planes(t)):
        s = (dot(n, p) - k).sign()
        if s < 0:
            return -1
        if s == 0:
            res = 0
    return res


def clip_tets(tets, plane):
    """clip a list of tetrahedra (tuples of 4 points) by n.x>=k, exactly"""
    n, k = plane
    out = []
    for t in tets:
        s = [dot(n, p) - k for p in t]
        g = [x.sign() for x in s]
        if all(x <= 0 for x in g):
            continue
        if all(x >= 0 for x in g):
            out.append(t)
            continue
        P = [i for i in range(4) if g[i] > 0]
        Zz = [i for i in range(4) if g[i] == 0]
        N = [i for i in range(4) if g[i] < 0]

        def cut(i, j):
            f = s[i] / (s[i] - s[j])
            return add(t[i], scale(sub(t[j], t[i]), f))
        if len(P) == 1:
            a = P[0]
            new = [t[a]] + [t[z] for z in Zz] + [cut(a, j) for j in N]
            out.append(tuple(new))
        elif len(P) == 2:
            a, b = P
            if len(N) == 1:      # one zero
                z, c = Zz[0], N[0]
                ac, bc = cut(a, c), cut(b, c)
                out.append((t[a], t[b], t[z], ac))
                out.append((t[b], t[z], ac, bc))
            else:                # two negative: a prism  a-(ac,ad), b-(bc,bd)
                c, e = N
                ac, ad, bc, bd = cut(a, c), cut(a, e), cut(b, c), cut(b, e)
                out.append((t[a], ac, ad, t[b]))
                out.append((ac, ad, t[b], bc))
                out.append((ad, t[b], bc, bd))
        else:                    # three positive, one negative: prism
            a, b, c = P
            e = N[0]
            ae, be, ce = cut(a, e), cut(b, e), cut(c, e)
            out.append((t[a], t[b], t[c], ae))
            out.append((t[b], t[c], ae, be))
            out.append((t[c], ae, be, ce))
    return out


def tets_vol6(tets):
    s = None
    for t in tets:
        v = abs(tet_vol6(t))
        s = v if s is None else s + v
    return s


def fbox(pts):
    """float bounding box (exact floats are within 1 ulp of truth)"""
    f = [[float(c) for c in p] for p in pts]
    n = len(f[0])
    return [min(p[i] for p in f) - 1e-9 for i in range(n)], [max(p[i] for p in f) + 1e-9 for i in range(n)]


def box_apart(b1, b2):
    return any(b1[1][i] < b2[0][i] or b2[1][i] < b1[0][i] for i in range(len(b1[0])))


class Solid:
    """an object: list of simplices in exact perp space coordinates."""

    def __init__(self, geo, obj, dim):
        self.geo = geo
        self.dim = dim
        self.cells = []
        memo = {}
        for cell in obj:
            pts = []
            for v in cell:
                key = tuple(int(x) for x in v.reshape(-1)) if hasattr(v, "reshape") else None
                p = memo.get(key) if key is not None else None
                if p is None:
                    p = geo.perp(v)[:dim]
                    if key is not None:
                        memo[key] = p
                pts.append(p)
            self.cells.append(tuple(pts))
        self.boxes = [fbox(c) for c in self.cells]

    def measure(self):
        """dim! * total measure"""
        s = self.geo.zero
        f = tet_vol6 if self.dim == 3 else tri_area2
        for c in self.cells:
            s = s + abs(f(c))
        return s

    def cell_measure(self, c):
        return abs(tet_vol6(c) if self.dim == 3 else tri_area2(c))


def tri_area2(t):
    a, b = sub(t[1], t[0]), sub(t[2], t[0])
    return a[0] * b[1] - a[1] * b[0]


def tri_lines(t):
    out = []
    for i in range(3):
        a, b, c = t[(i + 1) % 3], t[(i + 2) % 3], t[i]
        n = (a[1] - b[1], b[0] - a[0])
        k = n[0] * a[0] + n[1] * a[1]
        if (n[0] * c[0] + n[1] * c[1] - k).sign() < 0:
            n = (-n[0], -n[1])
            k = -k
        out.append((n, k))
    return out


def in_tri(p, t, lines=None):
    res = 1
    for n, k in (lines or tri_lines(t)):
        s = (n[0] * p[0] + n[1] * p[1] - k).sign()
        if s < 0:
            return -1
        if s == 0:
            res = 0
    return res


def clip_tris(tris, line):
    n, k = line
    out = []
    for t in tris:
        s = [n[0] * p[0] + n[1] * p[1] - k for p in t]
        g = [x.sign() for x in s]
        if all(x <= 0 for x in g):
            continue
        if all(x >= 0 for x in g):
            out.append(t)
            continue
        poly = []
        for i in range(3):
            j = (i + 1) % 3
            if g[i] >= 0:
                poly.append(t[i])
            if g[i] * g[j] < 0:
                f = s[i] / (s[i] - s[j])
                poly.append(add(t[i], scale(sub(t[j], t[i]), f)))
        for i in range(1, len(poly) - 1):
            out.append((poly[0], poly[i], poly[i + 1]))
    return out


def halfspaces(cell):
    return tet_planes(cell) if len(cell) == 4 else tri_lines(cell)


def clip(cells, hs, dim):
    f = clip_tets if dim == 3 else clip_tris
    for h in hs:
        cells = f(cells, h)
        if not cells:
            break
    return cells


def overlap_measure(c1, c2, dim):
    """dim! * measure of the intersection of two simplices"""
    return list_measure(clip([c1], halfspaces(c2), dim), dim, c1)


def list_measure(cells, dim, like):
    K = type(like[0][0])
    s = K(0)
    f = tet_vol6 if dim == 3 else tri_area2
    for c in cells:
        s = s + abs(f(c))
    return s


def hull_ok(points):
    pass
