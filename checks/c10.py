"""C10 geometric predicates in internal space"""
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen
from vlib.isect import near_pair, scattered
from vlib.geom import Solid, tet_planes, tri_lines, in_tet, in_tri, clip, halfspaces, list_measure, sub, cross, dot, add, scale

PROP = "C10"
RULE = ("cells, objects, segments and points constructed so that the exact answer is known and either exact (point on a vertex, "
        "edge, face, in the interior, segment ending on a face) clear (outside by at least one per cent of the cell) or clear by little more than the tolerance of the predicates (four times): every predicate "
        "is asked through 6D representatives, also through other 6D vectors with the same internal component; exact "
        "crossing points must lie exactly on both partners. Non-trivial: all; distinct by arguments.")
MIN = {}
for _p in ("ico2", "dode2"):
    for _k, _n in (("cell interior", 100), ("cell boundary", 100), ("cell outside", 100), ("obj inside", 50), ("obj outside", 50),
                   ("on segment", 60), ("off segment", 60), ("in triangle", 60), ("off triangle", 60), ("segments cross", 30),
                   ("segments apart", 30), ("crossing", 40), ("no crossing", 40), ("relation apart", 10), ("relation overlap", 10),
                   ("relation inside", 10), ("coplanar", 30)):
        MIN["%s.%s" % (_p, _k)] = _n
MIN["ico2.not coplanar"] = 30
MIN["ico2.relation near"] = MIN["dode2.relation near"] = 30


def fp(g, v):
    return np.array([float(x) for x in g.geo.perp(v)])


def comb_w(g, pts, w, den):
    """sum w_i p_i / den, sum(w) == den, weights may be negative"""
    out = None
    st = g.style
    K = g.geo.K
    res = []
    for i in range(6):
        s = K(0)
        for p, k in zip(pts, w):
            s = s + st.frm(p[i]) * K(k, 0, den)
        res.append(st.canon(s))
    return np.array(res, dtype=np.int64)


def run(mon, pkg, seed, n):
    ns = load(pkg)
    nc, it_ = ns.numericalc, ns.intsct
    g = Gen(pkg, seed_of(PROP, pkg, seed))
    r = g.rnd
    cell_tau = nc.inside_outside_tetrahedron_tau if pkg == "ico2" else nc.inside_outside_triangle_tau
    cell_num = nc.inside_outside_tetrahedron if pkg == "ico2" else nc.inside_outside_triangle
    relation = it_.check_intersection_two_tetrahedron_4 if pkg == "ico2" else it_.check_intersection_two_triangles
    rough = it_.rough_check_intersection_tetrahedron_obj if pkg == "ico2" else it_.rough_check_intersection_triangle_obj
    inc = in_tet if pkg == "ico2" else in_tri
    D = g.dim

    def al(v):
        return g.alias(v) if r.random() < 0.35 else v

    def expect(kind, f, args, want, **kw):
        mon.case("%s.%s" % (pkg, kind), (f.__name__, args), sample={"pkg": pkg, "kind": kind, "predicate": f.__name__,
                 "args": args, "expected": want} if mon.evals % 397 == 11 else None)
        x = mon.call(f, *args)
        if isinstance(x, Failure):
            return
        if isinstance(x, np.ndarray) and x.ndim > 0 or x is None:
            mon.bad("%s.%s(%s): not a truth value" % (pkg, f.__name__, kind), args=args, got=repr(x))
            return
        mon.ok(bool(x) == want, "%s: %s is %s for a case that is %s" % (pkg, f.__name__, bool(x), kind), args=args, **kw)

    def cell_points(c):
        """(kind, point, truth)"""
        den = r.choice([4, 5, 6, 7, 9, 12])
        # interior
        w = [1] * g.nv
        for _ in range(den * 2 - g.nv):
            w[r.randrange(g.nv)] += 1
        yield "cell interior", comb_w(g, c, w, den * 2), True
        # boundary: k of nv weights
        k = r.randint(1, g.nv - 1)
        idx = r.sample(range(g.nv), k)
        w = [0] * g.nv
        for i in idx:
            w[i] = 1
        for _ in range(den - k):
            w[r.choice(idx)] += 1
        yield "cell boundary", comb_w(g, c, w, den), True
        # outside: exactly one or more negative weights (>= 1/50)
        w = [r.randint(-2, 6) for _ in range(g.nv)]
        w[r.randrange(g.nv)] = -r.choice([1, 1, 2, 30])
        d = r.choice([12, 25, 50])
        i = max(range(g.nv), key=lambda j: w[j])
        w[i] += d - sum(w)
        yield "cell outside", comb_w(g, c, w, d), False

    for it in range(n):
        m, b, cm = r.choice([(1, 0, 1), (2, 0, 1), (1, 1, 1), (2, 1, 2), (3, 1, 3), (1, 0, 2)])
        c = g.simplex(m, b, cm, 0.08)
        c = np.array([al(v) for v in c]) if r.random() < 0.3 else c
        fl = np.array([fp(g, v) for v in c])
        for kind, p, want in cell_points(c):
            e = inc(g.geo.perp(p)[:D], tuple(g.geo.perp(v)[:D] for v in c))
            assert (e >= 0) == want, "generator"
            p = al(p)
            expect(kind, cell_tau, (p, c), want)
            expect(kind, cell_num, (fp(g, p), fl), want)
        if it % 4 == 1:
            # the same question for a much smaller and a much larger cell
            q = r.choice([100, 1000, 10000])
            o = c[0]
            cs = np.array([comb_w(g, [o, v], [q - 1, 1], q) for v in c])
            cl = np.array([comb_w(g, [o, v], [1 - q, q], 1) for v in c])
            for cc, what in ((cs, "small"), (cl, "large")):
                ff = np.array([fp(g, v) for v in cc])
                for kind, p, want in cell_points(cc):
                    expect(kind, cell_tau, (p, cc), want, size=what)
                    expect(kind, cell_num, (fp(g, p), ff), want, size=what)
                    if kind == "cell boundary":
                        mon.hit("cell of size 1/%d or %d" % (q, q))
        if it in (5, 6):
            # many cells
            obj, _b = scattered(g, r.choice([130, 270]) if it == 5 else 1040)
            fo = np.array([[fp(g, v) for v in cc] for cc in obj])
            for j in [0, len(obj) - 1] + [r.randrange(len(obj)) for _ in range(8 if it == 5 else 3)]:
                for kind, p, want in cell_points(obj[j]):
                    pe = g.geo.perp(p)[:D]
                    where = want or max(inc(pe, cc) for cc in Solid(g.geo, obj, D).cells) >= 0
                    kind = "obj inside" if where else "obj outside"
                    if it == 5:
                        expect(kind, nc.inside_outside_obj_tau, (p, obj), where, cells=len(obj))
                    expect(kind, nc.inside_outside_obj, (fp(g, p), fo), where, cells=len(obj))
                    mon.hit("object of many cells")
        # objects
        if it % 2 == 0:
            base = [c] + ([g.simplex(m, b, cm, 0.08)] if r.random() < 0.5 else [])
            obj = g.subdivide(base, r.randint(0, 3), 2)
            cells = Solid(g.geo, obj, D).cells
            for _ in range(3):
                j = r.randrange(len(obj))
                kind, p, _w = r.choice(list(cell_points(obj[j])))
                pe = g.geo.perp(p)[:D]
                where = max(inc(pe, cc) for cc in cells)
                if where < 0:
                    # clear of every cell?
                    ok = all(margin(pe, cc, D) < -0.005 for cc in cells)
                    if not ok:
                        continue
                kind = "obj inside" if where >= 0 else "obj outside"
                expect(kind, nc.inside_outside_obj_tau, (p, obj), where >= 0)
                expect(kind, nc.inside_outside_obj, (fp(g, p), np.array([[fp(g, v) for v in cc] for cc in obj])), where >= 0)
        # segments and points
        A, B = c[0], c[1]
        LAB = np.linalg.norm(fp(g, A) - fp(g, B))
        if LAB > 0.3:
            d = r.choice([2, 3, 5, 8])
            k = r.randint(0, d)
            p = al(comb_w(g, [A, B], [d - k, k], d))
            seg = np.array([al(A), al(B)])
            expect("on segment", nc.point_on_segment, (p, seg), True)
            k = r.choice([-d, -1, d + 1, 2 * d])
            expect("off segment", nc.point_on_segment, (al(comb_w(g, [A, B], [d - k, k], d)), seg), False)
            expect("off segment", nc.point_on_segment, (al(comb_w(g, [A, B, c[2]], [d - 1, d - 1, 2], 2 * d)), seg), False)
        # triangles (as surfaces)
        tri = c[:3]
        w = [r.randint(0, 4) for _ in range(3)]
        if sum(w):
            expect("in triangle", nc.on_out_surface, (al(g.comb(list(tri), w)), tri), True)
        d = r.choice([10, 20])
        w = [r.randint(-1, 5), r.randint(1, 5), -r.randint(1, 20)]
        w[0] += d - sum(w)
        r.shuffle(w)
        expect("off triangle", nc.on_out_surface, (al(comb_w(g, tri, w, d)), tri), False)
        if D == 3:
            w = [r.randint(1, 4) for _ in range(3)]
            s = sum(w)
            p = comb_w(g, c, [7 * x for x in w] + [s], 8 * s)
            P = np.array([fp(g, p)] + [fp(g, v) for v in tri])
            if offarea(P) > 1e-4:
                expect("off triangle", nc.on_out_surface, (al(p), tri), False)
        # two segments crossing (in a plane)
        planar_cross(mon, g, ns, c, al, expect)
        # segment and surface
        if D == 3:
            seg_surface3(mon, g, ns, c, al, expect)
        # relation of two cells and the bounding ball filter
        if it % 2 == 1:
            c2 = g.simplex(m, b, cm, 0.1) if r.random() < 0.6 else small(g, c)
            if r.random() < 0.3:
                d = g.lattice()
                c2 = np.array([g.add6(v, d) for v in c2])
            if r.random() < 0.3:
                c, c2 = c2, c
            e1, e2 = (tuple(g.geo.perp(v)[:D] for v in x) for x in (c, c2))
            ov = list_measure(clip([e1], halfspaces(e2), D), D, e1)
            in12 = all(inc(p, e2) >= 0 for p in e1)
            in21 = all(inc(p, e1) >= 0 for p in e2)
            rel = mon.call(relation, c, c2)
            fov = float(ov)
            if not isinstance(rel, Failure):
                kind = "inside" if (in12 or in21) else ("overlap" if fov > 0 else "apart")
                mon.case("%s.relation %s" % (pkg, kind), (c, c2))
                gap1 = min(margin(p, e2, D) for p in e1)
                gap2 = min(margin(p, e1, D) for p in e2)
                if in12:
                    mon.ok(rel == 1, "%s: a cell inside another is not reported as inside" % pkg, a=c, b=c2, got=rel)
                elif in21:
                    mon.ok(rel == 2, "%s: a cell containing another is not reported as such" % pkg, a=c, b=c2, got=rel)
                else:
                    if rel == 1:
                        mon.ok(gap1 > -1e-4, "%s: reported inside but is not" % pkg, a=c, b=c2)
                    if rel == 2:
                        mon.ok(gap2 > -1e-4, "%s: reported containing but is not" % pkg, a=c, b=c2)
                    if fov > 1e-3:
                        mon.ok(rel == 3, "%s: overlapping cells reported as %r" % (pkg, rel), a=c, b=c2, overlap=fov)
            obj2 = g.subdivide([c2], r.randint(0, 2))
            cen = mon.call(ns.math1.centroid_obj, obj2)
            if isinstance(cen, Failure):
                continue
            rad = mon.call(it_.ball_radius_obj, obj2, cen)
            rc = mon.call(rough, c, cen, rad)
            if not isinstance(rc, Failure) and fov > 1e-6:
                mon.case("%s.rough filter" % pkg, (c, obj2))
                mon.ok(bool(rc), "%s: bounding balls of overlapping objects reported apart" % pkg, a=c, b=obj2)
            if not isinstance(rad, Failure):
                want = max(np.linalg.norm(fp(g, v) - fp(g, cen)) for cc in obj2 for v in cc)
                mon.ok(abs(rad - want) < 1e-9, "%s: radius of the bounding ball" % pkg, obj=obj2, got=rad, want=want)
            dd = mon.call(it_.distance_in_perp_space, c[0], c2[0])
            if not isinstance(dd, Failure):
                want = np.linalg.norm(fp(g, c[0]) - fp(g, c2[0]))
                mon.ok(abs(dd - want) < 1e-9, "%s: distance in internal space" % pkg, a=c[0], b=c2[0], got=dd, want=want)
        coplanar(mon, g, ns, c, al, expect)
        near(mon, g, ns, c, al, expect, cell_tau, cell_num)
        if it % 4 == 3:
            near_relation(mon, g, relation, inc)


TOL = 4e-6          # the predicates have a tolerance of 1e-6 (coplanarity 1e-10)


def near(mon, g, ns, c, al, expect, cell_tau, cell_num):
    """clear by little more than the tolerance of the predicates"""
    r, nc, it_ = g.rnd, ns.numericalc, ns.intsct
    fl = np.array([fp(g, v) for v in c])
    k = r.randrange(6 if g.dim == 3 else 5)
    den = r.choice([300, 3000, 30000, 240000])
    if k == 0:
        for sgn in (-1, 1):
            w = [r.randint(1, 4) for _ in c]
            i = r.randrange(g.nv)
            w[i] = 0
            j = max(range(g.nv), key=lambda q: w[q])
            w = [x * (den // 20) for x in w]
            w[i] = sgn
            w[j] += den - sum(w)
            p = comb_w(g, c, w, den)
            kind = "cell interior" if sgn > 0 else "cell outside"
            expect(kind, cell_tau, (al(p), c), sgn > 0, near=den)
            expect(kind, cell_num, (fp(g, p), fl), sgn > 0, near=den)
            expect("obj inside" if sgn > 0 else "obj outside", nc.inside_outside_obj_tau, (p, np.array([c])), sgn > 0, near=den)
    elif k == 1:
        A, B = c[0], c[1]
        seg = np.array([al(A), al(B)])
        P = r.choice([comb_w(g, [A, B], [-1, den + 1], den), comb_w(g, [A, B], [den + 1, -1], den),
                      comb_w(g, [A, B, c[2]], [den // 2, den - 1 - den // 2, 1], den)])
        p, a, b = fp(g, P), fl[0], fl[1]
        off = np.linalg.norm(p - a) * np.linalg.norm(b - a) - np.dot(p - a, b - a)
        if off > TOL or off < 1e-12 and np.dot(p - a, b - a) > np.dot(b - a, b - a) * (1 + TOL):
            expect("off segment", nc.point_on_segment, (al(P), seg), False, near=den)
        for w in ([1, den - 1], [den - 1, 1]):
            expect("on segment", nc.point_on_segment, (al(comb_w(g, [A, B], w, den)), seg), True, near=den)
    elif k == 2:
        tri = c[:3]
        w = [den // 3, den - den // 3 + 1, -1]
        r.shuffle(w)
        P = comb_w(g, tri, w, den)
        if g.dim == 3 and r.random() < 0.5:
            P = comb_w(g, c, [den // 3, den // 3, den - 1 - 2 * (den // 3), 1], den)
        if offarea(np.array([fp(g, P), fl[0], fl[1], fl[2]])) > TOL:
            expect("off triangle", nc.on_out_surface, (al(P), tri), False, near=den)
    elif k == 3:
        # two segments: one ends just before the other, passes just beyond its end, or they cross at a small angle
        A, B, C = c[0], c[1], c[2]
        q = r.randint(1, 3)
        X = comb_w(g, [A, B], [4 - q, q], 4)
        m = r.choice(["short", "beyond", "angle"] + (["gap"] if g.dim == 3 else []))
        t1 = [A, B]
        if m == "short":
            t2 = [C, comb_w(g, [X, C], [den - 1, 1], den)]
        elif m == "beyond":
            Y = comb_w(g, [A, B], [-1, den + 1], den)
            t2 = [C, comb_w(g, [Y, C], [2, -1], 1)]
        elif m == "gap":
            t2 = [comb_w(g, [C, A, c[3]], [den, -1, 1], den), comb_w(g, [X, C, A, c[3]], [2 * den, -den, -1, 1], den)]
            n = np.cross(fl[1] - fl[0], fl[2] - fl[0])
            if (np.dot(fl[3] - fl[0], n) / den) ** 2 / np.dot(n, n) < TOL:
                return
        else:
            t2 = [comb_w(g, [A, C], [den - 1, 1], den), comb_w(g, [B, A, C], [den, 1, -1], den)]
            if (2 / den) ** 2 * np.sum(np.cross(fl[1] - fl[0], fl[2] - fl[0]) ** 2) < TOL:
                return
            X = comb_w(g, [A, B], [1, 1], 2)
        e1, e2 = _f(g, t1), _f(g, t2)
        if np.sum(np.cross(e1[1] - e1[0], e2[1] - e2[0]) ** 2) < TOL:
            return
        t1, t2 = np.array([al(v) for v in t1]), np.array([al(v) for v in t2])
        if r.random() < 0.5:
            t1, t2 = t2, t1
        if r.random() < 0.5:
            t1 = t1[::-1].copy()
        if r.random() < 0.5:
            t2 = t2[::-1].copy()
        want = m == "angle"
        expect("segments cross" if want else "segments apart", nc.check_intersection_two_segment_numerical_6d_tau, (t1, t2), want, near=m)
        p = mon.call(it_.intersection_two_segment, t1, t2)
        if not isinstance(p, Failure):
            if want:
                mon.ok(p is not None and g.geo.perp(np.asarray(p).reshape(6, 3)) == g.geo.perp(X),
                       "%s: crossing point of two segments (small angle) missing or not exact" % g.pkg, s1=t1, s2=t2, got=p)
            else:
                mon.ok(p is None, "%s: crossing point reported for segments that are apart (%s)" % (g.pkg, m), s1=t1, s2=t2, got=p)
    elif k == 4:
        if g.dim == 2:
            # a segment that ends just before an edge of the triangle
            A, B, C = c
            X = comb_w(g, [A, B], [2, 1], 3)
            F = comb_w(g, [X, C], [3, -2], 1)
            seg = np.array([F, comb_w(g, [X, F], [den - 1, 1], den)])
            expect("no crossing", nc.check_intersection_segment_surface_numerical_6d_tau, (seg, c[r.sample(range(3), 3)]), False, near=den)
            return
        tri = c[:3]
        X = g.comb(list(tri), [r.randint(1, 4) for _ in range(3)])
        top = g.comb(list(c), [1, 1, 1, 3])
        m = r.choice(["short", "side", "angle"])
        if m == "short":
            seg = [top, comb_w(g, [top, X], [1, den - 1], den)]
        elif m == "side":
            w = [den // 3, den - den // 3 + 1, -1]
            r.shuffle(w)
            Y = comb_w(g, list(tri), w, den)
            seg = [top, comb_w(g, [Y, top], [3, -1], 2)]
        else:
            D = comb_w(g, [tri[1], tri[0]], [1, 0], 1)
            seg = [comb_w(g, [X, D, tri[0], c[3]], [den, den // 4, -(den // 4) - 1, 1], den),
                   comb_w(g, [X, D, tri[0], c[3]], [den, -(den // 4), den // 4 + 1, -1], den)]
        s3 = _f(g, seg)
        if abs(np.dot(np.cross(fl[1] - fl[0], fl[2] - fl[0]), s3[1] - s3[0])) < TOL:
            return
        seg = np.array([al(v) for v in seg])
        if r.random() < 0.5:
            seg = seg[::-1].copy()
        want = m == "angle"
        perm = r.sample(range(3), 3)
        tri = tri[perm]
        expect("crossing" if want else "no crossing", nc.check_intersection_segment_surface_numerical_6d_tau, (seg, tri), want, near=m)
        p = mon.call(it_.intersection_segment_surface, seg, tri)
        if not isinstance(p, Failure):
            if want:
                mon.ok(p is not None and g.geo.perp(np.asarray(p).reshape(6, 3)) == g.geo.perp(X),
                       "%s: crossing point of segment and triangle (small angle) missing or not exact" % g.pkg, seg=seg, tri=tri, got=p)
            else:
                mon.ok(p is None, "%s: crossing point reported for a segment that misses the triangle (%s)" % (g.pkg, m), seg=seg, tri=tri, got=p)
    else:
        # nearly coplanar points
        den = int(abs(np.linalg.det(fl[1:] - fl[0])) / r.choice([1e-8, 1e-7, 1e-5, 1e-3])) + 3
        pts = [c[0], c[1], c[2], comb_w(g, c, [den // 3, den // 3, den - 1 - 2 * (den // 3), 1], den)]
        if abs(np.linalg.det(fl[1:] - fl[0])) / den < 2e-9 or np.abs(np.cross(fl[1] - fl[0], fl[2] - fl[0])).max() < 1e-2:
            return
        if r.random() < 0.4:
            # nearly on a line, not in a plane
            k = r.choice([10, 100, 1000])
            pts = [c[0], c[1], comb_w(g, c, [k, k - 1, 1, 0], 2 * k), comb_w(g, c, [k - 1, k, 0, 1], 2 * k)]
            P = np.array([fp(g, v) for v in pts])
            if abs(np.linalg.det(P[1:] - P[0])) < 1e-8 or min(np.abs(np.cross(P[1] - P[0], P[i] - P[0])).max() for i in (2, 3)) < 1e-4:
                return
        pts += [comb_w(g, list(c[:2]), [1, 3], 4)] * r.randint(0, 2)
        r.shuffle(pts)
        pts = np.array([al(v) for v in pts])
        for f, a in ((ns.math1.coplanar_check, pts), (nc.coplanar_check_numeric_tau, pts), (nc.coplanar_check_numeric, np.array([fp(g, v) for v in pts]))):
            expect("not coplanar", f, (a,), False, near=den)


def near_relation(mon, g, relation, inc):
    """cells that nearly coincide, nearly contain each other or nearly touch"""
    T, U = near_pair(g)
    D = g.dim
    e1, e2 = (tuple(g.geo.perp(v)[:D] for v in x) for x in (T, U))
    in12 = all(inc(p, e2) >= 0 for p in e1)
    in21 = all(inc(p, e1) >= 0 for p in e2)
    rel = mon.call(relation, T, U)
    if isinstance(rel, Failure):
        return
    mon.case("%s.relation near" % g.pkg, (T, U))
    if in12 or in21:
        mon.ok(rel == (1 if in12 else 2), "%s: a cell in another one is reported as %r (nearly coincident cells)" % (g.pkg, rel), a=T, b=U)
    else:
        ov = list_measure(clip([e1], halfspaces(e2), D), D, e1)
        mon.ok(rel not in (1, 2), "%s: reported as contained although it is not (nearly coincident cells)" % g.pkg, a=T, b=U, got=rel)
        if not ov.is_zero():
            mon.ok(rel == 3, "%s: overlapping cells reported as %r (nearly coincident cells)" % (g.pkg, rel), a=T, b=U)


def margin(p, cell, D):
    """smallest barycentric coordinate"""
    out = []
    nv = D + 1
    for i in range(nv):
        face = [cell[j] for j in range(nv) if j != i]
        if D == 3:
            n = cross(sub(face[1], face[0]), sub(face[2], face[0]))
        else:
            e = sub(face[1], face[0])
            n = (-e[1], e[0])
        a = dot(n, sub(p, face[0]))
        b = dot(n, sub(cell[i], face[0]))
        out.append(float(a / b))
    return min(out)


def offarea(P):
    def ar(a, b, c):
        return np.linalg.norm(np.cross(b - a, c - a)) / 2
    p, a, b, c = P
    return ar(p, a, b) + ar(p, b, c) + ar(p, a, c) - ar(a, b, c)


def small(g, c):
    """a smaller cell inside c, sharing 0..nv-1 vertices"""
    r = g.rnd
    while True:
        out = []
        for i in range(g.nv):
            if r.random() < 0.4:
                out.append(c[i])
            else:
                w = [r.randint(0, 2) for _ in range(g.nv)]
                w[i] += 4
                out.append(g.comb(list(c), w))
        out = np.array(out)
        if g.quality(out) > 0.02:
            return out


def planar_cross(mon, g, ns, c, al, expect):
    """two segments in the plane of three vertices: X = point of crossing, both run through it"""
    r, nc, pkg = g.rnd, ns.numericalc, g.pkg
    A, B, C = c[0], c[1], c[2]
    # triangle A,B,C: segment 1 from A to a point on BC and beyond; segment 2 from B to a point on AC
    q = r.randint(1, 3)
    E = comb_w(g, [B, C], [4 - q, q], 4)
    q = r.randint(1, 3)
    F = comb_w(g, [A, C], [4 - q, q], 4)
    s1, s2 = np.array([al(A), al(E)]), np.array([al(B), al(F)])
    if r.random() < 0.5:
        s1 = s1[::-1].copy()
    if r.random() < 0.5:
        s2 = s2[::-1].copy()
    if not clear_cross(g, s1, s2):
        return
    expect("segments cross", nc.check_intersection_two_segment_numerical_6d_tau, (s1, s2), True)
    p = mon.call(ns.intsct.intersection_two_segment, s1, s2)
    if not isinstance(p, Failure):
        if p is None or np.asarray(p).shape != (6, 3):
            mon.bad("%s: crossing point of two segments missing" % pkg, s1=s1, s2=s2, got=p)
        else:
            P = g.geo.perp(p)
            mon.case("%s.crossing point of segments" % pkg, (s1, s2))
            mon.ok(between(g, P, s1) and between(g, P, s2), "%s: crossing point is not exactly on both segments" % pkg, s1=s1, s2=s2, got=p)
            mon.ok(on_line6(g, p, s1), "%s: crossing point leaves the 6D line of the first segment" % pkg, s1=s1, s2=s2, got=p)
    # touching: the end point of one segment on the other, or a common end point
    k = r.randint(1, 4)
    X = comb_w(g, [A, B], [4 - k, k], 4)
    t1, t2 = np.array([al(A), al(B)]), np.array([al(C), al(X)])
    if r.random() < 0.5:
        t1, t2 = t2, t1
    if r.random() < 0.5:
        t1 = t1[::-1].copy()
    if r.random() < 0.5:
        t2 = t2[::-1].copy()
    e1, e2 = _f(g, t1), _f(g, t2)
    if np.linalg.norm(np.cross(e1[1] - e1[0], e2[1] - e2[0])) > 0.05:
        expect("segments cross", nc.check_intersection_two_segment_numerical_6d_tau, (t1, t2), True, case="touching")
        p = mon.call(ns.intsct.intersection_two_segment, t1, t2)
        if not isinstance(p, Failure):
            mon.ok(p is not None and g.geo.perp(np.asarray(p).reshape(6, 3)) == g.geo.perp(X),
                   "%s: touching point of two segments missing or not exact" % pkg, s1=t1, s2=t2, got=p)
    # apart: the same lines cut back before the crossing, or moved
    k = r.randint(0, 2)
    if k == 0:
        G_ = comb_w(g, [B, C], [1, 1], 2)
        t1 = np.array([al(A), al(comb_w(g, [A, G_], [9, 1], 10))])
        t2 = np.array([al(B), al(C)])
    elif k == 1:
        # parallel
        t1 = np.array([A, B])
        H = comb_w(g, [A, C], [1, 1], 2)
        t2 = np.array([H, comb_w(g, [B, C], [1, 1], 2)])
    else:
        # lines cross outside segment 2
        t1 = np.array([al(A), al(comb_w(g, [A, B], [1, 1], 2))])
        t2 = np.array([al(B), al(C)])
    if g.dim == 3 and r.random() < 0.4:
        t1, t2 = np.array([c[0], c[1]]), np.array([c[2], c[3]])
    if seg_dist(g, t1, t2) > 0.05:
        expect("segments apart", nc.check_intersection_two_segment_numerical_6d_tau, (t1, t2), False)
        p = mon.call(ns.intsct.intersection_two_segment, t1, t2)
        if not isinstance(p, Failure):
            mon.ok(p is None, "%s: crossing point reported for segments that are apart" % pkg, s1=t1, s2=t2, got=p)
    if g.dim == 2:
        # segment against the three edges of a triangle
        tri = np.array([al(A), al(B), al(C)])
        inner = g.comb([A, B, C], [r.randint(1, 3) for _ in range(3)])
        kind = r.choice(["out", "in", "through"])
        far = comb_w(g, [A, B, C], r.choice([[-3, 3, 1], [3, -3, 1], [1, 3, -3]]), 1)
        if kind == "in":
            seg = np.array([inner, g.comb([A, B, C], [2, 3, 4])])
            if seg_len(g, seg) < 0.05 or min(edge_dist(g, seg, tri)) < 0.01:
                return
            expect("no crossing", nc.check_intersection_segment_surface_numerical_6d_tau, (seg, tri), False)
        elif kind == "out":
            seg = np.array([far, comb_w(g, [far, inner], [9, 1], 10)])
            if min(edge_dist(g, seg, tri)) < 0.05:
                return
            expect("no crossing", nc.check_intersection_segment_surface_numerical_6d_tau, (seg, tri), False)
        else:
            seg = np.array([far, inner])
            es = [np.array([tri[i], tri[j]]) for i, j in ((0, 1), (0, 2), (1, 2))]
            if not any(clear_cross(g, seg, e) for e in es) or not all(clear_cross(g, seg, e) or seg_dist(g, seg, e) > 0.02 for e in es):
                return
            expect("crossing", nc.check_intersection_segment_surface_numerical_6d_tau, (seg, tri), True)
            p = mon.call(ns.intsct.intersection_segment_surface, seg, tri)
            if isinstance(p, Failure):
                return
            if p is None:
                mon.bad("%s: crossing points missing" % pkg, seg=seg, tri=tri)
                return
            want = [e for e in es if clear_cross(g, seg, e)]
            pts = np.asarray(p).reshape(-1, 6, 3)
            for q_ in pts:
                Q = g.geo.perp(q_)
                mon.ok(between(g, Q, seg) and any(between(g, Q, e) for e in es), "%s: crossing point not on segment and edge" % pkg,
                       seg=seg, tri=tri, got=q_)
            mon.ok(len({g.geo.perp(q_)[:2] for q_ in pts}) == len(want), "%s: number of crossing points" % pkg, seg=seg, tri=tri, got=pts)


def seg_surface3(mon, g, ns, c, al, expect):
    r, nc, pkg = g.rnd, ns.numericalc, g.pkg
    f = nc.check_intersection_segment_surface_numerical_6d_tau
    tri = np.array([al(v) for v in c[:3]])
    kind = r.choice(["inner", "inner", "edge", "vertex", "touch", "miss side", "miss short", "parallel"])
    if kind == "vertex":
        i = r.randrange(3)
        X = c[i]
    elif kind == "edge":
        i, j = r.sample(range(3), 2)
        X = g.comb([c[i], c[j]], [r.randint(1, 3), r.randint(1, 3)])
    else:
        X = g.comb(list(c[:3]), [r.randint(1, 4) for _ in range(3)])
    top = g.comb(list(c), [1, 1, 1, 3])
    bot = comb_w(g, [X, top], [3, -1], 2)          # other side of X on the line top-X
    want = True
    if kind == "touch":
        seg = np.array([al(top), al(X)])
    elif kind == "miss short":
        seg = np.array([al(top), al(comb_w(g, [top, X], [1, 19], 20))])
        want = False
    elif kind == "miss side":
        w = r.choice([[-2, 3, 9], [5, 6, -1], [-1, -1, 12]])
        r.shuffle(w)
        Y = comb_w(g, list(c[:3]), w, 10)
        seg = np.array([al(top), al(comb_w(g, [Y, top], [3, -1], 2))])
        want = False
    elif kind == "parallel":
        Y = comb_w(g, [top, c[1], c[0]], [1, 1, -1], 1)
        seg = np.array([top, Y])
        want = False
    else:
        seg = np.array([al(top), al(bot)])
    if r.random() < 0.5:
        seg = seg[::-1].copy()
    p3 = [fp(g, v) for v in tri]
    s3 = [fp(g, v) for v in seg]
    if kind != "parallel" and abs(np.dot(np.cross(p3[1] - p3[0], p3[2] - p3[0]), s3[1] - s3[0])) < 1e-3:
        return
    perm = r.sample(range(3), 3)
    tri = tri[perm]
    expect("crossing" if want else "no crossing", f, (seg, tri), want, case=kind)
    expect("crossing" if want else "no crossing", nc.check_intersection_segment_surface_numerical,
           (np.array(s3), np.array([p3[i] for i in perm])), want, case=kind)
    p = mon.call(ns.intsct.intersection_segment_surface, seg, tri)
    if isinstance(p, Failure):
        return
    if want:
        if p is None:
            mon.bad("%s: crossing point missing (%s)" % (pkg, kind), seg=seg, tri=tri)
            return
        P = g.geo.perp(np.asarray(p).reshape(6, 3))
        mon.ok(P == g.geo.perp(X), "%s: crossing point of segment and triangle is not the exact one (%s)" % (pkg, kind),
               seg=seg, tri=tri, got=p, want=X)
    else:
        mon.ok(p is None, "%s: crossing point reported (%s)" % (pkg, kind), seg=seg, tri=tri, got=p)


def coplanar(mon, g, ns, c, al, expect):
    r, nc, pkg = g.rnd, ns.numericalc, g.pkg
    kind = r.choice(["plane", "plane", "line", "mostly line", "solid", "solid line", "few"])
    A, B, C = c[0], c[1], c[2]
    n = r.randint(4, 9)

    def online():
        d = r.choice([3, 4, 5, 6])
        return comb_w(g, [A, B], (lambda k: [d - k, k])(r.randint(-d, 2 * d)), d)

    def inplane():
        w = [r.randint(-3, 4), r.randint(-3, 4)]
        return comb_w(g, [A, B, C], w + [3 - sum(w)], 3)
    if kind == "plane":
        pts = [inplane() for _ in range(n)]
    elif kind == "line":
        pts = [online() for _ in range(n)]
    elif kind == "mostly line":
        pts = [online() for _ in range(n)] + [C]
    elif kind == "few":
        pts = [g.point(2, 1, 2) for _ in range(r.randint(1, 3))]
    elif g.dim == 2:
        pts = [g.point(3, 2, 2) for _ in range(n)]       # the 2D internal plane: always coplanar
    elif kind == "solid":
        pts = [inplane() for _ in range(n)] + [c[3]]
    else:
        pts = [online() for _ in range(n)] + [C, c[3]]
    want = True
    if g.dim == 3 and kind.startswith("solid"):
        # exact rank
        P = [g.geo.perp(v) for v in pts]
        want = rank(P) <= 2
    r.shuffle(pts)
    pts = np.array([al(v) for v in pts])
    expect("coplanar" if want else "not coplanar", ns.math1.coplanar_check, (pts,), want, case=kind)
    expect("coplanar" if want else "not coplanar", nc.coplanar_check_numeric_tau, (pts,), want, case=kind)
    expect("coplanar" if want else "not coplanar", nc.coplanar_check_numeric, (np.array([fp(g, v) for v in pts]),), want, case=kind)


def rank(P):
    v = [sub(p, P[0]) for p in P[1:]]
    v = [x for x in v if not all(t.is_zero() for t in x)]
    if not v:
        return 0
    ns_ = [cross(v[0], x) for x in v]
    ns_ = [x for x in ns_ if not all(t.is_zero() for t in x)]
    if not ns_:
        return 1
    return 2 if all(dot(ns_[0], x).is_zero() for x in v) else 3


def between(g, P, seg):
    a, b = g.geo.perp(seg[0]), g.geo.perp(seg[1])
    u, w = sub(b, a), sub(P, a)
    if not all(x.is_zero() for x in cross(u, w)):
        return False
    d, L = dot(u, w), dot(u, u)
    return d.sign() >= 0 and (L - d).sign() >= 0


def on_line6(g, p, seg):
    """p = seg0 + s*(seg1-seg0) in 6D"""
    v = g.geo.vec
    p, a, b = v(p), v(seg[0]), v(seg[1])
    u = [x - y for x, y in zip(b, a)]
    w = [x - y for x, y in zip(p, a)]
    return all((u[i] * w[j] - u[j] * w[i]).is_zero() for i in range(6) for j in range(i))


def _f(g, seg):
    return np.array([fp(g, seg[0]), fp(g, seg[1])])


def seg_len(g, s):
    a = _f(g, s)
    return np.linalg.norm(a[1] - a[0])


def _closest(s1, s2):
    best = 1e9
    ts = np.linspace(0, 1, 41)
    P = s1[0][None, :] + ts[:, None] * (s1[1] - s1[0])[None, :]
    d, e = s2[0], s2[1] - s2[0]
    L = np.dot(e, e)
    if L < 1e-12:
        return np.linalg.norm(P - d, axis=1).min()
    t = np.clip((P - d) @ e / L, 0, 1)
    return np.linalg.norm(P - d - t[:, None] * e, axis=1).min()


def seg_dist(g, s1, s2):
    """lower-bound-ish distance (sampled): exact up to a 1/80 of the segment length"""
    a, b = _f(g, s1), _f(g, s2)
    return _closest(a, b) - np.linalg.norm(a[1] - a[0]) / 80


def edge_dist(g, seg, tri):
    return [seg_dist(g, seg, np.array([tri[i], tri[j]])) for i, j in ((0, 1), (0, 2), (1, 2))]


def clear_cross(g, s1, s2):
    """cross well inside both segments, not nearly parallel"""
    a, b = _f(g, s1), _f(g, s2)
    u, v, w = a[1] - a[0], b[1] - b[0], b[0] - a[0]
    n = np.cross(u, v)
    n2 = np.dot(n, n)
    if n2 < 1e-3 or abs(np.dot(n, w)) > 1e-9:
        return False
    s = np.dot(np.cross(w, v), n) / n2
    t = np.dot(np.cross(w, u), n) / n2
    return 0.01 < s < 0.99 and 0.01 < t < 0.99


def jobs(tier, seed):
    n, k = (280, 4) if tier == "quick" else (900, 12)
    return [("run", {"pkg": p, "seed": seed * 1000 + i, "n": n}) for i in range(k) for p in ("ico2", "dode2")]
