"""C14 surface, edges and outline of an occupation domain"""
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen
from vlib import complexes as cx

PROP = "C14"
RULE = ("conforming objects (one cell, conforming refinements, cells glued face to face, sets of symmetry images of the published asymmetric "
        "unit, separate parts), half of them with the shared vertices given by different 6D representatives; the returned sets are compared, "
        "as sets of exact points of internal space with multiplicity, with the facets that belong to exactly one cell, the distinct "
        "facets and edges, and the maximal straight border segments of every plane of the surface. Non-trivial: all; distinct by object.")
ASSUMPTIONS = ["objects are conforming: two cells share a whole face, edge, vertex or nothing"]
MIN = {"ico2.surface": 60, "dode2.outline": 60, "ico2.outline": 40, "ico2.edges": 60, "dode2.edges": 60, "ico2.planes": 30, "dode2.planes": 60, "ico2.with interior facets": 30, "chain of three or more": 10, "ico2.many planes": 1, "ico2.symmetric domain": 1, "dode2.symmetric domain": 1}


def bag(g, arr):
    d = {}
    for c in arr:
        k = frozenset(cx.pkey(g, v) for v in c)
        d[k] = d.get(k, 0) + 1
    return d


def compare(mon, g, what, got, want, obj):
    """got: array of simplices; want: {frozenset: multiplicity}"""
    if isinstance(got, Failure):
        return
    b = bag(g, got)
    if b != want:
        miss = sum(max(0, n - b.get(k, 0)) for k, n in want.items())
        extra = sum(max(0, n - want.get(k, 0)) for k, n in b.items())
        mon.bad("%s %s: %d missing, %d superfluous or repeated (of %d)" % (g.pkg, what, miss, extra, sum(want.values())), obj=obj)


def run(mon, pkg, seed, n):
    drive(mon, pkg, seed, n, lambda g: cx.make(g))


def large(mon, pkg, seed, kind):
    """domains of the size met in practice: the whole symmetric domain, and many cells with as many planes"""
    def mk(g):
        if kind == "symmetric domain":
            A = cx.symmetric_star(g)
        elif kind == "four domains":
            A = cx.symmetric_star(g)
            A = np.concatenate([g.shift(A, np.array([[25 * j, 0, 1]] + [[0, 0, 1]] * 5)) for j in range(4 if pkg == "ico2" else 18)])
        else:
            A = np.array([g.simplex(2, 1, 1, 0.2)])
            for _ in range(400):
                A = cx.grow(g, A, minq=0.05)
                if len(A) >= (27 if pkg == "ico2" else 40):
                    break
            A = cx.refine(g, A, 2 if pkg == "ico2" else 4)        # coplanar pieces far apart in the list
            if pkg == "ico2" and len({cx.plane_of(tuple(f)) for f in cx.surface(g, A)}) > 42:
                mon.hit("ico2.many planes")
        if g.rnd.random() < 0.5:
            A = cx.alias_some(g, A)
        mon.hit("%s.%s" % (pkg, kind))
        return kind, g.shuffle_vertices(A)
    drive(mon, pkg, (seed, kind), 1, mk, 1000 if kind != "four domains" else 1)


def drive(mon, pkg, seed, n, make, most=None):
    ns = load(pkg)
    u, od = ns.utils, ns.od
    g = Gen(pkg, seed_of(PROP, pkg, seed))
    r = g.rnd
    one = lambda it: {k: 1 for k in it}
    for it in range(n):
        kind, A = make(g)
        cells = cx.cells_p(g, A)
        fc = cx.faces(cells, g.dim)
        ed = cx.faces(cells, 2)
        mon.hit("kind " + kind)
        if kind.startswith("sliced"):
            mon.hit("chain of three or more")
        if any(v > 1 for v in fc.values()):
            mon.hit(pkg + ".with interior facets")
        rng = r.randrange(1 << 30)
        if pkg == "ico2":
            S = mon.call(u.generator_surface_1, A, rng=rng)
            mon.case("ico2.surface", A, sample={"kind": kind, "cells": len(A), "surface triangles": sum(v == 1 for v in fc.values())}
                     if it % 17 == 2 else None)
            compare(mon, g, "surface triangles", S, {f: 1 for f, v in fc.items() if v == 1}, A)
            U = mon.call(u.generator_unique_triangles, A, rng=rng)
            mon.case("ico2.triangles", A)
            compare(mon, g, "distinct triangles", U, one(fc), A)
            for c in A[:2]:
                compare(mon, g, "faces of a cell", mon.call(u.get_tetrahedron_surface, c), one(cx.faces(cx.cells_p(g, [c]), 3)), c)
                compare(mon, g, "edges of a cell", mon.call(u.get_tetrahedron_edge, c), one(cx.faces(cx.cells_p(g, [c]), 2)), c)
            # edges of the surface, as the outline and the convex intersection use them
            if not isinstance(S, Failure):
                compare(mon, g, "edges of the surface", mon.call(u.generator_unique_edges, S), one(cx.faces([tuple(f) for f in fc if fc[f] == 1], 2)), A)
            tri = A[:, :3]
            surf = np.array([[v for v in t] for t in S]) if not isinstance(S, Failure) and len(S) else None
        else:
            tri = surf = A
        for c in tri[:2]:
            compare(mon, g, "edges of a triangle", mon.call(u.get_triangle_edge, c), one(cx.faces(cx.cells_p(g, [c]), 2)), c)
        mon.case(pkg + ".edges", A)
        E_ = mon.call(u.generator_all_edges, A)
        compare(mon, g, "all edges", E_, ed, A)
        compare(mon, g, "distinct edges", mon.call(u.generator_unique_edges, A, rng=rng), one(ed), A)
        if not isinstance(E_, Failure):
            compare(mon, g, "distinct edges of a list of edges", mon.call(u.generator_unique_edges, E_, rng=rng), one(ed), A)
        if len(A) <= (most or (9 if pkg == "ico2" else 14)):
            f = od.generate_border_edges if pkg == "ico2" else od.outline
            B = mon.call(f, A, rng=rng)
            want = one(cx.outline(g, A))
            mon.case(pkg + ".outline", A, sample={"kind": kind, "cells": len(A), "border edges": len(want)} if it % 17 == 5 else None)
            compare(mon, g, "outline", B, want, A)
            if pkg == "dode2":
                compare(mon, g, "border edges", mon.call(od.generate_border_edges, A, rng=rng), want, A)
            if surf is not None:
                planes(mon, g, u, surf, want, rng)


def planes(mon, g, u, surf, want, rng):
    """grouping of the surface by planes, the border of every group, and the merged border"""
    ex = cx.cells_p(g, surf)
    key = (lambda t: cx.plane_of(t)) if g.dim == 3 else (lambda t: 0)
    groups = {}
    for i, t in enumerate(ex):
        groups.setdefault(key(t), []).append(i)
    mon.case(g.pkg + ".planes", surf)
    compare(mon, g, "border edges of a surface", mon.call(u.surface_cleaner, surf, rng=rng), want, surf)
    sets = mon.call(u.get_sets_of_coplanar_triangles, surf, rng=rng)
    if isinstance(sets, Failure):
        return
    got = sorted(sorted(sorted(map(hash, bag(g, [t]))) for t in s) for s in sets)
    exp = sorted(sorted(sorted(map(hash, [frozenset(ex[i])])) for i in ix) for ix in groups.values())
    mon.ok(got == exp, "%s sets of coplanar triangles: %d groups reported, %d planes" % (g.pkg, len(sets), len(groups)), surface=surf)
    # the same surface in another order: one triangle of every plane first, the others after them
    big = sorted(groups.values(), key=len, reverse=True)
    order = [ix[0] for ix in big] + [i for ix in big for i in ix[1:]]
    sets = mon.call(u.get_sets_of_coplanar_triangles, surf[order], rng=rng)
    if not isinstance(sets, Failure):
        got = sorted(sorted(sorted(map(hash, bag(g, [t]))) for t in s) for s in sets)
        mon.ok(got == exp, "%s sets of coplanar triangles (other order): %d groups reported, %d planes" % (g.pkg, len(sets), len(groups)), surface=surf[order])
    for ix in list(groups.values())[:4]:
        part = surf[ix]
        e = {f: 1 for f, k in cx.faces([ex[i] for i in ix], 2).items() if k == 1}
        compare(mon, g, "border edges of coplanar triangles", mon.call(u.gen_border_edges_of_coplanar_triangles, part, rng=rng), e, part)
    r = g.rnd
    for _ in range(6):
        i, j = r.randrange(len(surf)), r.randrange(len(surf))
        if i == j:
            continue
        x = mon.call(u.coplanar_check_two_triangles, surf[i], surf[j], rng=rng)
        same = key(ex[i]) == key(ex[j])
        mon.ok(isinstance(x, Failure) or bool(x) == same, "%s coplanar_check_two_triangles says %s" % (g.pkg, x), a=surf[i], b=surf[j])


def jobs(tier, seed):
    n, m, k = (14, 30, 8) if tier == "quick" else (60, 150, 16)
    return [("run", {"pkg": "ico2", "seed": seed * 1000 + i, "n": n}) for i in range(k)] + \
           [("run", {"pkg": "dode2", "seed": seed * 1000 + i, "n": m}) for i in range(k)] + \
           [("large", {"pkg": p, "seed": seed * 1000 + i, "kind": q}) for i in range(1 if tier == "quick" else 8)
            for p in ("ico2", "dode2") for q in ("symmetric domain", "grown far", "four domains")]
