"""C16 asymmetric part of an icosahedral occupation domain"""
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen, group
from vlib import complexes as cx, isect
from vlib.region import intersection_problems, same_region_problems, as_obj
from vlib.geom import Solid

PROP = "C16"
RULE = ("objects about a centre (sets of symmetry images of the published asymmetric unit, the whole star of 120, refined cells) and cones given by three vectors (the "
        "published asymmetric units, their symmetry images, random cones), centre at the origin or elsewhere. The result must be exactly "
        "the part of the object in the cone at the centre (exact measure, every piece inside both); for the whole star and a fundamental cone "
        "120 times its volume is the volume of the star and its symmetric images reproduce it. Non-trivial: non-empty part; distinct by arguments.")
ASSUMPTIONS = ["the object lies within five times the three vectors (documented in the code)"]
MIN = {"non-empty": 40, "empty": 5, "kind whole star": 3}
W5 = [[[1, 0, 2], [-1, 0, 2], [-1, 0, 2], [-1, 0, 2], [-1, 0, 2], [-1, 0, 2]],
      [[0, 0, 1], [-1, 0, 4], [-1, 0, 4], [1, 0, 2], [-1, 0, 2], [1, 0, 2]],
      [[0, 0, 1], [1, 0, 4], [-1, 0, 2], [1, 0, 2], [-1, 0, 2], [1, 0, 4]]]


def tet(g, pos, vecs, k):
    return np.array([[pos] + [g.comb2(pos, v, 1, k) for v in vecs]], dtype=np.int64)


def run(mon, seed, n, star=False):
    ns = load("ico2")
    g = Gen("ico2", seed_of(PROP, seed))
    r = g.rnd
    G_ = sorted(group("ico2"))
    u = isect.unit(g)
    zero = np.array([[0, 0, 1]] * 6, dtype=np.int64)
    it = 0
    while it < n:
        vecs = r.choice([u[0][1:], np.array(W5), None])
        if vecs is None:
            vecs = g.simplex(1, 0, 1, 0.1)
            vecs = np.array([g.comb2(v, vecs[0], 1, -1) for v in vecs[1:]])
        else:
            vecs = isect.apply(g, r.choice(G_), [vecs])[0]
        vecs = np.array(vecs)[r.sample(range(3), 3)]
        pos = r.choice([zero, g.lattice(), np.array([[1, 0, 2]] + [[0, 0, 1]] * 5)])
        if star:
            vecs = isect.apply(g, r.choice(G_), [u[0][1:]])[0]
            A = np.concatenate([isect.apply(g, M, u) for M in G_])
            kind = "whole star"
        else:
            kind = r.choice(["images", "images", "refined cell", "grown"])
            if kind == "images":
                A = isect.dedupe_cells(g, np.concatenate([isect.apply(g, M, u) for M in r.sample(G_, r.randint(2, 10))]))
                if r.random() < 0.3:
                    A = g.shift(A, g.lattice())
            elif kind == "refined cell":
                A = cx.refine(g, np.array([g.simplex(1, 0, 1, 0.1)]), r.randint(0, 2))
            else:
                A = np.array([g.simplex(1, 0, 1, 0.1)])
                A = cx.grow(g, A)
        A = g.shift(A, pos)
        C5, C40 = tet(g, pos, vecs, 5), tet(g, pos, vecs, 40)
        if g.quality(C5[0]) < 0.01:
            continue
        it += 1
        A = g.shuffle_vertices(A)
        R = mon.call(ns.od.asymmetric, A, pos, vecs, rng=r.randrange(1 << 30))
        if isinstance(R, Failure):
            mon.case("failed", (A, pos, vecs))
            continue
        pr, exp = intersection_problems(g, A, C40, R)
        if not star:
            if intersection_problems(g, A, C5, None)[1] != exp:
                mon.hit("object reaches beyond the cone (not judged)")
                it -= 1
                continue
        ne = not exp.is_zero()
        mon.case("non-empty" if ne else "empty", (A, pos, vecs), ne,
                 sample={"kind": kind, "cells": len(A), "volume of the part": float(exp) / 6} if it % 5 == 2 else None)
        mon.hit("kind " + kind)
        for p in pr:
            mon.bad("asymmetric part (%s): %s" % (kind, p), A=A if len(A) < 12 else "whole star", pos=pos, vecs=vecs)
        if star and not pr:
            K = g.geo.K
            tot = Solid(g.geo, A, 3).measure()
            s = Solid(g.geo, as_obj(g, R), 3).measure()
            mon.ok(s * K(120) == tot, "120 times the volume of the asymmetric part is not the volume of the star", vecs=vecs)
            S = mon.call(ns.od.symmetric, R, pos)
            if not isinstance(S, Failure):
                # R lies in the star (above), which is invariant: equal volume is equality up to overlaps
                S = np.asarray(S).reshape(-1, 4, 6, 3)
                mon.ok(Solid(g.geo, S, 3).measure() == tot, "the symmetric images of the asymmetric part do not have the volume of the star", vecs=vecs)


def jobs(tier, seed):
    n, k = (40, 16) if tier == "quick" else (60, 24)
    return [("run", {"seed": seed * 1000 + 500 + i, "n": 1, "star": True}) for i in range(4 if tier == "quick" else 16)] + \
           [("run", {"seed": seed * 1000 + i, "n": n}) for i in range(k)]
