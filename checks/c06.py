"""C06 dodecagonal site symmetry groups and coset representatives"""
from itertools import product
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen
from checks.c04 import mats, matmul

PROP = "C06"
RULE = ("sites of the unit cell: all special positions with coordinates in {0,1/2}, {0,1/3,2/3}, {0,1/4,..}, random "
        "rational sites (denominators to 12), sites on mirrors, sites next to special positions (down to 1e-9), irrational sites, 4D and 5D mode. The "
        "returned operator set must equal the exact stabiliser modulo lattice translations, be a subgroup, and the "
        "coset list must contain one operator per coset (checked by multiplying the operators exactly). Non-trivial: "
        "stabiliser larger than the identity; distinct by site.")
MIN = {"site": 200, "nontrivial stabiliser": 40, "next to a special position": 8}


def stabiliser(g, ops, site):
    K, st = g.geo.K, g.style
    s = [st.frm(t) for t in site]
    out = []
    for i, o in enumerate(ops):
        ok = True
        for r in range(6):
            d = -s[r]
            for c in range(6):
                if o[r][c]:
                    d = d + K(o[r][c]) * s[c]
            if d.q != 0 or d.r != 1:
                ok = False
                break
        if ok:
            out.append(i)
    return out


def sites(g, n, fine=(100, 10 ** 3, 10 ** 4, 10 ** 7, 10 ** 9)):
    r = g.rnd
    base = []
    for den in (2, 3, 4):
        for t in product(range(den), repeat=4):
            base.append([[x, 0, den] for x in t] + [[0, 0, 1], [0, 0, 1]])
    r.shuffle(base)
    base = base[:n // 2]
    while len(base) < n:
        k = r.random()
        den = r.choice([1, 2, 3, 4, 5, 6, 8, 12])
        f = lambda: [r.randrange(den), 0, den]
        if k < 0.4:
            v = [f() for _ in range(4)]
        elif k < 0.7:                          # on a mirror
            a, b = f(), f()
            v = [a, b, b, a]
        elif k < 0.85:
            a = f()
            v = [a, a, a, a]
        else:                                  # irrational, inside the cell
            v = [[r.randint(0, 2), 0, 3], [0, 1, 2], f(), [0, 1, r.choice([1, 2, 4])]]
        v += [[r.choice([0, 1]), 0, r.choice([1, 2, 3])] if r.random() < 0.4 else [0, 0, 1], [0, 0, 1]]
        if v[4][0] >= v[4][2]:
            v[4] = [0, 0, 1]
        if r.random() < 0.2 and not any(t[1] for t in v):
            # next to a special position
            i, f = r.randrange(4), r.choice(fine)
            v[i] = [v[i][0] * f + v[i][2], 0, v[i][2] * f]
        base.append(v)
    return [np.array([red(x) for x in b]) for b in base]


def red(t):
    from math import gcd
    k = gcd(gcd(t[0], t[1]), t[2])
    return [t[0] // k, t[1] // k, t[2] // k]


def run(mon, seed, part, parts, n):
    ns = load("dode2")
    S = ns.symmetry
    g = Gen("dode2", seed_of(PROP, seed))
    ops = mats(mon.call(S.dodesymop))
    idx = {o: i for i, o in enumerate(ops)}
    mul = [[idx.get(matmul(a, b), -1) for b in ops] for a in ops]
    for k, site in enumerate(sites(g, n)):
        if k % parts != part:
            continue
        for ndim in ((5,) if k % 3 == 0 else (4,)):
            want = stabiliser(g, ops, site)
            got = mon.call(S.site_symmetry, site, ndim)
            cos = mon.call(S.coset, site, ndim)
            both = mon.call(S.site_symmetry_and_coset, site, ndim, 0)
            mon.case("site", (site, ndim), len(want) > 1,
                     sample={"site": site, "stabiliser": want} if len(want) in (2, 4, 6) and k % 17 == part else None)
            if len(want) > 1:
                mon.hit("nontrivial stabiliser")
            mon.hit("stabiliser order %d" % len(want))
            if max(int(t[2]) for t in site) > 90:
                mon.hit("next to a special position")
            if isinstance(got, Failure) or isinstance(cos, Failure) or isinstance(both, Failure):
                continue
            for h, name in ((list(map(int, got)), "site symmetry"), (list(map(int, both[0])), "combined site symmetry")):
                mon.ok(sorted(h) == want, "%s is not the stabiliser of the site" % name, site=site, ndim=ndim, got=h, want=want)
                mon.ok(all(mul[a][b] in set(h) for a in h for b in h), "%s is not a group" % name, site=site, got=h)
            for c, name in ((list(map(int, cos)), "coset list"), (list(map(int, both[1])), "combined coset list")):
                mon.ok(len(c) * len(want) == len(ops), "%s has %d members for a stabiliser of order %d" % (name, len(c), len(want)),
                       site=site, ndim=ndim, got=c)
                seen = [frozenset(mul[a][h] for h in want) for a in c]
                mon.ok(len(set(seen)) == len(seen), "%s names the same coset twice" % name, site=site, got=c)
                mon.ok(set().union(*seen) == set(range(len(ops))) if seen else False, "%s does not cover the group" % name,
                       site=site, got=c)


def jobs(tier, seed):
    parts = 8
    n = 260 if tier == "quick" else 1500
    return [("run", {"seed": seed, "part": i, "parts": parts, "n": n}) for i in range(parts)]
