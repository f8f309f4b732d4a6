"""C20 pod/atm files describe exactly the given domain"""
import os
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen
from vlib import complexes as cx

PROP = "C20"
RULE = ("fans of cells about a common vertex (at the origin or elsewhere, the common vertex and shared vertices partly given by different 6D representatives), "
        "single cells, complexes without a common vertex; both output routines, the second driven by the documented chain (vertices from the "
        "VESTA output, through an XYZ file) and by hand-made vertex lists. The files are parsed: distinct vertices listed once, number of "
        "cells, and index lists that reproduce exactly the cells; without a common vertex failure is reported and no file is made. "
        "Non-trivial: all; distinct by object.")
MIN = {"ico2.fan": 40, "dode2.fan": 40, "ico2.no common vertex": 6, "dode2.no common vertex": 6, "ico2.write_podatm": 40, "ico2.chain": 20,
       "ico2.fan with aliases": 10, "dode2.fan with aliases": 10}


def num6(g, v):
    return [float(g.style.frm(t)) for t in v]


def close(a, b, tol):
    return len(a) == len(b) and all(abs(x - y) <= tol * max(1, abs(y)) for x, y in zip(a, b))


def fan(g):
    """conforming cells about one vertex: the cells of a refined cell or complex that contain a chosen vertex"""
    r = g.rnd
    for _ in range(50):
        _, A = cx.make(g, 10)
        cells = cx.cells_p(g, A)
        cnt = {}
        for c in cells:
            for p in c:
                cnt[p] = cnt.get(p, 0) + 1
        p = r.choice(sorted(cnt, key=lambda p: (-cnt[p], [float(x) for x in p]))[:3])
        B = np.array([A[i] for i, c in enumerate(cells) if p in c])
        if len(B) > 1 or r.random() < 0.2:
            return B
    return B


def floats(s, n):
    return [float(x) for x in s.split()[1:1 + n]]


def run(mon, pkg, seed, n, big=0):
    ns = load(pkg)
    g = Gen(pkg, seed_of(PROP, pkg, seed))
    r = g.rnd
    d = mon.scratch
    for it in range(n):
        if big:
            A = cx.slices(g, big)
        elif r.random() < 0.6:
            A = fan(g)
        else:
            _, A = cx.make(g, 8)
        if r.random() < 0.5:
            A = cx.alias_some(g, A, 0.5)
        if pkg == "dode2" and r.random() < 0.5:      # the position along the periodic axis
            A = A.copy()
            A[:, :, 4:] = g.vec(2, 3, 2)
        cells = cx.cells_p(g, A)
        common = set(cells[0])
        for c in cells[1:]:
            common &= set(c)
        b = "p%d_%d" % (it, seed)
        sn = r.randint(1, 40)
        sub = d if r.random() < 0.6 else os.path.join(d, "n%d" % it)
        R = mon.call(ns.od.obj2podatm, A, sn, sub, b)
        kind = "fan" if common else "no common vertex"
        mon.case("%s.%s" % (pkg, kind), A, sample={"pkg": pkg, "cells": len(A), "kind": kind} if it % 17 == 3 else None)
        if isinstance(R, Failure):
            continue
        fa, fp = os.path.join(sub, b + ".atm"), os.path.join(sub, b + ".pod")
        if not common:
            mon.ok(R == 1, "%s obj2podatm: no failure reported for an object without a common vertex" % pkg, obj=A, got=R)
            mon.ok(not os.path.exists(fa) and not os.path.exists(fp), "%s obj2podatm: files made for an object without a common vertex" % pkg, obj=A)
            continue
        reps = {}
        for c, k in zip(A, cells):
            for v, p in zip(c, k):
                reps.setdefault(p, []).append(num6(g, v))
        if any(len({tuple(x) for x in v}) > 1 for v in reps.values()):
            mon.hit(pkg + ".fan with aliases")
        mon.ok(R == 0, "%s obj2podatm: reports failure" % pkg, obj=A, got=R)
        try:
            at = open(fa).read().split("\n")
            pd = open(fp).read().split("\n")
            mon.ok(at[0].split()[0] == str(sn) and pd[0].split()[0] == str(sn), "%s obj2podatm: serial number" % pkg, obj=A)
            x = floats(at[1], 6)
            org = [p for p in common if any(close(x, w, 6e-4) for w in reps[p])]
            if not mon.ok(len(org) >= 1, "%s obj2podatm: the position in the atm file is not the common vertex" % pkg, obj=A, got=x):
                continue
            m = int(pd[0].split()[1])
            ej = [floats(s, 6) for s in pd[1:1 + m]]
            nth = pd[1 + m].split()
            assert nth[0] == "nth=" and all(s.startswith("ej=") for s in pd[1:1 + m])
            ncell, idx = int(nth[1]), [int(s) for s in nth[2:]]
        except (OSError, ValueError, IndexError, AssertionError) as e:
            mon.bad("%s obj2podatm: the files cannot be read: %r" % (pkg, e), obj=A)
            continue
        best = None
        for o in org:                        # with one cell every vertex is common and may be the origin
            others = [p for p in reps if p != o]
            name = [[p for p in others if any(close(e, w, 1.1e-6) for w in reps[p])] for e in ej]
            if len(ej) != len(others):
                best = best or "%d vertices listed, %d expected" % (len(ej), len(others))
                continue
            if any(len(q) != 1 for q in name) or len({q[0] for q in name}) != len(others):
                best = best or "the vertices listed are not the other vertices, each once"
                continue
            k = g.nv - 1
            if ncell != len(A) or len(idx) != k * len(A) or any(not 1 <= i <= len(ej) for i in idx):
                best = best or "number of cells or of indices"
                continue
            got = [frozenset(name[i - 1][0] for i in idx[k * j:k * j + k]) for j in range(len(A))]
            if sorted(map(sorted_key, got)) != sorted(sorted_key(set(c) - {o}) for c in cells):
                best = best or "the indices do not describe the cells"
                continue
            best = True
            break
        mon.ok(best is True, "%s obj2podatm: %s" % (pkg, best), obj=A)


def sorted_key(s):
    return sorted(tuple(float(x) for x in p) for p in s)


def podatm(mon, seed, n):
    podatm_with(mon, load("ico2"), Gen("ico2", seed_of(PROP, "podatm", seed)), seed, n, "ico2", lambda a: a)


def podatm_with(mon, ns, g, seed, n, name, conv):
    r = g.rnd
    d = mon.scratch
    for it in range(n):
        A = conv(fan(g))
        b = "w%d_%d" % (it, seed)
        V = None
        if r.random() < 0.6:
            V = mon.call(ns.od.write_vesta, A, path=d, basename=b, select="podatm")
            if isinstance(V, Failure):
                continue
            X = mon.call(ns.od.write_xyz, V, path=d, basename=b, select="vertex")
            V = mon.call(ns.od.read_xyz, d, b, "vertex")
            if isinstance(X, Failure) or isinstance(V, Failure):
                continue
            mon.hit(name + ".chain")
        else:
            V = conv(np.array([v for c in A for v in c]))
        key = [cx.pkey(g, v) for v in V]
        cells = cx.cells_p(g, A)
        common = set(cells[0])
        for c in cells[1:]:
            common &= set(c)
        o = sorted(common, key=lambda p: [float(x) for x in p])[0]
        if any(p not in key for c in cells for p in c):
            mon.bad(name + ": a vertex of the object is lost between VESTA output and the vertex list", obj=A)
            continue
        # one or two domains (the fan, split)
        parts = [list(range(len(A)))]
        if len(A) > 1 and r.random() < 0.5:
            q = r.randint(1, len(A) - 1)
            parts = [parts[0][:q], parts[0][q:]]
        vl = []
        for q in parts:
            lst = [key.index(o) + 1]
            for i in q:
                oth = [p for p in cells[i] if p != o]
                r.shuffle(oth)
                lst += [key.index(p) + 1 for p in oth]
            vl.append(lst)
        pos = conv(g.point(2, 1, 2))
        shift = [0.0] * 6 if r.random() < 0.5 else [r.randint(-4, 4) / 4 for _ in range(6)]
        if any(shift):
            R = mon.call(ns.od.write_podatm, V, pos, vl, d, b, shift)
        else:
            R = mon.call(ns.od.write_podatm, V, pos, vl, path=d, basename=b)
        mon.case(name + ".write_podatm", (V, vl), sample={"vlist": vl, "vertices": len(V)} if it % 17 == 5 else None)
        if isinstance(R, Failure):
            continue
        mon.ok(R == 0, name + " write_podatm: reports failure", obj=V)
        try:
            at = open(os.path.join(d, b + ".atm")).read().split("\n")
            pd = open(os.path.join(d, b + ".pod")).read().split("\n")
            X = [floats(s, 6) for s in at if s.startswith("x=")]
            XI = [floats(s, 6) for s in at if s.startswith("xi=")]
            if not mon.ok(len(X) == len(XI) == len(vl), name + " write_podatm: number of domains in the atm file", vlist=vl):
                continue
            keys = [s.split("=")[0] for s in at if s.strip() and "'" not in s]
            heads = [s.split() for s in at if "'" in s]
            mon.ok(keys == ["x", "xe1", "xe2", "xe3", "xi", "isyd"] * len(vl) and [(h[0], h[3]) for h in heads] == [(str(j + 1),) * 2 for j in range(len(vl))],
                   name + " write_podatm: records of the atm file", vlist=vl, got=at)
            mon.ok(pd[0].startswith("nsymo=4 ") and pd[1].startswith("symmetry") and [s.split()[-1] for s in pd[2:6]] == ["5f", "2f", "2f", "3f"],
                   name + " write_podatm: symmetry operators of the pod file", got=pd[:6])
            mon.ok("io=%d" % len(vl) in pd[0], name + " write_podatm: number of domains in the pod file", vlist=vl, got=pd[0])
            blocks, cur = [], None
            for s in pd:
                if s.endswith("'comment'"):
                    cur = {"head": s.split(), "ej": [], "nth": None}
                    blocks.append(cur)
                elif s.startswith("ej="):
                    cur["ej"].append(floats(s, 6))
                elif s.startswith("nth="):
                    cur["nth"] = [int(x) for x in s.split()[1:]]
            if not mon.ok(len(blocks) == len(vl), name + " write_podatm: number of domains in the pod file", vlist=vl):
                continue
            for j, (l, B) in enumerate(zip(vl, blocks)):
                a = num6(g, V[l[0] - 1])
                ok = close(X[j], num6(g, pos), 6e-4)
                mon.ok(ok, name + " write_podatm: position in the atm file", vlist=vl, got=X[j])
                mon.ok(close(XI[j], [p + q for p, q in zip(a, shift)], 1.1e-6), name + " write_podatm: origin of the domain in the atm file", vlist=vl, got=XI[j])
                mon.ok(int(B["head"][0]) == j + 1 and int(B["head"][1]) == len(B["ej"]) == len(set(l[1:])), name + " write_podatm: number of vertices", vlist=vl, head=B["head"])
                idx = B["nth"][1:]
                ok = B["nth"][0] == (len(l) - 1) // 3 and len(idx) == len(l) - 1 and all(1 <= i <= len(B["ej"]) for i in idx)
                ok = ok and all(close([x + y for x, y in zip(B["ej"][i - 1], a)], num6(g, V[k - 1]), 3e-6) for i, k in zip(idx, l[1:]))
                mon.ok(ok, name + " write_podatm: the indices and vertices do not describe the cells given", vlist=vl, block=B)
        except (OSError, ValueError, IndexError, TypeError) as e:
            mon.bad(name + " write_podatm: the files cannot be read: %r" % e, vlist=vl)


def jobs(tier, seed):
    n, k = (28, 8) if tier == "quick" else (120, 16)
    return [("run", {"pkg": p, "seed": seed * 1000 + i, "n": n}) for i in range(k) for p in ("ico2", "dode2")] + \
           [("run", {"pkg": p, "seed": seed * 1000 + 500 + i, "n": 1, "big": 101 + 23 * i}) for i in range(2) for p in ("ico2", "dode2")] + \
           [("podatm", {"seed": seed * 1000 + i, "n": n}) for i in range(k)]
