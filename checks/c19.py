"""C19 VESTA files show exactly the given domain"""
import os
import re
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.gen import Gen
from vlib import complexes as cx

PROP = "C19"
RULE = ("conforming complexes (shared vertices partly given by different 6D representatives), lists of edges, single cells; every selection, every "
        "colour code (short, long, triple of numbers), written fresh and over older files. The file is parsed: one molecule per cell "
        "with exactly its vertices ('normal'); otherwise every distinct vertex once and every distinct edge as exactly one bond between "
        "the right atoms whose length range contains the exact length; colours as requested; 'podatm' returns the vertices in file order. "
        "Non-trivial: all; distinct by (selection, colour, object).")
ASSUMPTIONS = ["cells meet face to face"]
MIN = {}
for _p in ("ico2", "dode2"):
    for _s in ("normal", "simple", "egdes", "podatm", "via write"):
        MIN["%s.%s" % (_p, _s)] = 25
COL = {"k": (127, 127, 127), "black": (127, 127, 127), "r": (255, 0, 0), "red": (255, 0, 0), "b": (0, 0, 255), "blue": (0, 0, 255),
       "p": (255, 0, 255), "pink": (255, 0, 255), "l": (0, 255, 0), "lime": (0, 255, 0), "y": (255, 255, 0), "yellow": (255, 255, 0),
       "c": (0, 255, 255), "cyan": (0, 255, 255), "s": (192, 192, 192), "silver": (192, 192, 192)}
ATOM = re.compile(r"^\s*(\d+)\s+(\S+)\s+(\S+)\s+1\.0000\s+(-?[\d.]+)\s+(-?[\d.]+)\s+(-?[\d.]+)\s+1\s*$")


def section(text, name):
    """lines of a section up to its terminating line of zeros"""
    L = text.split("\n")
    i = [k for k, s in enumerate(L) if s.strip() == name or s.strip().startswith(name + " ")]
    if len(i) != 1:
        raise ValueError("section %s occurs %d times" % (name, len(i)))
    out = []
    for s in L[i[0] + 1:]:
        if re.match(r"^\s*0( +0)+\s*$", s):
            return out
        out.append(s)
    raise ValueError("section %s does not end" % name)


def parse(path):
    t = open(path, encoding="utf-8").read()
    if not t.startswith("#VESTA_FORMAT_VERSION"):
        raise ValueError("no header")
    mols = []
    for m in t.split("MOLECULE")[1:]:
        atoms = []
        for s in section(m, "STRUC"):
            a = ATOM.match(s)
            if a:
                atoms.append((int(a.group(1)), a.group(3), tuple(float(a.group(i)) for i in (4, 5, 6))))
        bonds = [s.split() for s in section(m, "SBOND")]
        sitet = [s.split()[:2] for s in section(m, "SITET")]
        theri = [s.split()[:2] for s in section(m, "THERI")]
        mols.append((atoms, bonds, sitet, theri))
    return mols


def numbered(lab, atoms, sitet, theri):
    """the atoms are numbered consecutively and every table names them in that order"""
    num = [str(i + 1) for i in range(len(lab))]
    return ([str(a[0]) for a in atoms] == num and [s[1] for s in sitet] == lab and [s[1] for s in theri] == lab and
            [s[0] for s in sitet] == num and [s[0] for s in theri] == num)


def near(x, p, tol=1.1e-6):
    p = list(p) + [0.0] * (3 - len(p))
    return all(abs(a - float(b)) < tol * max(1, abs(a)) for a, b in zip(x, p))


def run(mon, pkg, seed, n, big=0):
    ns = load(pkg)
    g = Gen(pkg, seed_of(PROP, pkg, seed))
    r = g.rnd
    for sel in ("normal", "simple", "egdes", "podatm"):
        mon.case(pkg + ".empty", sel)
        mon.call(ns.od.write_vesta, None, path=mon.scratch, basename="none", select=sel)
    mon.call(ns.od.write, None, path=mon.scratch, basename="none", format="vesta")
    for it in range(n):
        kind, A = cx.make(g, 7)
        sel = r.choice(["normal", "simple", "egdes", "podatm"])
        if big:
            A, sel = (cx.symmetric_star(g) if big == "star" else cx.slices(g, big)), ("simple" if big == "star" else "normal")
            mon.hit("%s.large %s" % (pkg, sel))
        arg = A
        cells = cx.cells_p(g, A)
        if sel == "egdes":
            # a list of edges: the distinct ones, in any direction
            seen, E = set(), []
            for c in A:
                for i in range(len(c)):
                    for j in range(i):
                        k = frozenset((cx.pkey(g, c[i]), cx.pkey(g, c[j])))
                        if k not in seen:
                            seen.add(k)
                            E.append(np.array([c[i], c[j]] if r.random() < 0.5 else [c[j], c[i]]))
            r.shuffle(E)
            arg = np.array(E[:r.randint(1, len(E))])
            cells = cx.cells_p(g, arg)
        col = r.choice(list(COL) + [[r.randrange(256) for _ in range(3)]])
        rgb = tuple(col) if isinstance(col, list) else COL[col]
        b = "v%d" % r.randrange(4)
        fn = os.path.join(mon.scratch, b + ".vesta")
        mon.case("%s.%s" % (pkg, sel), (arg, str(col)), sample={"pkg": pkg, "kind": kind, "select": sel, "color": str(col), "cells": len(arg)} if it % 13 == 3 else None)
        what = "%s write_vesta(%s)" % (pkg, sel)
        if (sel == "normal" or (pkg == "dode2" and sel != "podatm")) and r.random() < 0.5:
            mon.case(pkg + ".via write", (arg, str(col)))
            what = "%s write(vesta, %s)" % (pkg, sel)
            kw = {} if sel == "normal" and (pkg == "ico2" or r.random() < 0.5) else {"select": sel}
            R = mon.call(ns.od.write, arg, path=mon.scratch, basename=b, format="vesta", color=col, **kw)
        elif sel == "normal" and r.random() < 0.5:
            R = mon.call(ns.od.write_vesta, arg, path=mon.scratch, basename=b, color=col)
        else:
            R = mon.call(ns.od.write_vesta, arg, path=mon.scratch, basename=b, color=col, select=sel)
        if isinstance(R, Failure):
            continue
        judge(mon, g, what, sel, A, arg, cells, col, rgb, R, fn)


def judge(mon, g, what, sel, A, arg, cells, col, rgb, R, fn):
    try:
        mols = parse(fn)
    except (OSError, ValueError, IndexError) as e:
        mon.bad("%s: the file cannot be read: %s" % (what, e), obj=arg)
        return
    if sel != "podatm":
        mon.ok(isinstance(R, int) and R == 0, "%s: reports failure" % what, obj=arg)
    if sel == "normal":
        if not mon.ok(len(mols) == len(A), "%s: %d molecules for %d cells" % (what, len(mols), len(A)), obj=A):
            return
        for (atoms, bonds, sitet, theri), c in zip(mols, cells):
            left = list(c)
            for _, _, x in atoms:
                m = [p for p in left if near(x, p)]
                if m:
                    left.remove(m[0])
            if not mon.ok(len(atoms) == g.nv and not left, "%s: a molecule does not show the vertices of its cell" % what, cell=[[float(q) for q in p] for p in c], atoms=atoms):
                break
            if not mon.ok(len(bonds) == 1 and tuple(int(x) for x in bonds[0][-3:]) == rgb, "%s: colour of the bonds" % what, color=str(col), bonds=bonds):
                break
            lab = [a[1] for a in atoms]
            if not mon.ok(len(set(lab)) == g.nv and numbered(lab, atoms, sitet, theri), "%s: labels of the atoms do not match" % what, obj=A):
                break
        return
    if not mon.ok(len(mols) == 1, "%s: %d molecules instead of one" % (what, len(mols)), obj=arg):
        return
    atoms, bonds, sitet, theri = mols[0]
    pts = sorted({p for c in cells for p in c}, key=lambda p: [float(x) for x in p])
    lab = {}
    ok = len(atoms) == len(pts)
    for _, l, x in atoms:
        m = [p for p in pts if near(x, p) and p not in lab.values()]
        if len(m) < 1 or l in lab:
            ok = False
            break
        lab[l] = m[0]
    if not mon.ok(ok, "%s: the atoms are not the distinct vertices, each once" % what, obj=arg, atoms=atoms):
        return
    mon.ok(numbered(list(lab), atoms, sitet, theri), "%s: labels of the atoms do not match" % what, obj=arg)
    want = cx.faces(cells, 2)
    got = {}
    bad = None
    for s in bonds:
        if s[1] not in lab or s[2] not in lab:
            bad = "a bond to an atom that does not exist"
            break
        P, Q = lab[s[1]], lab[s[2]]
        k = frozenset((P, Q))
        got[k] = got.get(k, 0) + 1
        L = sum((float(a) - float(c)) ** 2 for a, c in zip(P, Q)) ** 0.5
        lo, hi = float(s[3]), float(s[4])
        if not (lo <= L <= hi) or hi - lo > 0.05:
            bad = "the length range of a bond does not fit the edge"
            break
        if tuple(int(x) for x in s[-3:]) != rgb:
            bad = "colour of a bond"
            break
    if bad is None and got != {k: 1 for k in want}:
        bad = "the bonds are not the distinct edges, each once (%d, %d expected)" % (len(bonds), len(want))
    if bad is None and [int(s[0]) for s in bonds] != list(range(1, len(bonds) + 1)):
        bad = "bonds are not numbered consecutively"
    mon.ok(bad is None, "%s: %s" % (what, bad), obj=arg)
    if sel == "podatm":
        V = np.asarray(R)
        if mon.ok(V.ndim == 3 and V.shape[1:] == (6, 3), "%s: does not return the vertices" % what, obj=arg, got=V.shape):
            mon.ok([cx.pkey(g, v) for v in V] == list(lab.values()), "%s: the vertices returned are not those of the file, in order" % what, obj=arg)


def jobs(tier, seed):
    n, k = (30, 12) if tier == "quick" else (120, 16)
    return [("run", {"pkg": p, "seed": seed * 1000 + i, "n": n}) for i in range(k) for p in ("ico2", "dode2")] + \
           [("run", {"pkg": p, "seed": seed * 1000 + 500, "n": 1, "big": b}) for p in ("ico2", "dode2") for b in ("star", 130)]
