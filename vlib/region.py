"""exact comparison of regions given as sets of simplices (oracle side)"""
import numpy as np
from .geom import Solid, box_apart, clip, halfspaces, list_measure, fbox
from .mon import Failure


def parts_of(g, A, B):
    """pairs of cells with common measure; returns (exact measure, [(a, b, box)])"""
    dim = g.dim
    sa, sb = Solid(g.geo, A, dim), Solid(g.geo, B, dim)
    tot = g.geo.zero
    parts = []
    for i, a in enumerate(sa.cells):
        for j, b in enumerate(sb.cells):
            if box_apart(sa.boxes[i], sb.boxes[j]):
                continue
            pc = clip([a], halfspaces(b), dim)
            if pc:
                tot = tot + list_measure(pc, dim, a)
                parts.append((a, b, fbox([p for c in pc for p in c])))
    return tot, parts


def as_obj(g, R):
    """a result of the code as an object array, or None if it is not one"""
    if R is None:
        return None
    R = np.asarray(R)
    if R.ndim == 4 and R.shape[1:] == (g.nv, 6, 3):
        return R
    if R.ndim == 3 and R.shape == (g.nv, 6, 3):
        return R.reshape(1, g.nv, 6, 3)
    raise ValueError("not an object: shape %r" % (R.shape,))


def intersection_problems(g, A, B, R, allow_flat=True):
    """problems with R as the common region of A and B (both made of interior-disjoint cells)"""
    exp, parts = parts_of(g, A, B)
    if R is None:
        return ([] if exp.is_zero() else ["nothing returned although the common measure is %.6g" % (float(exp) / (6 if g.dim == 3 else 2))]), exp
    sr = Solid(g.geo, as_obj(g, R), g.dim)
    pr = []
    tot = sr.measure()
    k6 = 6 if g.dim == 3 else 2
    flat = 0
    for k, c in enumerate(sr.cells):
        cm = sr.cell_measure(c)
        if cm.is_zero():
            flat += 1
            continue
        m = g.geo.zero
        for a, b, bx in parts:
            if box_apart(bx, sr.boxes[k]):
                continue
            pc = clip(clip([c], halfspaces(a), g.dim), halfspaces(b), g.dim)
            if pc:
                m = m + list_measure(pc, g.dim, c)
        if m != cm:
            pr.append("a piece of the result lies outside the common region (%.6g of %.6g inside)" % (float(m) / k6, float(cm) / k6))
    if tot != exp:
        pr.append("measure of the result %.9g, of the common region %.9g" % (float(tot) / k6, float(exp) / k6))
    if flat and not allow_flat:
        pr.append("flat pieces in the result")
    return pr, exp


def disjoint_problems(g, R):
    """pieces of R overlapping each other"""
    s = Solid(g.geo, as_obj(g, R), g.dim)
    for i in range(len(s.cells)):
        for j in range(i):
            if box_apart(s.boxes[i], s.boxes[j]):
                continue
            if s.cell_measure(s.cells[i]).is_zero() or s.cell_measure(s.cells[j]).is_zero():
                continue
            pc = clip([s.cells[i]], halfspaces(s.cells[j]), g.dim)
            if pc and not list_measure(pc, g.dim, s.cells[i]).is_zero():
                return ["two pieces overlap"]
    return []


def same_region_problems(g, A, R):
    """R covers exactly the region of A (A interior-disjoint cells): every R cell inside A, equal measure.
    Together they give equality and disjointness of R's cells."""
    return intersection_problems(g, A, A, R)[0]


def min_feature(g, A, B):
    """smallest nonzero piece measure of the pairwise intersections, in float (to keep clear of tolerance)"""
    dim = g.dim
    sa, sb = Solid(g.geo, A, dim), Solid(g.geo, B, dim)
    best = 1e9
    for i, a in enumerate(sa.cells):
        for j, b in enumerate(sb.cells):
            if box_apart(sa.boxes[i], sb.boxes[j]):
                continue
            pc = clip([a], halfspaces(b), dim)
            if pc:
                best = min(best, float(list_measure(pc, dim, a)))
    return best
