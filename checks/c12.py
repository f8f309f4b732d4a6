"""C12 intersection of two dodecagonal occupation domains"""
from vlib.isect import run as _run, near as _near, extra as _extra

PROP = "C12"
RULE = ("pairs of dodecagonal objects: general position, same region subdivided differently, lattice translates, parts of a subdivision, "
        "shared facet or point, nearly coincident and nearly touching cells (every question the code asks exact or clear by 4e-6), cells meeting at their tips only, a cell and a part of it with related measure, many scattered cells, symmetry images of the published asymmetric unit, nested, disjoint, several components; vertex and cell "
        "order shuffled, both argument orders, all modes. The exact measure of the result must equal the exact measure of the "
        "common region (independent clipping) and every piece must lie in it, which gives equality of the regions and "
        "disjointness of the pieces. Non-trivial: common region of positive measure; distinct by (A, B, mode).")
ASSUMPTIONS = ["the cells of each operand do not overlap", "positions, crossings and angles are exact (touching, parallel) or clear by more than the "
               "tolerance of 1e-6 of the code's floating-point predicates"]
MIN = {"non-empty": 40, "empty": 10, "nearly coincident": 60, "overlap at the tips": 30, "part with related measure": 60, "many cells": 5}


def run(mon, **kw):
    _run(mon, PROP, "dode2", **kw)


def near(mon, **kw):
    _near(mon, PROP, "dode2", **kw)


def extra(mon, **kw):
    _extra(mon, PROP, "dode2", **kw)


def jobs(tier, seed):
    n, k = (120, 16) if tier == "quick" else (500, 24)
    return [("run", {"seed": seed * 1000 + i, "n": n}) for i in range(k)] + \
           [("near", {"seed": seed * 1000 + i, "n": 40 if tier == "quick" else 300}) for i in range(8)] + \
           [("extra", {"seed": seed * 1000 + i, "n": 15 if tier == "quick" else 100, "many": [130, 1030][i % 2:i % 2 + 1]}) for i in range(8)]
