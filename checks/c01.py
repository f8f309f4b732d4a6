"""C01 exact scalar arithmetic in Q(tau) and Q(sqrt3)"""
import random
import numpy as np
from vlib.mon import load, seed_of, Failure
from vlib.field import ICO, DODE

PROP = "C01"
RULE = ("operands (a+b*u)/c drawn from ten magnitude classes (small, one-component, shared factors, non-reduced, "
        "negative denominators, near cancellation, units of the ring, values up to 2^31 and up to 2^62 whose "
        "intermediate products leave 64 bits); every result is compared with an independent unbounded-integer "
        "field implementation and must be the canonical triple. Non-trivial: both operands non-zero; distinct by "
        "(operation, operands).")
MIN = {"ico2.add": 2000, "ico2.mul": 2000, "ico2.div": 2000, "dode2.add": 2000, "dode2.mul": 2000,
       "dode2.div": 2000, "div by zero": 50, "beyond int64 intermediate": 200}
ASSUMPTIONS = ["operands have a non-zero denominator and fit in signed 64-bit integers"]


def operand(r, cls):
    def nz(n):
        x = 0
        while x == 0:
            x = r.randint(-n, n)
        return x
    if cls == 0:
        return [r.randint(-6, 6), r.randint(-6, 6), r.randint(1, 6)]
    if cls == 1:
        return r.choice([[nz(30), 0, r.randint(1, 9)], [0, nz(30), r.randint(1, 9)]])
    if cls == 2:                                    # non reduced
        g = r.choice([2, 3, 4, 6, 10, 12, 30, 210])
        return [g * r.randint(-9, 9), g * r.randint(-9, 9), g * r.randint(1, 9)]
    if cls == 3:                                    # negative denominators
        return [r.randint(-50, 50), r.randint(-50, 50), -r.randint(1, 50)]
    if cls == 4:
        return [r.randint(-1000, 1000), r.randint(-1000, 1000), r.randint(1, 1000)]
    if cls == 5:                                    # units and their inverses, Fibonacci-like (tiny values)
        a, b = 0, 1
        for _ in range(r.randint(1, 40)):
            a, b = b, a + b
        return r.choice([[a, -b, 1], [b, -a, 1], [-b, a, 1], [a, b, 1], [b, a, r.randint(1, 5)]])
    if cls == 6:                                    # Pell-like, tiny values for sqrt(3)
        a, b = 1, 0
        for _ in range(r.randint(1, 15)):
            a, b = 2 * a + 3 * b, a + 2 * b
        return r.choice([[a, -2 * b, 1], [a, 2 * b, 1], [-a, 2 * b, r.randint(1, 5)]])
    if cls == 7:
        return [r.randint(-2**31, 2**31), r.randint(-2**31, 2**31), r.randint(1, 2**31)]
    if cls == 8:
        return [r.randint(-2**62, 2**62), r.randint(-2**62, 2**62), r.randint(1, 2**62)]
    if cls == 9:                                    # values whose pairwise products share large factors
        p = r.choice([2**20, 3**12, 10**6, 7**7, 2**31 - 1])
        return [p * r.randint(-9, 9), p * r.randint(-9, 9), r.choice([1, p, 2 * p, 3])]
    if cls == 10:                                   # zero in several writings
        return [0, 0, r.choice([1, 2, 7, -3])]
    if cls == 11:                                   # one
        return r.choice([[1, 0, 1], [-1, 0, 1], [2, 0, 2], [0, 1, 1], [0, -1, 1], [0, 2, 1]])


def canon_ok(t):
    from math import gcd
    a, b, c = (int(x) for x in t)
    return c > 0 and gcd(a, b, c) == 1


def one(mon, pkg, style, op, f, x, y):
    X, Y = style.frm(x), style.frm(y)
    if op == "div" and Y.is_zero():
        r = mon.call(f, np.array(x), np.array(y), quiet=True)
        mon.case("div by zero", (pkg, x, y))
        if not isinstance(r, Failure) and r is not None:
            mon.bad("%s: division by zero returned a number" % pkg, x=x, y=y, got=r)
        return
    want = {"add": lambda: X + Y, "sub": lambda: X - Y, "mul": lambda: X * Y, "div": lambda: X / Y}[op]()
    wt = style.canon(want)
    big = max(map(abs, x)) * max(map(abs, y)) >= 2**61
    if big:
        mon.hit("beyond int64 intermediate")
    r = mon.call(f, np.array(x, dtype=np.int64), np.array(y, dtype=np.int64), quiet=True)
    mon.case("%s.%s" % (pkg, op), (pkg, op, x, y), not X.is_zero() and not Y.is_zero(),
             sample={"op": pkg + "." + op, "x": x, "y": y, "want": [str(v) for v in wt]}
             if mon.evals % 997 == 1 else None)
    if isinstance(r, Failure):
        # refusing is acceptable only when the exact result does not fit in 64 bits
        if max(map(abs, wt)) < 2**63:
            mon.bad("%s.%s failed on representable result: %s" % (pkg, op, r.text), x=x, y=y, want=wt)
        return
    if r is None or len(r) != 3:
        mon.bad("%s.%s returned no number" % (pkg, op), x=x, y=y, want=wt, got=r)
        return
    got = tuple(int(v) for v in r)
    if got != wt:
        if got[2] != 0 and style.frm(got) == want:
            mon.bad("%s.%s result is not in lowest terms with positive denominator" % (pkg, op),
                    x=x, y=y, want=wt, got=got)
        else:
            mon.bad("%s.%s result has the wrong value" % (pkg, op), x=x, y=y, want=[str(v) for v in wt], got=got)


def arith(mon, pkg, seed, n):
    ns = load(pkg)
    style = ICO if pkg == "ico2" else DODE
    r = random.Random(seed_of(PROP, pkg, seed))
    for i in range(n):
        big = r.random() < 0.12
        cl = (lambda: r.choice([7, 8, 9])) if big else (lambda: r.choice([0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 9, 10, 11]))
        x, y = operand(r, cl()), operand(r, cl())
        if r.random() < 0.05:
            y = list(x)
        elif r.random() < 0.05:
            y = [-x[0], -x[1], x[2]]
        elif r.random() < 0.05:                 # conjugate: product/quotient collapses
            y = [x[0] + x[1], -x[1], x[2]] if pkg == "ico2" else [x[0], -x[1], x[2]]
        for op in ("add", "sub", "mul", "div"):
            one(mon, pkg, style, op, getattr(ns.math1, op), x, y)
        # algebraic consistency through several real operations (closure of canonical values)
        if i % 10 == 0:
            z = operand(r, r.choice([0, 1, 4]))
            ops = [r.choice(["add", "sub", "mul", "div"]) for _ in range(6)]
            chain(mon, pkg, ns, style, x if max(map(abs, x)) < 2000 else [3, 1, 2], y if max(map(abs, y)) < 2000
                  else [1, 2, 3], z, ops)


def chain(mon, pkg, ns, style, x, y, z, ops):
    """a long computation keeps every intermediate exact"""
    cur = np.array(x, dtype=np.int64)
    K = style.frm(x)
    pool = [y, z]
    for i, op in enumerate(ops):
        o = pool[i % 2]
        O = style.frm(o)
        if op == "div" and O.is_zero():
            op = "add"
        K = {"add": lambda: K + O, "sub": lambda: K - O, "mul": lambda: K * O, "div": lambda: K / O}[op]()
        r = mon.call(getattr(ns.math1, op), cur, np.array(o, dtype=np.int64), quiet=True)
        if isinstance(r, Failure) or r is None:
            if max(map(abs, style.canon(K))) < 2**63:
                mon.bad("%s: chained %s failed" % (pkg, op), x=x, y=y, z=z, ops=ops)
            return
        cur = r
    mon.case("%s.chain" % pkg, (pkg, x, y, z, ops))
    if tuple(int(v) for v in cur) != style.canon(K):
        mon.bad("%s: a chain of exact operations drifted" % pkg, x=x, y=y, z=z, ops=ops, got=cur, want=style.canon(K))


def jobs(tier, seed):
    n, k = (15000, 4) if tier == "quick" else (40000, 8)
    return [("arith", {"pkg": p, "seed": seed * 1000 + i, "n": n}) for i in range(k) for p in ("ico2", "dode2")]
