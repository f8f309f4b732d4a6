"""Independent exact arithmetic in Q(sqrt 5) and Q(sqrt 3).

This is the oracle side: it shares no code with /repo and uses Python's
unbounded integers only.  A value is (p + q*sqrt(d)) / r, r > 0, gcd = 1.
"""
from math import gcd, sqrt, isqrt


def make_field(d, name):
    sq = sqrt(d)

    class K:
        __slots__ = ("p", "q", "r")
        D = d
        NAME = name

        def __init__(self, p, q=0, r=1):
            if r < 0:
                p, q, r = -p, -q, -r
            g = gcd(p, q, r)
            if g > 1:
                p //= g
                q //= g
                r //= g
            self.p = p
            self.q = q
            self.r = r

        # --- arithmetic -------------------------------------------------
        def __add__(self, o):
            if self.r == o.r:
                return K(self.p + o.p, self.q + o.q, self.r)
            return K(self.p * o.r + o.p * self.r, self.q * o.r + o.q * self.r, self.r * o.r)

        def __sub__(self, o):
            if self.r == o.r:
                return K(self.p - o.p, self.q - o.q, self.r)
            return K(self.p * o.r - o.p * self.r, self.q * o.r - o.q * self.r, self.r * o.r)

        def __neg__(self):
            return K(-self.p, -self.q, self.r)

        def __mul__(self, o):
            return K(self.p * o.p + d * self.q * o.q, self.p * o.q + self.q * o.p, self.r * o.r)

        def inv(self):
            n = self.p * self.p - d * self.q * self.q
            if n == 0:
                raise ZeroDivisionError
            return K(self.p * self.r, -self.q * self.r, n)

        def __truediv__(self, o):
            return self * o.inv()

        # --- order ------------------------------------------------------
        def sign(self):
            p, q = self.p, self.q
            if p >= 0 and q >= 0:
                return 1 if (p or q) else 0
            if p <= 0 and q <= 0:
                return -1
            t = p * p - d * q * q          # p, q of opposite sign, both non-zero
            if p > 0:
                return 1 if t > 0 else -1
            return -1 if t > 0 else 1

        def __abs__(self):
            return -self if self.sign() < 0 else self

        def __eq__(self, o):
            return self.p == o.p and self.q == o.q and self.r == o.r

        def __ne__(self, o):
            return not self == o

        def __hash__(self):
            return hash((self.p, self.q, self.r))

        def __lt__(self, o):
            return (self - o).sign() < 0

        def __le__(self, o):
            return (self - o).sign() <= 0

        def __gt__(self, o):
            return (self - o).sign() > 0

        def __ge__(self, o):
            return (self - o).sign() >= 0

        def is_zero(self):
            return self.p == 0 and self.q == 0

        def __float__(self):
            # correctly guarded against cancellation: work in integers
            p, q, r = self.p, self.q, self.r
            if q == 0:
                return p / r
            S = 1 << 120
            root = isqrt(d * S * S)
            return (p * S + q * root) / (r * S)

        def __repr__(self):
            return "(%d%+d*sqrt%d)/%d" % (self.p, self.q, d, self.r)

    K.__name__ = name
    K.SQ = sq
    return K


K5 = make_field(5, "Q(sqrt5)")
K3 = make_field(3, "Q(sqrt3)")


def from_tau(t):
    """(a,b,c) of ico2 -> K5."""
    a, b, c = int(t[0]), int(t[1]), int(t[2])
    return K5(2 * a + b, b, 2 * c)


def from_sin(t):
    """(a,b,c) of dode2 -> K3.   value = (a + b*sqrt(3)/2)/c"""
    a, b, c = int(t[0]), int(t[1]), int(t[2])
    return K3(2 * a, b, 2 * c)


def canon_tau(x):
    """K5 -> canonical (a,b,c): c>0, gcd(a,b,c)=1."""
    # (p+q s)/r = (a + b (1+s)/2)/c  ->  b/(2c) = q/r ; (2a+b)/(2c) = p/r
    a, b, c = x.p - x.q, 2 * x.q, x.r
    g = gcd(a, b, c)
    return (a // g, b // g, c // g)


def canon_sin(x):
    a, b, c = x.p, 2 * x.q, x.r
    g = gcd(a, b, c)
    return (a // g, b // g, c // g)


class Style:
    def __init__(self, name, K, frm, canon):
        self.name, self.K, self.frm, self.canon = name, K, frm, canon


ICO = Style("ico2", K5, from_tau, canon_tau)
DODE = Style("dode2", K3, from_sin, canon_sin)
