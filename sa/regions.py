"""Verdict tables: a path condition whose atoms compare functions of ONE scalar quantity is decided on a
finite partition of that quantity (all of f64, with NaN and infinities)."""
import math
from fractions import Fraction
from dom import *
from cas import CAS, Q, ONE


class NotScalar(Exception):
    """an operand is not a function of the scalar"""


class Scalar:
    """recognises nodes that are functions of one scalar quantity (given by its algebraic normal form)"""

    def __init__(self, D, C, poly):
        self.D = D
        self.C = C
        self.poly = poly
        self.memo = {}

    def fn(self, n):
        """-> python expression tree over 's'"""
        r = self.memo.get(n)
        if r is not None:
            return r
        r = self._fn(n)
        self.memo[n] = r
        return r

    def is_s(self, n):
        if not self.D.support(n):
            return False
        try:
            p = self.C.conv(n)
        except Exception:
            return False
        return not self.C.differ(p, self.poly)

    def _fn(self, n):
        if type(n) is int:
            return ("c", float(n))
        if n.op == "c":
            return ("c", n.a)
        if self.is_s(n):
            return ("s",)
        if n.op in ("add", "sub", "mul", "div", "minnum", "maxnum", "rem"):
            return (n.op, self.fn(n.a[0]), self.fn(n.a[1]))
        if n.op in ("neg", "abs", "floor", "ceil", "sqrt", "round", "trunc"):
            return (n.op, self.fn(n.a[0]))
        if n.op == "powi":
            return ("powi", self.fn(n.a[0]), n.a[1])
        if n.op == "ite":
            return ("ite", n.a[0], self.fn(n.a[1]), self.fn(n.a[2]))
        raise NotScalar(show(n, 3))

    # ---- numeric evaluation at a sample value
    def ev(self, e, s):
        k = e[0]
        if k == "c":
            return e[1]
        if k == "s":
            return s
        if k == "ite":
            t = self.bev(e[1], s)
            if t not in (0, 1):
                raise NotScalar("choice")
            return self.ev(e[2] if t == 1 else e[3], s)
        a = self.ev(e[1], s)
        if k == "neg":
            return -a
        if k == "abs":
            return abs(a)
        if k == "powi":
            try:
                return a ** e[2]
            except (OverflowError, ZeroDivisionError):
                return math.inf
        if k in ("floor", "ceil", "round", "trunc"):
            if a != a or a in (math.inf, -math.inf):
                return a
            return float({"floor": math.floor, "ceil": math.ceil, "round": round, "trunc": math.trunc}[k](a))
        if k == "sqrt":
            return math.sqrt(a) if a >= 0 else math.nan
        b = self.ev(e[2], s)
        if k == "add":
            return a + b
        if k == "sub":
            return a - b
        if k == "mul":
            return a * b
        if k == "minnum":
            return b if a != a else a if b != b else min(a, b)
        if k == "maxnum":
            return b if a != a else a if b != b else max(a, b)
        if k == "div":
            if b == 0:
                return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
            return a / b
        if k == "rem":
            try:
                return math.fmod(a, b)
            except ValueError:
                return math.nan
        raise NotScalar(k)

    def bev(self, r, s):
        """value of a path condition at scalar value s: 0, 1 or the residual BDD on non-scalar atoms"""
        bdd = self.D.bdd
        asg = {}
        for v in bdd.support(r):
            n = self.D.atoms[v]
            if n.op not in ("flt", "fle", "feq"):
                continue
            try:
                a, b = self.ev(self.fn(n.a[0]), s), self.ev(self.fn(n.a[1]), s)
            except NotScalar:
                continue
            asg[v] = a < b if n.op == "flt" else a <= b if n.op == "fle" else a == b
        return bdd.cof(r, asg)

    def breakpoints(self, r):
        """values of s at which an atom of r may change"""
        out = set()
        todo = [r]
        seen = set()
        while todo:
            r = todo.pop()
            for v in self.D.bdd.support(r):
                if v in seen:
                    continue
                seen.add(v)
                n = self.D.atoms[v]
                if n.op not in ("flt", "fle", "feq"):
                    continue
                try:
                    f, g = self.fn(n.a[0]), self.fn(n.a[1])
                except NotScalar:
                    continue
                out |= self.roots(("sub", f, g), todo)
        return out

    def roots(self, e, todo):
        """kinks and zeros of a piecewise expression (affine pieces exactly, others by bisection)"""
        kinks = set()

        def kk(x):
            if x[0] == "ite":
                todo.append(x[1])
                kinks.update(self.breakpoints(x[1]))
            if x[0] in ("abs",):
                kinks.update(self.roots(x[1], todo))
            if x[0] in ("minnum", "maxnum"):
                kinks.update(self.roots(("sub", x[1], x[2]), todo))
            if x[0] == "div":
                kinks.update(self.roots(x[2], todo))
            for y in x[1:]:
                if type(y) is tuple:
                    kk(y)

        kk(e)
        ks = sorted(k for k in kinks if k == k and abs(k) < 1e300)
        grid = [-1e30, -1e6, -1e3, -10, -2, -1, -0.5, -1e-3, -1e-6, -1e-12, 0.0, 1e-12, 1e-6, 1e-3, 0.25, 0.5, 0.75, 0.9, 1, 1.1, 1.5, 2, 10, 1e3, 1e6, 1e30]
        pts = sorted(set(grid + ks))
        out = set(ks)
        for a, b in zip(pts, pts[1:]):
            # open interval between kinks: look for a sign change strictly inside
            eps = (b - a) * 1e-9
            fa, fb = self.ev(e, a + eps), self.ev(e, b - eps)
            if fa != fa or fb != fb:
                continue
            if fa == 0 and fb == 0:
                continue
            if fa == 0:
                out.add(a + eps)
            elif fb == 0:
                out.add(b - eps)
            elif (fa < 0) != (fb < 0):
                lo, hi = a + eps, b - eps
                # exact for affine pieces
                if math.isfinite(fa) and math.isfinite(fb):
                    z = lo - fa * (hi - lo) / (fb - fa)
                    if lo <= z <= hi and abs(self.ev(e, z)) <= 1e-12 * max(1.0, min(abs(fa), abs(fb))):
                        out.add(z)
                        continue
                for _ in range(200):
                    m = (lo + hi) / 2
                    fm = self.ev(e, m)
                    if (fm < 0) == (fa < 0):
                        lo = m
                    else:
                        hi = m
                out.add((lo + hi) / 2)
        for p in pts:
            if self.ev(e, p) == 0:
                out.add(p)
        return out


def samples(points, spec):
    """one representative per region of the partition induced by the points, and the points themselves unless
    they coincide (up to rounding) with a breakpoint of the specification"""
    pts = sorted(set(float(p) for p in points) | set(float(s) for s in spec))
    # snap predicate breakpoints that differ from a specified one only by rounding
    out = []
    for p in pts:
        near = [s for s in spec if p != s and abs(p - s) <= 1e-9 * max(abs(s), 0) + 1e-15]
        if not near:
            out.append(p)
    pts = out
    res = [math.nan, math.inf, -math.inf]
    if not pts:
        return res + [0.0]
    res += [pts[0] - 1.0, pts[0] * 2 - 1, pts[-1] + 1.0, pts[-1] * 2 + 1]
    for a, b in zip(pts, pts[1:]):
        res.append((a + b) / 2)
    for p in pts:
        if p not in spec:
            res.append(p)
    return res
