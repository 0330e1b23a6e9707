"""Abstract domain of f64 values: which of NaN, -inf, +inf, zero a value can be, and an interval for its negative and its positive
finite part.  Transfer functions over-approximate IEEE arithmetic (overflow, underflow, 0*inf, inf-inf, logarithm of a negative, ...);
value graphs are evaluated without knowledge of path conditions beyond what the domain decides about their comparisons."""
import math
from dom import Node

MAXF = 1.7976931348623157e308
MINF = 5e-324
NAN, NINF, PINF, ZERO = 1, 2, 4, 8


class F:
    """flags; n, p: (smallest, largest magnitude) of the negative / positive finite part"""
    __slots__ = ("f", "n", "p")

    def __init__(self, f=0, n=None, p=None):
        self.f, self.n, self.p = f, n, p

    def __repr__(self):
        s = [t for b, t in ((NAN, "NaN"), (NINF, "-inf"), (ZERO, "0"), (PINF, "inf")) if self.f & b]
        if self.n:
            s.append("[-%g,-%g]" % (self.n[1], self.n[0]))
        if self.p:
            s.append("[%g,%g]" % self.p)
        return "{" + " ".join(s) + "}"

    def finite(self):
        return bool(self.n or self.p or self.f & ZERO)

    def lo(self):
        """least ordered value"""
        if self.f & NINF:
            return -math.inf
        if self.n:
            return -self.n[1]
        if self.f & ZERO:
            return 0.0
        if self.p:
            return self.p[0]
        return math.inf if self.f & PINF else None

    def hi(self):
        if self.f & PINF:
            return math.inf
        if self.p:
            return self.p[1]
        if self.f & ZERO:
            return 0.0
        if self.n:
            return -self.n[0]
        return -math.inf if self.f & NINF else None


TOP = F(NAN | NINF | PINF | ZERO, (MINF, MAXF), (MINF, MAXF))
FIN = (MINF, MAXF)


def const(c):
    if c != c:
        return F(NAN)
    if c == 0:
        return F(ZERO)
    if math.isinf(c):
        return F(PINF if c > 0 else NINF)
    return F(0, None, (c, c)) if c > 0 else F(0, (-c, -c))


def hull(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return (min(a[0], b[0]), max(a[1], b[1]))


def join(a, b):
    if a is b:
        return a
    return F(a.f | b.f, hull(a.n, b.n), hull(a.p, b.p))


class Acc:
    """collects possible results"""

    def __init__(self):
        self.f, self.n, self.p = 0, None, None

    def flag(self, f):
        self.f |= f

    def mag(self, neg, lo, hi):
        """a result of the given sign with magnitude in [lo, hi] before rounding"""
        if lo != lo:
            lo = 0.0
        if hi != hi:
            hi = math.inf
        lo = lo * (1 - 1e-13)
        hi = hi * (1 + 1e-13)
        if hi > MAXF:
            self.f |= NINF if neg else PINF
            if lo > MAXF:
                return
            hi = MAXF
        if lo < MINF:
            self.f |= ZERO
            lo = MINF
        if hi < MINF:
            hi = MINF
        if neg:
            self.n = hull(self.n, (lo, hi))
        else:
            self.p = hull(self.p, (lo, hi))

    def range(self, lo, hi):
        """a result between lo and hi before rounding"""
        if lo > 0:
            self.mag(False, lo, hi)
        elif hi < 0:
            self.mag(True, -hi, -lo)
        else:
            self.f |= ZERO
            if lo < 0:
                self.mag(True, 0.0, -lo)
            if hi > 0:
                self.mag(False, 0.0, hi)

    def get(self):
        return F(self.f, self.n, self.p)


def neg(a):
    return F(a.f & (NAN | ZERO) | (PINF if a.f & NINF else 0) | (NINF if a.f & PINF else 0), a.p, a.n)


def fabs(a):
    return F(a.f & (NAN | ZERO) | (PINF if a.f & (NINF | PINF) else 0), None, hull(a.n, a.p))


def add(a, b):
    r = Acc()
    if (a.f | b.f) & NAN or a.f & PINF and b.f & NINF or a.f & NINF and b.f & PINF:
        r.flag(NAN)
    for x, y in ((a, b), (b, a)):
        if x.f & PINF and (y.finite() or y.f & PINF):
            r.flag(PINF)
        if x.f & NINF and (y.finite() or y.f & NINF):
            r.flag(NINF)
        if x.f & ZERO:
            if y.f & ZERO:
                r.flag(ZERO)
            r.n, r.p = hull(r.n, y.n), hull(r.p, y.p)
    if a.p and b.p:
        r.mag(False, a.p[0] + b.p[0], a.p[1] + b.p[1])
    if a.n and b.n:
        r.mag(True, a.n[0] + b.n[0], a.n[1] + b.n[1])
    for x, y in ((a, b), (b, a)):
        if x.p and y.n:
            r.range(x.p[0] - y.n[1], x.p[1] - y.n[0])
    return r.get()


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    r = Acc()
    if (a.f | b.f) & NAN or a.f & ZERO and b.f & (NINF | PINF) or b.f & ZERO and a.f & (NINF | PINF):
        r.flag(NAN)
    for x, y in ((a, b), (b, a)):
        if x.f & ZERO and y.finite():
            r.flag(ZERO)
        for bit, s in ((PINF, 1), (NINF, -1)):
            if x.f & bit:
                if y.p or y.f & PINF:
                    r.flag(PINF if s > 0 else NINF)
                if y.n or y.f & NINF:
                    r.flag(NINF if s > 0 else PINF)
    for x, sx in ((a.p, 0), (a.n, 1)):
        for y, sy in ((b.p, 0), (b.n, 1)):
            if x and y:
                r.mag(sx != sy, x[0] * y[0], x[1] * y[1])
    return r.get()


def div(a, b):
    r = Acc()
    ainf, binf = a.f & (NINF | PINF), b.f & (NINF | PINF)
    if (a.f | b.f) & NAN or ainf and binf or a.f & ZERO and b.f & ZERO:
        r.flag(NAN)
    if binf and a.finite() or a.f & ZERO and (b.n or b.p):
        r.flag(ZERO)
    if b.f & ZERO and (a.n or a.p or ainf):
        r.flag(NINF | PINF)
    for bit, s in ((PINF, 1), (NINF, -1)):
        if a.f & bit:
            if b.p:
                r.flag(PINF if s > 0 else NINF)
            if b.n:
                r.flag(NINF if s > 0 else PINF)
    for x, sx in ((a.p, 0), (a.n, 1)):
        for y, sy in ((b.p, 0), (b.n, 1)):
            if x and y:
                r.mag(sx != sy, x[0] / y[1], x[1] / y[0])
    return r.get()


def _exp(v):
    try:
        return math.exp(v)
    except OverflowError:
        return math.inf


def exp(a):
    r = Acc()
    if a.f & NAN:
        r.flag(NAN)
    if a.f & NINF:
        r.flag(ZERO)
    if a.f & PINF:
        r.flag(PINF)
    if a.f & ZERO:
        r.p = (1.0, 1.0)
    if a.p:
        r.mag(False, _exp(a.p[0]), _exp(a.p[1]))
    if a.n:
        r.mag(False, _exp(-a.n[1]), _exp(-a.n[0]))
    return r.get()


def log(a):
    r = Acc()
    if a.f & (NAN | NINF) or a.n:
        r.flag(NAN)
    if a.f & ZERO:
        r.flag(NINF)
    if a.f & PINF:
        r.flag(PINF)
    if a.p:
        r.range(math.log(a.p[0]), math.log(a.p[1]))
    return r.get()


def sqrt(a):
    r = Acc()
    if a.f & (NAN | NINF) or a.n:
        r.flag(NAN)
    r.flag(a.f & (ZERO | PINF))
    if a.p:
        r.mag(False, math.sqrt(a.p[0]), math.sqrt(a.p[1]))
    return r.get()


def _pow(x, y):
    try:
        return math.pow(x, y)
    except OverflowError:
        return math.inf


def pow_(a, y):
    """a to a constant power"""
    if y == 0:
        return const(1.0)
    if y != y or math.isinf(y):
        return TOP
    whole = y == math.floor(y)
    odd = whole and math.fmod(y, 2) != 0
    r = Acc()
    if a.f & NAN:
        r.flag(NAN)
    if y > 0:
        r.flag(a.f & (ZERO | PINF))
        if a.f & NINF:
            r.flag(NINF if odd else PINF)
    else:
        if a.f & (PINF | NINF):
            r.flag(ZERO)
        if a.f & ZERO:
            r.flag(PINF | NINF if odd else PINF)
    for part, s in ((a.p, False), (a.n, True)):
        if not part:
            continue
        if s and not whole:
            r.flag(NAN)
            continue
        lo, hi = _pow(part[0], y), _pow(part[1], y)
        r.mag(s and odd, min(lo, hi), max(lo, hi))
    return r.get()


class Eval:
    def __init__(self, D, env, default=None):
        self.D, self.env, self.default = D, env, default or (lambda name: TOP)
        self.memo = {}
        self.bmemo = {}
        self.tmemo = {}

    def value(self, n):
        m = self.memo
        if n in m:
            return m[n]
        D = self.D
        st = [n]
        while st:
            x = st[-1]
            if x in m:
                st.pop()
                continue
            if x.op == "c":
                m[x] = const(x.a) if type(x.a) is float else TOP
                continue
            if x.op == "sym":
                m[x] = self.env.get(x.a[0]) or self.default(x.a[0])
                continue
            need = []
            if x.op == "ite":
                r = self.cond(x.a[0], need)
                if not need:
                    k = [y for y, b in ((x.a[1], 1), (x.a[2], 0)) if r >> b & 1]
                    need = [y for y in k if type(y) is Node and y not in m]
                    if not need:
                        v = None
                        for y in k:
                            w = m[y] if type(y) is Node else TOP
                            v = w if v is None else join(v, w)
                        m[x] = v if v is not None else F()
                        continue
                st.extend(need)
                continue
            need = [y for y in x.a if type(y) is Node and y not in m]
            if need:
                st.extend(need)
                continue
            m[x] = self.op(x)
        return m[n]

    def op(self, x):
        k = [self.memo[y] if type(y) is Node else y for y in x.a]
        o = x.op
        if o in ("add", "sub", "mul", "div"):
            if x.a[0] is x.a[1]:
                if o == "mul":
                    a = k[0]
                    return pow_(a, 2.0)
                if o == "sub":
                    a = k[0]
                    return F((a.f & NAN) | (NAN if a.f & (NINF | PINF) else 0) | (ZERO if a.finite() else 0))
            return {"add": add, "sub": sub, "mul": mul, "div": div}[o](k[0], k[1])
        if o == "neg":
            return neg(k[0])
        if o == "abs":
            return fabs(k[0])
        if o in ("exp", "log", "sqrt"):
            return {"exp": exp, "log": log, "sqrt": sqrt}[o](k[0])
        if o == "powi" and type(k[1]) is int:
            return pow_(k[0], float(k[1]))
        if o == "pow" and type(x.a[1]) is Node and x.a[1].op == "c":
            return pow_(k[0], x.a[1].a)
        return TOP

    def atom(self, v, need):
        """which truth values comparison atom v can take: bit 0 false, bit 1 true"""
        t = self.tmemo.get(v)
        if t is not None:
            return t
        n = self.D.atoms[v]
        t = 3
        if n.op in ("flt", "fle", "feq") and all(type(y) is Node for y in n.a):
            miss = [y for y in n.a if y not in self.memo]
            if miss:
                need.extend(miss)
                return 3
            a, b = self.memo[n.a[0]], self.memo[n.a[1]]
            nan = (a.f | b.f) & NAN
            if a.lo() is None or b.lo() is None:
                t = 1
            elif n.op == "flt":
                t = (2 if a.lo() < b.hi() else 0) | (1 if nan or a.hi() >= b.lo() else 0)
            elif n.op == "fle":
                t = (2 if a.lo() <= b.hi() else 0) | (1 if nan or a.hi() > b.lo() else 0)
            else:
                over = max(a.lo(), b.lo()) <= min(a.hi(), b.hi())
                one = a.lo() == a.hi() == b.lo() == b.hi()
                t = (2 if over else 0) | (1 if nan or not one else 0)
        self.tmemo[v] = t
        return t

    def cond(self, r, need):
        """which truth values a path condition can take"""
        if r in (0, 1):
            return 1 << r
        t = self.bmemo.get(r)
        if t is not None:
            return t
        bdd = self.D.bdd
        for v in bdd.support(r):
            self.atom(v, need)
        if need:
            return 3
        st = [r]
        out = 0
        seen = {r}
        while st and out != 3:
            q = st.pop()
            if q in (0, 1):
                out |= 1 << q
                continue
            t = self.atom(bdd.var[q], need)
            for bit, nx in ((2, bdd.hi[q]), (1, bdd.lo[q])):
                if t & bit and nx not in seen:
                    seen.add(nx)
                    st.append(nx)
        self.bmemo[r] = out
        return out

    def truth(self, r):
        while True:
            need = []
            t = self.cond(r, need)
            if not need:
                return t
            for n in need:
                self.value(n)
