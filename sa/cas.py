"""Algebraic normal form of value-graph nodes.

A polynomial is a dict  monomial -> (coefficient, magnitude);  a monomial is a sorted tuple of
(atom, exponent*1e12).  Atoms are interned: symbols, logarithms, exponentials of monomials, sums S(P)
(used under real or negative exponents and for composition-only sums), path-condition indicators and
opaque functions.  The magnitude is the sum of the absolute contributions, so that rounding in the
coefficients can be told from a real difference.
"""
import math
from dom import Node, UNDEF

Q = 10 ** 12
ONE = ()
DROP = 1e-12


class TooBig(Exception):
    pass


class Undiff(Exception):
    pass


class CAS:
    MAXMUL = 400000

    def __init__(self, dom, xsyms=(), truth=None, present=None, special=None):
        self.D = dom
        self.xs = frozenset(xsyms)
        self.truth = truth or (lambda node: None)
        self.present = present or (lambda node: None)  # indicator node -> (symbol it says is present, polarity)
        self.atoms = []  # (kind, payload)
        self.asup = []  # support sets
        self.aidx = {}
        self.sums = {}
        self.memo = {}
        self.summemo = {}
        self.indmemo = {}
        self.dmemo = {}
        self.special = special or {}  # node -> poly (abbreviations)
        self.lookup = None  # optional: poly -> poly abbreviation
        self.nmul = 0
        self.expu = {}  # monomial -> [base coefficient, [(coefficient, exponent)]]
        self.assumed = set()
        self.indx = {}  # indicator atom -> x atom it certifies (present)

    # ---------------------------------------------------------------- atoms
    def atom(self, kind, payload, sup):
        k = (kind, payload)
        i = self.aidx.get(k)
        if i is None:
            i = len(self.atoms)
            self.aidx[k] = i
            self.atoms.append(k)
            self.asup.append(frozenset(sup))
        return i

    def sym(self, name):
        return self.apoly(self.atom("sym", name, [name]))

    def apoly(self, a, e=Q):
        return {((a, e),): (1.0, 1.0)}

    def const(self, c):
        c = float(c)
        return {} if c == 0 else {ONE: (c, abs(c))}

    def psup(self, p):
        s = frozenset()
        for m in p:
            for a, e in m:
                s |= self.asup[a]
        return s

    # ---------------------------------------------------------------- arithmetic
    def add(self, p, q, k=1.0):
        if not p and k == 1.0:
            return q
        if not q:
            return p
        r = dict(p)
        ak = abs(k)
        for m, (c, g) in q.items():
            o = r.get(m)
            if o is None:
                r[m] = (c * k, g * ak)
            else:
                c2 = o[0] + c * k
                g2 = o[1] + g * ak
                if abs(c2) <= DROP * g2:
                    del r[m]
                else:
                    r[m] = (c2, g2)
        return r

    def acc(self, r, q, k=1.0):
        """in-place add"""
        ak = abs(k)
        for m, (c, g) in q.items():
            o = r.get(m)
            if o is None:
                r[m] = (c * k, g * ak)
            else:
                c2 = o[0] + c * k
                g2 = o[1] + g * ak
                if abs(c2) <= DROP * g2:
                    del r[m]
                else:
                    r[m] = (c2, g2)
        return r

    def sub(self, p, q):
        return self.add(p, q, -1.0)

    def scale(self, p, k):
        if k == 0:
            return {}
        return {m: (c * k, g * abs(k)) for m, (c, g) in p.items()}

    def mmul(self, m1, m2):
        """product of monomials -> (monomial, needs_reduction)"""
        if not m1:
            return m2, False
        if not m2:
            return m1, False
        d = dict(m1)
        for a, e in m2:
            o = d.get(a)
            if o is None:
                d[a] = e
            elif self.atoms[a][0] == "ind":
                pass
            else:
                e2 = o + e
                if e2 == 0:
                    del d[a]
                else:
                    d[a] = e2
        for a in list(d):
            if a in self.indx:
                x = self.indx[a]
                if x[1] and d.get(x[0], 0) > 0:
                    del d[a]
        return tuple(sorted(d.items())), True

    def mul(self, p, q):
        if not p or not q:
            return {}
        if len(p) * len(q) > self.MAXMUL:
            raise TooBig()
        r = {}
        for m1, (c1, g1) in p.items():
            for m2, (c2, g2) in q.items():
                m, red = self.mmul(m1, m2)
                c = c1 * c2
                g = g1 * g2
                if self.zero_mono(m):
                    continue
                for mm, k in self.reduce(m) if red else ((m, 1.0),):
                    o = r.get(mm)
                    if o is None:
                        r[mm] = (c * k, g * abs(k))
                    else:
                        r[mm] = (o[0] + c * k, o[1] + g * abs(k))
        return {m: v for m, v in r.items() if abs(v[0]) > DROP * v[1]}

    def zero_mono(self, m):
        # [x absent] * x = 0
        if self.indx:
            d = None
            for a, e in m:
                x = self.indx.get(a)
                if x is not None and not x[1]:
                    if d is None:
                        d = dict(m)
                    if d.get(x[0], 0) > 0:
                        return True
        return False

    def reduce(self, m):
        """normal form of monomials holding the inverse of a binomial E^c + k (E an exponential)"""
        for a, e in m:
            if e < 0 and e % Q == 0 and self.atoms[a][0] == "S":
                b = self.binom(a)
                if b is None:
                    continue
                ea, c, k = b  # E atom, exponent (positive), constant: S = k + E^c * l
                ec, kc, lc = c, k[0], k[1]
                d = dict(m)
                x = d.get(ea, 0)
                if x >= ec:
                    # E^c = (S - kc)/lc
                    d[ea] = x - ec
                    if d[ea] == 0:
                        del d[ea]
                    m1 = dict(d)
                    m1[a] = e + Q
                    if m1[a] == 0:
                        del m1[a]
                    out = []
                    for mm, q in self.reduce(tuple(sorted(m1.items()))):
                        out.append((mm, q / lc))
                    for mm, q in self.reduce(tuple(sorted(d.items()))):
                        out.append((mm, -q * kc / lc))
                    return out
                if x < 0:
                    # 1 = (S - lc E^c)/kc
                    m1 = dict(d)
                    m1[a] = e + Q
                    if m1[a] == 0:
                        del m1[a]
                    d[ea] = x + ec
                    if d[ea] == 0:
                        del d[ea]
                    out = []
                    for mm, q in self.reduce(tuple(sorted(m1.items()))):
                        out.append((mm, q / kc))
                    for mm, q in self.reduce(tuple(sorted(d.items()))):
                        out.append((mm, -q * lc / kc))
                    return out
        return ((m, 1.0),)

    def binom(self, a):
        r = self.dmemo.get(("binom", a), 0)
        if r != 0:
            return r
        r = None
        P = self.atoms[a][1].p
        if len(P) == 2 and ONE in P:
            m = next(x for x in P if x != ONE)
            if len(m) == 1 and m[0][1] > 0 and self.atoms[m[0][0]][0] == "exp":
                r = (m[0][0], m[0][1], (P[ONE][0], P[m][0]))
        self.dmemo[("binom", a)] = r
        return r

    # ---------------------------------------------------------------- sums as atoms
    def content(self, p):
        """p = coefficient * monomial * q  with q canonical"""
        mins = {}
        maxs = {}
        cnt = {}
        for m in p:
            for a, e in m:
                if a in cnt:
                    cnt[a] += 1
                    if e < mins[a]:
                        mins[a] = e
                    if e > maxs[a]:
                        maxs[a] = e
                else:
                    cnt[a] = 1
                    mins[a] = maxs[a] = e
        n = len(p)
        com = {}
        for a, c in cnt.items():
            kind = self.atoms[a][0]
            if kind == "ind":
                continue
            mn, mx = mins[a], maxs[a]
            if c < n:
                mn, mx = min(mn, 0), max(mx, 0)
            if mn > 0:
                com[a] = mn
            elif kind == "S":
                if mx < 0:
                    com[a] = mx
            elif mn < 0:
                com[a] = mn
        inv = tuple(sorted((a, -e) for a, e in com.items()))
        q = {}
        for m, v in p.items():
            mm, _ = self.mmul(m, inv)
            q[mm] = v
        lead = min(q)
        c = q[lead][0]
        return c, tuple(sorted(com.items())), q

    def satom(self, p):
        """atom for the sum p (already content-free, lead coefficient 1)"""
        key = frozenset(p)
        b = self.sums.setdefault(key, [])
        for i, q in b:
            for m, (c, g) in p.items():
                d = q[m][0]
                if abs(c - d) > 1e-10 * max(g, q[m][1]):
                    break
            else:
                return i
        i = self.atom("S", SumKey(p, len(self.sums), len(b)), self.psup(p))
        b.append((i, p))
        return i

    def power(self, p, e9):
        """p ** (e9/Q)"""
        if e9 == 0:
            return self.const(1)
        if not p:
            return {} if e9 > 0 else self.opaque("inv0", ({},))
        if len(p) == 1:
            m, (c, g) = next(iter(p.items()))
            if c > 0 or e9 % Q == 0:
                if any(self.atoms[a][0] == "ind" for a, e in m) and e9 < 0:
                    return self.opaque("pow", (p, e9))
                k = self.cpow(c, e9)
                kg = abs(k) * max(1.0, (g / abs(c)) if c else 1.0)
                mm = tuple((a, e if self.atoms[a][0] == "ind" else self.emul(e, e9)) for a, e in m)
                out = {}
                for x, q in self.reduce(mm):
                    o = out.get(x, (0.0, 0.0))
                    out[x] = (o[0] + k * q, o[1] + kg * abs(q))
                return out
            return self.opaque("pow", (p, e9))
        if e9 % Q == 0 and e9 > 0:
            if self.psup(p) <= self.xs and len(p) > 1:
                pass
            else:
                r = p
                for _ in range(e9 // Q - 1):
                    r = self.mul(r, p)
                return r
        if any(self.atoms[a][0] == "ind" for m in p for a, e in m):
            # a sum with undecided gates is kept whole
            q = self.norm(p)
            if any(self.atoms[a][0] == "ind" for m in q for a, e in m):
                c, com, q = self.content(q)
                if c < 0 and e9 % Q != 0:
                    a = self.satom(self.scale(q, 1.0 / abs(c)))
                    c = abs(c)
                else:
                    a = self.satom(self.scale(q, 1.0 / c))
                return self._pw(c, com, a, e9, p)
            p = q
        else:
            p = self.norm(p)
        if len(p) <= 1:
            return self.power(p, e9)
        c, com, q = self.content(p)
        if len(q) == 3 and e9 % Q == 0 and ONE in q:
            # c0 + c1 u + c2 u^2 with a double root
            m1, m2 = sorted((m for m in q if m != ONE), key=lambda m: [abs(e) for a, e in m])
            if len(m1) == len(m2) == 1 and m1[0][0] == m2[0][0] and m2[0][1] == 2 * m1[0][1]:
                c0, c1, c2 = q[ONE][0], q[m1][0], q[m2][0]
                if abs(c1 * c1 - 4 * c0 * c2) <= 1e-12 * c1 * c1:
                    h = c1 / (2 * c2)
                    r = self.power({m1: (1.0, 1.0), ONE: (h, abs(h))}, 2 * e9)
                    k = self.cpow(c2, e9)
                    return self.mul(self.scale(r, k), self.reduce_poly(tuple((a, self.emul(e, e9)) for a, e in com)))
        if c < 0 and e9 % Q != 0:
            a = self.satom(self.scale(q, 1.0 / abs(c)))
            c = abs(c)
        else:
            a = self.satom(self.scale(q, 1.0 / c))
        return self._pw(c, com, a, e9, p)

    def reduce_poly(self, m):
        out = {}
        for x, q in self.reduce(m):
            o = out.get(x, (0.0, 0.0))
            out[x] = (o[0] + q, o[1] + abs(q))
        return out

    def _pw(self, c, com, a, e9, p):
        k = self.cpow(c, e9)
        m = tuple(sorted([(b, self.emul(e, e9)) for b, e in com] + [(a, e9)]))
        out = {}
        for x, q in self.reduce(m):
            o = out.get(x, (0.0, 0.0))
            out[x] = (o[0] + k * q, o[1] + abs(k * q))
        return out

    def cpow(self, c, e9):
        if e9 % Q == 0:
            return float(c) ** (e9 // Q)
        return math.pow(c, e9 / Q)

    def emul(self, e, e9):
        return (e * e9 + Q // 2) // Q

    def norm(self, p, limit=6000):
        """expand products of sums with positive integer exponents while that stays small"""
        if not any(e > 0 and e % Q == 0 and self.atoms[a][0] == "S" for m in p for a, e in m):
            return p
        r = {}
        for m, (c, g) in p.items():
            ints = [(a, e) for a, e in m if e > 0 and e % Q == 0 and self.atoms[a][0] == "S"]
            est = 1
            for a, e in ints:
                est *= len(self.atoms[a][1].p) ** (e // Q)
                if est > limit:
                    break
            if not ints or est > limit:
                self.acc(r, {m: (c, g)})
                continue
            q = {tuple(x for x in m if x not in ints): (c, g)}
            for a, e in ints:
                for _ in range(e // Q):
                    q = self.mul(q, self.atoms[a][1].p)
            self.acc(r, self.norm(q, limit))
        return r

    def wrap(self, p):
        """composition-only sums become one atom"""
        if len(p) > 1 and self.psup(p) <= self.xs and not any(self.atoms[a][0] == "ind" for m in p for a, e in m):
            p = self.norm(p)
            if len(p) <= 1:
                return p
            c, com, q = self.content(p)
            a = self.satom(self.scale(q, 1.0 / c))
            return {tuple(sorted(com + ((a, Q),))): (c, abs(c))}
        return p

    def opaque(self, name, args):
        sup = frozenset()
        key = []
        for x in args:
            if isinstance(x, dict):
                sup |= self.psup(x)
                key.append(self.pkey(x))
            else:
                key.append(x)
        return self.apoly(self.atom("fun", (name,) + tuple(key), sup))

    def pkey(self, p):
        if len(p) == 0:
            return 0
        c, com, q = self.content(p)
        return (float("%.10g" % c), com, self.satom(self.scale(q, 1.0 / c)))

    # ---------------------------------------------------------------- functions
    def exp(self, p):
        out = self.const(1.0)
        for m, (c, g) in p.items():
            if m == ONE:
                out = self.scale(out, math.exp(c))
                continue
            if any(self.atoms[a][0] == "ind" for a, e in m):
                r = self.cases(p, self.exp)
                return r if r is not None else self.opaque("exp", (p,))
            e9 = round(c * Q)
            if len(m) == 1 and m[0][1] == Q and self.atoms[m[0][0]][0] == "log":
                a = self.atoms[m[0][0]][1]
                out = self.mul(out, {((a, e9),): (1.0, 1.0)} if e9 else self.const(1))
            else:
                a, e9 = self.expunit(m, c)
                out = self.mul(out, {((a, e9),): (1.0, 1.0)} if e9 else self.const(1))
        return out

    def expunit(self, m, c):
        """exp(c*m) as a power of a base exponential exp(c0*m), c0 the first coefficient seen"""
        u = self.expu.get(m)
        if u is None:
            self.expu[m] = u = [c, [(c, Q)]]
        a = self.atom("exp", (m, u[0]), self.psup({m: 1}))
        for cu, eu in u[1]:
            r = c / cu
            for den in (1, 2, 3, 4, 5, 6, 8):
                k = round(r * den)
                if k and abs(k) <= 64 and abs(r * den - k) < 1e-9 * abs(r * den) and (eu * k) % den == 0:
                    return a, eu * k // den
        e = round(c / u[0] * Q)
        u[1].append((c, e))
        return a, e

    def cases(self, p, f):
        """function of a case distinction: the distinction between the function's values (None: too many cases)"""
        g = sorted({a for m in p for a, e in m if self.atoms[a][0] == "ind" and a not in self.indx})
        if not g or len({a for m in p for a, e in m if self.atoms[a][0] == "ind"}) > 3:
            return None
        hi, lo = {}, {}
        for m, v in p.items():
            k = tuple(x for x in m if x[0] != g[0])
            self.acc(hi, {k: v})
            if len(k) == len(m):
                self.acc(lo, {k: v})
        hi, lo = f(self.strip(hi, 1e-13)), f(self.strip(lo, 1e-13))
        return self.add(lo, self.mul(self.apoly(g[0]), self.sub(hi, lo)))

    def log(self, p):
        if len(p) == 0:
            return self.opaque("log0", ())
        if any(self.atoms[a][0] == "ind" for m in p for a, e in m):
            p = self.norm(p)
            r = self.cases(p, self.log)
            return r if r is not None else self.opaque("log", (p,))
        p = self.norm(p)
        if len(p) == 1:
            m, (c, g) = next(iter(p.items()))
        else:
            c, com, q = self.content(p)
            a = self.satom(self.scale(q, 1.0 / c))
            m = com + ((a, Q),)
        r = self.const(math.log(abs(c))) if abs(c) != 1 else {}
        if r:
            v = r[ONE]
            r = {ONE: (v[0], max(1.0, v[1]))}
        for a, e in m:
            k, pay = self.atoms[a]
            if k == "exp":
                v = e / Q * pay[1]
                r = self.add(r, {pay[0]: (v, abs(v))})
            elif k == "abs":
                r = self.add(r, self.scale(self.apoly(self.atom("log", pay, self.asup[pay])), e / Q))
            else:
                r = self.add(r, self.scale(self.apoly(self.atom("log", a, self.asup[a])), e / Q))
        return r

    def abs(self, p):
        if len(p) == 0:
            return p
        p = self.norm(p)
        if any(self.atoms[a][0] == "ind" for m in p for a, e in m):
            r = self.cases(p, self.abs)
            return r if r is not None else self.opaque("abs", (p,))
        if len(p) == 1:
            m, (c, g) = next(iter(p.items()))
        else:
            c, com, q = self.content(p)
            a = self.satom(self.scale(q, 1.0 / c))
            m = com + ((a, Q),)
        out = []
        for a, e in m:
            if self.atoms[a][0] == "S" and e % (2 * Q) != 0:
                a = self.atom("abs", a, self.asup[a])
            out.append((a, e))
        return {tuple(sorted(out)): (abs(c), abs(c))}

    # ---------------------------------------------------------------- conditions
    def ind(self, r):
        """multilinear indicator polynomial of a path condition"""
        if r == 1:
            return self.const(1)
        if r == 0:
            return {}
        v = self.indmemo.get(r)
        if v is not None:
            return v
        bdd = self.D.bdd
        var = bdd.var[r]
        node = self.D.atoms[var]
        t = self.truth(node)
        if t is None:
            t = self.sign_truth(node)
        if t is True:
            v = self.ind(bdd.hi[r])
        elif t is False:
            v = self.ind(bdd.lo[r])
        else:
            a = self.atomind(node)
            hi = self.ind(bdd.hi[r])
            lo = self.ind(bdd.lo[r])
            v = self.add(lo, self.mul(a, self.sub(hi, lo)))
        if len(v) > 4000:
            raise TooBig()
        self.indmemo[r] = v
        return v

    def sign_truth(self, node):
        """decides `tiny < sum` for composition sums with positive terms only (non-degenerate mixtures)"""
        if node.op not in ("flt", "fle", "feq"):
            return None
        a, b = node.a
        if node.op == "feq" and a is b:
            return True  # over the reals
        if node.op == "feq":
            if b.op == "c" and b.a == 0:
                a, b = b, a
            if not (a.op == "c" and a.a == 0):
                return None
        for lo, hi, val in ((a, b, True), (b, a, False)):
            if lo.op == "c" and 0 <= lo.a <= 1e-12 and hi.op not in ("c", "sym") and type(hi) is Node:
                if self.D.support(hi) <= self.xs and self.D.support(hi):
                    if self.positive(self.conv(hi)):
                        self.assumed.add("composition sum tested against %g is above it" % lo.a)
                        return False if node.op == "feq" else val
        return None

    def atomind(self, node):
        pr = self.present(node)
        if pr is not None:
            name, pol = pr
            a = self.atom("ind", ("present", name), [name])
            x = self.atom("sym", name, [name])
            self.indx[a] = (x, True)
            if pol:
                return self.apoly(a)
            return self.sub(self.const(1), self.apoly(a))
        return self.apoly(self.atom("ind", node, self.D.support(node)))

    # ---------------------------------------------------------------- conversion
    def conv(self, n):
        if type(n) is int:
            return self.const(float(n))
        r = self.memo.get(n)
        if r is not None:
            return r
        s = self.special.get(n)
        if s is not None:
            self.memo[n] = s
            return s
        op = n.op
        a = n.a
        if op == "c":
            if n.a != n.a or n.a in (math.inf, -math.inf):
                r = self.apoly(self.atom("fun", ("const", repr(n.a)), []))
            else:
                r = self.const(n.a)
        elif op == "sym":
            r = self.sym(a[0])
        elif op in ("add", "sub", "ite"):
            r = self.wrap(self.csum(n))
        elif op == "neg":
            r = self.scale(self.conv(a[0]), -1.0)
        elif op == "mul":
            r = self.pmul(self.conv(a[0]), self.conv(a[1]))
        elif op == "div":
            r = self.pmul(self.conv(a[0]), self.npow(a[1], -1))
        elif op == "powi" and type(a[1]) is int:
            r = self.power(self.conv(a[0]), a[1] * Q)
        elif op == "pow":
            e = a[1]
            if e.op == "c" and abs(e.a) < 1e6:
                r = self.power(self.conv(a[0]), round(e.a * Q))
            else:
                ep = self.conv(e)
                if len(ep) == 1 and ONE in ep:
                    r = self.power(self.conv(a[0]), round(ep[ONE][0] * Q))
                elif not ep:
                    r = self.const(1)
                else:
                    # b^p = exp(p log b) for positive b
                    r = self.exp(self.mul(ep, self.log(self.conv(a[0]))))
        elif op == "sqrt":
            r = self.power(self.conv(a[0]), Q // 2)
        elif op == "abs":
            r = self.abs(self.conv(a[0]))
        elif op == "exp":
            r = self.exp(self.conv(a[0]))
        elif op == "log":
            r = self.log(self.conv(a[0]))
        elif op == "exp2":
            r = self.exp(self.scale(self.conv(a[0]), math.log(2)))
        elif op == "log10":
            r = self.scale(self.log(self.conv(a[0])), 1 / math.log(10))
        elif op == "log2":
            r = self.scale(self.log(self.conv(a[0])), 1 / math.log(2))
        elif op in ("sinh", "cosh", "tanh"):
            p = self.conv(a[0])
            ep, em = self.exp(p), self.exp(self.scale(p, -1.0))
            sh = self.scale(self.sub(ep, em), 0.5)
            ch = self.scale(self.add(ep, em), 0.5)
            r = sh if op == "sinh" else ch if op == "cosh" else self.mul(sh, self.power(ch, -Q))
        elif op == "expm1":
            r = self.sub(self.exp(self.conv(a[0])), self.const(1))
        elif op == "log1p":
            r = self.log(self.add(self.const(1), self.conv(a[0])))
        elif op == "cbrt":
            r = self.power(self.conv(a[0]), Q // 3)
        elif op in ("minnum", "maxnum"):
            x, y = self.conv(a[0]), self.conv(a[1])
            lt = self.D.mk("flt", (a[0], a[1]), "b")
            t = self.truth(lt)
            if t is None:
                # the larger (smaller) of two values, as a case distinction
                g = self.atomind(lt)
                if op == "maxnum":
                    x, y = y, x
                r = self.wrap(self.add(y, self.mul(g, self.sub(x, y))))
            else:
                r = x if t == (op == "minnum") else y
        else:
            args = []
            for y in a:
                args.append(self.conv(y) if type(y) is Node else y)
            r = self.opaque(op, tuple(args))
        if self.lookup is not None and len(r) > 4:
            r = self.lookup(r)
        self.memo[n] = r
        return r

    def npow(self, n, k):
        """integer power of a node; products keep their factors"""
        if type(n) is not int:
            if n.op == "mul":
                return self.pmul(self.npow(n.a[0], k), self.npow(n.a[1], k))
            if n.op == "div":
                return self.pmul(self.npow(n.a[0], k), self.npow(n.a[1], -k))
            if n.op == "neg":
                return self.scale(self.npow(n.a[0], k), -1.0 if k % 2 else 1.0)
            if n.op == "powi" and type(n.a[1]) is int and 0 < n.a[1] < 9:
                return self.npow(n.a[0], k * n.a[1])
        return self.power(self.conv(n), k * Q)

    def pmul(self, p, q):
        if len(p) > 1 and len(q) > 1:
            if len(p) * len(q) > self.MAXMUL:
                p = self.box(p)
                q = self.box(q)
        return self.mul(p, q)

    def box(self, p):
        if len(p) <= 1:
            return p
        c, com, q = self.content(self.norm(p))
        a = self.satom(self.scale(q, 1.0 / c))
        return {tuple(sorted(com + ((a, Q),))): (c, abs(c))}

    def csum(self, n):
        """sum node as an expanded polynomial (no wrapping at the top)"""
        r = self.summemo.get(n)
        if r is not None:
            return r
        # flatten long accumulation chains
        parts = []  # (gate poly or None, node, sign)
        cur = n
        sign = 1.0
        base = None
        while True:
            if cur is not n and (cur in self.summemo or cur in self.memo or cur in self.special):
                break
            if cur.op == "add":
                parts.append((None, cur.a[1], sign))
                cur = cur.a[0]
            elif cur.op == "sub":
                parts.append((None, cur.a[1], -sign))
                cur = cur.a[0]
            elif cur.op == "ite" and type(cur.a[1]) is Node and type(cur.a[2]) is Node:
                c, x, y = cur.a
                g = self.ind(c)
                if g == {}:
                    cur = y
                    if cur.op not in ("add", "sub", "ite"):
                        break
                    continue
                if len(g) == 1 and ONE in g and g[ONE][0] == 1.0:
                    cur = x
                    if cur.op not in ("add", "sub", "ite"):
                        break
                    continue
                t = self.chain_diff(x, y)
                if t is not None:
                    for nd, sg in t:
                        parts.append((g, nd, sg * sign))
                    cur = y
                else:
                    t = self.chain_diff(y, x)
                    if t is not None:
                        ng = self.sub(self.const(1), g)
                        for nd, sg in t:
                            parts.append((ng, nd, sg * sign))
                        cur = x
                    else:
                        A = self.term(x)
                        B = self.term(y)
                        base = self.add(B, self.mul(g, self.sub(A, B)))
                        break
            else:
                break
            if cur.op not in ("add", "sub", "ite"):
                break
        if base is None:
            base = self.term(cur)
        r = self.scale(base, sign) if sign != 1.0 else dict(base)
        r = dict(r)
        for g, nd, sg in reversed(parts):
            p = self.term(nd)
            if g is not None:
                p = self.mul(g, p)
            self.acc(r, p, sg)
        self.summemo[n] = r
        return r

    def chain_diff(self, x, y):
        """x = y + t1 + t2 ... (at most 64 terms) -> [(t, sign)]"""
        out = []
        cur = x
        for _ in range(64):
            if cur is y:
                return out
            if cur.op == "add":
                out.append((cur.a[1], 1.0))
                cur = cur.a[0]
            elif cur.op == "sub":
                out.append((cur.a[1], -1.0))
                cur = cur.a[0]
            else:
                return None
        return None

    def term(self, n):
        if n in self.special or n.op not in ("add", "sub", "ite"):
            return self.conv(n)
        if n in self.memo and n not in self.summemo:
            return self.memo[n]
        r = self.csum(n)
        if self.lookup is not None and len(r) > 4:
            r = self.lookup(r)
        return r

    # ---------------------------------------------------------------- calculus
    def diff(self, p, var):
        r = {}
        for m, (c, g) in p.items():
            for i, (a, e) in enumerate(m):
                if var not in self.asup[a] or self.atoms[a][0] == "ind":
                    continue
                da = self.datom(a, var)
                if not da:
                    continue
                rest = m[:i] + m[i + 1:]
                if e != Q:
                    rest = tuple(sorted(rest + ((a, e - Q),)))
                k = e / Q
                q = self.mul({rest: (c * k, g * abs(k))}, da)
                self.acc(r, q)
        return r

    def datom(self, a, var):
        k = ("d", a, var)
        r = self.dmemo.get(k)
        if r is not None:
            return r
        kind, pay = self.atoms[a]
        if kind == "sym":
            r = self.const(1)
        elif kind == "log":
            r = self.mul(self.datom(pay, var), self.apoly(pay, -Q)) if var in self.asup[pay] else {}
        elif kind == "exp":
            r = self.mul(self.diff({pay[0]: (pay[1], abs(pay[1]))}, var), self.apoly(a))
        elif kind == "S":
            r = self.diff(pay.p, var)
        else:
            raise Undiff("derivative of %s" % self.ashow(a))
        self.dmemo[k] = r
        return r

    # ---------------------------------------------------------------- sign analysis, closure
    def positive(self, p, nonneg=()):
        """every coefficient positive and every factor non-negative: p >= 0 (> 0 unless every term vanishes)"""
        return bool(p) and all(c > 0 and all(self.pos_atom(a, e) for a, e in m) for m, (c, g) in p.items())

    def pos_atom(self, a, e):
        k, pay = self.atoms[a]
        if k in ("sym", "exp", "ind", "abs"):
            return True
        if k == "S":
            if e % (2 * Q) == 0:
                return True
            r = self.dmemo.get(("pos", a))
            if r is None:
                r = self.dmemo[("pos", a)] = self.positive(pay.p)
            return r
        return False

    def closure(self, p, names):
        """replace the first fraction by one minus the others in terms linear in the fractions"""
        ids = [self.atom("sym", n, [n]) for n in names]
        s = set(ids)
        r = {}
        for m, (c, g) in p.items():
            if ids[0] in [a for a, e in m]:
                d = dict(m)
                if d[ids[0]] == Q and not any(a != ids[0] and self.asup[a] & self.xs for a in d):
                    del d[ids[0]]
                    rest = tuple(sorted(d.items()))
                    self.acc(r, {rest: (c, g)})
                    for x in ids[1:]:
                        self.acc(r, {self.mmul(rest, ((x, Q),))[0]: (-c, g)})
                    continue
            self.acc(r, {m: (c, g)})
        return r

    # ---------------------------------------------------------------- comparison / display
    def differ(self, p, q, tol=1e-9, closure=None):
        """p - q in normal form, without the monomials that rounding explains: {} means equal"""
        d = self.strip(self.sub(p, q), tol)
        if not d:
            return d
        if closure:
            d = self.strip(self.closure(d, closure), tol)
            if not d:
                return d
        d = self.strip(self.norm(d), tol)
        if closure and d:
            e = self.strip(self.closure(d, closure), tol)
            if e:
                d = self.vanish(d, tol)
                e = self.strip(self.closure(d, closure), tol)
            d = e
        return self.vanish(d, tol) if d else d

    def vanish(self, d, tol):
        """drops the terms C*[P == 0] where P divides C: they are zero whichever way the test goes"""
        for a in sorted({a for m in d for a, e in m if self.atoms[a][0] == "ind"}):
            n = self.atoms[a][1]
            if type(n) is not Node or n.op != "feq":
                continue
            u, v = n.a
            if v.op == "c" and v.a == 0:
                u, v = v, u
            if not (u.op == "c" and u.a == 0):
                continue
            try:
                p = self.norm(self.conv(v))
            except (TooBig, ValueError, KeyError):
                continue
            C = {tuple(t for t in m if t[0] != a): w for m, w in d.items() if any(b == a for b, e in m)}
            if p and self.divides(p, C, tol):
                d = {m: w for m, w in d.items() if all(b != a for b, e in m)}
        return d

    def divides(self, p, C, tol):
        """p*q == C for some q without poles (T and D are positive)"""
        xa = {self.aidx[("sym", n)] for n in self.xs if ("sym", n) in self.aidx}
        fac = set.intersection(*({b for b, e in m if b in xa and e > 0} for m in p))
        if not all(fac <= {b for b, e in m if e > 0} for m in C):
            return False
        if any(b not in xa and self.atoms[b][0] != "sym" for m in p for b, e in m):
            return False
        base = {b: min(dict(m).get(b, 0) for m in p) for b in {b for m in p for b, e in m}}
        p = {tuple(sorted((b, e) for b, e in ((b, dict(m).get(b, 0) - base[b]) for b in base) if e)): w for m, w in p.items()}
        if len(p) == 1:
            return True
        ats = sorted({b for m in list(p) + list(C) for b, e in m})

        def key(m):
            t = dict(m)
            return [t.get(b, 0) for b in ats]
        lead = max(p, key=key)
        inv = tuple((b, -e) for b, e in lead)
        C = dict(C)
        for _ in range(4 * len(C)):
            C = self.strip(C, tol)
            if not C:
                return True
            m = max(C, key=key)
            q = self.mmul(m, inv)[0]
            if any(e < 0 and b in xa for b, e in q):
                return False
            k = C.pop(m)[0] / p[lead][0]
            for pm, (c, g) in p.items():
                if pm != lead:
                    self.acc(C, {self.mmul(q, pm)[0]: (c * k, g * abs(k))}, -1.0)
        return False

    def strip(self, d, tol):
        return {m: v for m, v in d.items() if abs(v[0]) > tol * v[1]}

    def ashow(self, a, depth=2):
        k, p = self.atoms[a]
        if k == "sym":
            return p
        if depth <= 0:
            return "%s#%d" % (k, a)
        if k == "log":
            return "ln(%s)" % self.ashow(p, depth - 1)
        if k == "exp":
            return "exp[%.6g*%s]" % (p[1], self.mshow(p[0], depth - 1))
        if k == "S":
            return "(%s)" % self.show(p.p, depth - 1, 3)
        if k == "ind":
            return "[%r]" % (p,)
        if k == "abs":
            return "|%s|" % self.ashow(p, depth - 1)
        return "%s#%d" % (p[0] if type(p) is tuple else k, a)

    def mshow(self, m, depth=2):
        if not m:
            return "1"
        return "*".join(self.ashow(a, depth) + ("" if e == Q else "^%g" % (e / Q)) for a, e in m)

    def show(self, p, depth=2, limit=6):
        if not p:
            return "0"
        it = sorted(p.items(), key=lambda t: (-abs(t[1][0]), t[0]))
        s = " + ".join("%.10g*%s" % (v[0], self.mshow(m, depth)) for m, v in it[:limit])
        if len(it) > limit:
            s += " + ... (%d terms)" % len(it)
        return s


class SumKey:
    __slots__ = ("p", "i", "j")

    def __init__(self, p, i, j):
        self.p = p
        self.i = i
        self.j = j

    def __hash__(self):
        return hash((self.i, self.j))

    def __eq__(self, o):
        return self is o
