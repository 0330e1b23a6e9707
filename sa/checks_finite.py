"""S05: finite results over the whole physical range (interval analysis with presence conditions)"""
from checks_thermo import *
from checks_root import const_cmp
from floatcls import *
import floatcls
from cas import Q

BADF = NAN | NINF | PINF
TINY = 1e-14
XS = F(ZERO, None, (TINY, 1.02))
MAIN = F(0, None, (0.99 / 21, 1.02))
RANGE = {"T": F(0, None, (50.0, 2000.0)), "D": F(0, None, (1e-9, 50.0))}
NONZERO = NAN | NINF | PINF


def within(a, b):
    """values in both ranges (up to rounding of the second)"""
    def cut(x, y):
        if x is None or y is None:
            return None
        lo, hi = max(x[0], y[0] * (1 - 1e-9)), min(x[1], y[1] * (1 + 1e-9))
        return (lo, hi) if lo <= hi else None

    if b.f & BADF:
        return a
    return F(a.f & b.f & ZERO, cut(a.n, b.n), cut(a.p, b.p))


class Finite:
    """For every value: a range of its finite results, the condition (over which components are present and comparisons the ranges do
    not decide) under which it may be infinite or NaN, and the condition under which it may be zero."""

    def __init__(self, R, main):
        self.R, self.D, self.bdd = R, R.M.D, R.M.bdd
        self.xs = set(R.M.xsyms())
        self.main = main
        self.memo = {}
        self.bm = {}
        self.am = {}
        self.algebraic = 0
        self.origin = {}

    def present(self, x):
        return 1 if x == self.main else self.D.fcmp("lt", self.D.const(0.0), self.D.sym(x))

    def sym(self, name):
        if name in self.xs:
            p = self.present(name)
            return (MAIN if name == self.main else XS), 0, self.bdd.NOT(p)
        v = RANGE.get(name)
        if v is None:
            return TOP, 1, 1
        return v, 0, 0

    # ---- comparisons
    def cond(self, r):
        """the condition over presence atoms and undecided comparisons; the operands must have been evaluated"""
        if r in (0, 1):
            return r
        t = self.bm.get(r)
        if t is None:
            t = self.bm[r] = self.bdd.subst(r, self.atom)
        return t

    def needs(self, r):
        out = []
        if r in (0, 1) or r in self.bm:
            return out
        for v in self.bdd.support(r):
            n = self.D.atoms[v]
            if n.op in ("flt", "fle", "feq"):
                out += [y for y in n.a if type(y) is Node and y.k == "f" and y not in self.memo]
        return out

    def atom(self, v):
        t = self.am.get(v)
        if t is None:
            t = self.am[v] = self._atom(v)
        return t

    def _atom(self, v):
        bdd = self.bdd
        n = self.D.atoms[v]
        free = bdd.atom(v)
        if n.op not in ("flt", "fle", "feq") or any(type(y) is not Node or y.k != "f" for y in n.a):
            return free
        (a, ba, za), (b, bb, zb) = self.memo[n.a[0]], self.memo[n.a[1]]
        if ba or bb:
            return free

        def cmp(a, b):
            if a.lo() is None or b.lo() is None:
                return None
            if n.op == "flt":
                return True if a.hi() < b.lo() else False if a.lo() >= b.hi() else None
            if n.op == "fle":
                return True if a.hi() <= b.lo() else False if a.lo() > b.hi() else None
            if a.lo() == a.hi() == b.lo() == b.hi():
                return True
            return False if max(a.lo(), b.lo()) > min(a.hi(), b.hi()) else None

        def nz(a, z):
            return a if z == 0 else F(a.f & ~ZERO, a.n, a.p)

        t = cmp(a, b)
        if t is not None:
            return 1 if t else 0
        # one operand may be zero under a known condition
        for x, z, y, first in ((a, za, b, True), (b, zb, a, False)):
            if not x.f & ZERO or z in (0,) or not self.exact(n.a[0] if first else n.a[1]):
                continue
            zero, rest = F(ZERO), F(x.f & ~ZERO, x.n, x.p)
            t0 = cmp(zero, y) if first else cmp(y, zero)
            t1 = cmp(rest, y) if first else cmp(y, rest)
            if t0 is not None and t1 is not None and t0 != t1:
                return z if t0 else bdd.NOT(z)
            if t0 is not None and t0 == t1:
                return 1 if t0 else 0
        return free

    def exact(self, n):
        """is the zero condition of the value exact: a fraction, or its magnitude, sign change or constant multiple"""
        while n.op in ("abs", "neg"):
            n = n.a[0]
        return n.op == "sym" and n.a[0] in self.xs

    # ---- values
    def value(self, n):
        m = self.memo
        st = [n]
        while st:
            x = st[-1]
            if x in m:
                st.pop()
                continue
            if x.op == "c":
                v = const(x.a) if type(x.a) is float else TOP
                m[x] = (F(v.f & ZERO, v.n, v.p), 1 if v.f & BADF else 0, 1 if v.f & ZERO else 0)
                continue
            if x.op == "sym":
                m[x] = self.sym(x.a[0])
                continue
            if x.op == "ite":
                need = self.needs(x.a[0])
                if need:
                    st.extend(need)
                    continue
                c = self.cond(x.a[0])
                k = [(y, b) for y, b in ((x.a[1], c), (x.a[2], self.bdd.NOT(c))) if b != 0]
                need = [y for y, b in k if type(y) is Node and y not in m]
                if need:
                    st.extend(need)
                    continue
                f, bad, zero = None, 0, 0
                for y, b in k:
                    v, vb, vz = m[y]
                    f = v if f is None else join(f, v)
                    bad = self.bdd.OR(bad, self.bdd.AND(b, vb))
                    zero = self.bdd.OR(zero, self.bdd.AND(b, vz))
                m[x] = f, bad, zero
                continue
            need = [y for y in x.a if type(y) is Node and y not in m]
            if need:
                st.extend(need)
                continue
            m[x] = self.op(x)
            if m[x][1] and not any(type(y) is Node and m[y][1] for y in x.a):
                self.origin[x] = m[x][1]
        return m[n]

    def op(self, x):
        bdd = self.bdd
        k = [self.memo[y] if type(y) is Node else (y, 0, 0) for y in x.a]
        bad = 0
        for _, b, _ in k:
            bad = bdd.OR(bad, b)
        if bad == 1:
            return TOP, 1, 1
        o = x.op
        fs = [f for f, _, _ in k]
        nz = [F(f.f & ~ZERO, f.n, f.p) if isinstance(f, F) else f for f in fs]
        zs = [z for _, _, z in k]
        if o == "add" or o == "sub":
            a, b = fs[0], fs[1] if o == "add" else neg(fs[1])
            r = add(a, b)
            if x.a[0] is x.a[1] and o == "sub":
                return F(ZERO), bad, 1
            if not (a.n or b.n) or not (a.p or b.p):
                zero = bdd.AND(zs[0], zs[1])
            else:
                zero = 1 if r.f & ZERO else 0
        elif o == "mul":
            if x.a[0] is x.a[1]:
                r, u = pow_(fs[0], 2.0), pow_(nz[0], 2.0)
            else:
                r, u = mul(*fs), mul(*nz)
            zero = 1 if u.f & ZERO else bdd.OR(*zs)
        elif o == "div":
            bad = bdd.OR(bad, zs[1])
            r, u = div(fs[0], nz[1]), div(nz[0], nz[1])
            q = self.ratio(x.a[0], x.a[1])
            if q is not None:
                r, u = within(r, q), within(u, q)
            zero = 1 if u.f & ZERO else zs[0]
        elif o in ("neg", "abs"):
            r, zero = {"neg": neg, "abs": fabs}[o](fs[0]), zs[0]
        elif o == "exp":
            r = exp(fs[0])
            zero = 1 if r.f & ZERO else 0
        elif o == "log" or o == "sqrt" or o in ("pow", "powi"):
            a, base = fs[0], x.a[0]
            y = None
            if o == "powi" and type(fs[1]) is int:
                y = float(fs[1])
            elif o == "pow" and x.a[1].op == "c":
                y = x.a[1].a
            if o == "log" or o == "sqrt" or y is not None and (y != math.floor(y) or y < 0):
                if a.n:
                    a, zs[0] = self.positive(base, a, zs[0])
                    nz[0] = F(a.f & ~ZERO, a.n, a.p)
            if o == "log":
                bad = bdd.OR(bad, zs[0])
                r = log(nz[0])
                zero = 1 if r.f & ZERO else 0
            elif o == "sqrt":
                r, zero = sqrt(a), zs[0]
            elif y is None:
                # a variable exponent: by logarithm
                if a.n or fs[1].n is None and fs[1].p is None:
                    return TOP, 1, 1
                bad = bdd.OR(bad, zs[0])
                r = exp(mul(fs[1], log(nz[0])))
                zero = 1 if r.f & ZERO else 0
            elif y < 0:
                bad = bdd.OR(bad, zs[0])
                r = pow_(nz[0], y)
                zero = 1 if r.f & ZERO else 0
            else:
                r, u = pow_(a, y), pow_(nz[0], y)
                zero = 1 if y and u.f & ZERO else zs[0] if y else 0
        else:
            return TOP, 1, 1
        if r.f & BADF:
            bad = 1
        return F(r.f & ZERO, r.n, r.p), bad, zero

    def linear(self, n, k=1.0, out=None):
        """a sum of positive multiples of values that are not negative, as {value: factor}"""
        out = {} if out is None else out
        if n.op == "add":
            return out if all(self.linear(y, k, out) is not None for y in n.a) else None
        if n.op == "mul":
            for a, b in (n.a, n.a[::-1]):
                if a.op == "c" and a.a > 0:
                    return self.linear(b, k * a.a, out)
        if n.op == "div" and n.a[1].op == "c" and n.a[1].a > 0:
            return self.linear(n.a[0], k / n.a[1].a, out)
        if n.op != "sym" or self.value(n)[0].n:
            return None
        out[n] = out.get(n, 0.0) + k
        return out

    def ratio(self, num, den):
        """num / den when den is a sum of fractions and one factor of num is a sum of the same fractions"""
        if den.op != "add" and den.op != "mul":
            return None
        d = self.linear(den)
        if not d:
            return None
        fac, todo = [], [num]
        while todo:
            y = todo.pop()
            if y.op == "mul" and self.linear(y) is None:
                todo += y.a
            else:
                fac.append(y)
        for i, y in enumerate(fac):
            l = self.linear(y)
            if l and l.keys() == d.keys():
                q = [l[v] / d[v] for v in l]
                r = F(0, None, (min(q) * (1 - 1e-12), max(q) * (1 + 1e-12)))
                for j, z in enumerate(fac):
                    if j != i:
                        r = mul(r, self.value(z)[0])
                return r
        return None

    def positive(self, n, a, z):
        """a sum that is a polynomial with positive coefficients in the mole fractions is not negative"""
        C = self.R.C
        p = C.norm(C.conv(n))
        self.algebraic += 1
        low = None
        zero = 1
        for m, (c, mag) in p.items():
            if not c > 0 or mag > 1e6 * c:
                return a, z
            lo, here = c * (1 - 1e-6), 1
            for at, e in m:
                b = self.factor(at, e)
                if b is None:
                    return a, z
                l, there = b
                lo *= l
                here = self.bdd.AND(here, there)
            low = lo if low is None else min(low, lo)
            zero = self.bdd.AND(zero, self.bdd.NOT(here))
        if low is None:
            return a, z
        if not low > 0:
            low = MINF
        return F(ZERO if zero else 0, None, (low, a.p[1] if a.p else low)), zero

    def factor(self, at, e):
        """(a lower bound where it is not zero, condition under which it is certainly not zero) of a factor that is never negative"""
        C = self.R.C
        kind, what = C.atoms[at]
        if kind == "sym" and what in self.xs and e > 0:
            low = MAIN.p[0] if what == self.main else TINY
            return low ** (e / Q), self.present(what)
        if kind == "ind" and type(what) is tuple and what[0] == "present":
            return 1.0, self.present(what[1])
        return None


CELLS = ("p", "z", "u", "h", "s", "g", "cv", "dp_dd", "dp_dt", "d2p_dd2", "d2p_dtd", "mm")


def outputs(P, mod, density):
    """(run, operation, [(name, value)]) of the operations that compute at the current density"""
    R = Run(P, mod, density=density)
    yield R, "properties", [(f, R.node(f)) for f in CELLS]
    M = Machine(P, Model(P, mod))
    v, c0 = start(M)
    if density is not None:
        v = M.setf(v, d=M.D.const(density))
    M.I.events = []
    rv, post, ex = M.call("pressure", v, cond=c0)

    class Other:
        pass

    O = Other()
    O.M, O.C = M, algebra(M)
    yield O, "pressure", [("the result", under(M.D, rv, c0)), ("z", under(M.D, M.getf(post, "z"), c0))]
    if density is None:
        rv, post, ex = M.call("molar_mass", v, cond=c0)
        yield O, "molar_mass", [("mm", under(M.D, M.getf(post, "mm"), c0))]


def s05(rep, tier):
    P = extract()
    n = values = algebraic = 0
    for mod in ("Detail", "Gerg2008"):
        for density in (None, 0.0):
            for R, op, outs in outputs(P, mod, density):
                w = "%s::%s" % (mod, op)
                where = "" if density is None else " at zero density"
                worst = {}
                for main in sorted(R.M.xsyms()):
                    E = Finite(R, main)
                    for name, node in outs:
                        if type(node) is not Node:
                            worst.setdefault(name, "unknown value %r" % (node,))
                            continue
                        f, bad, zero = E.value(node)
                        n += 1
                        if bad and name not in worst:
                            worst[name] = blame(E, node, main)
                    values += len(E.memo)
                    algebraic += E.algebraic
                for name, _ in outs:
                    rep.ob(name not in worst, "%s: %s is a finite number%s" % (w, name, where), w, worst.get(name, ""))
    rep.cover.update(values=values, obligations_per_main_component=n, positive_polynomials=algebraic,
                     range="50 <= T <= 2000 K, 0 and 1e-9..50 mol/l, each fraction 0 or 1e-14..1.02, largest at least 0.99/21")


def blame(E, node, main):
    """an operation inside the value that may give NaN or infinity in the range"""
    bdd = E.bdd
    best, cur = node, E.memo[node][1]
    while True:
        kids = []
        if best.op == "ite":
            c = E.cond(best.a[0])
            kids = [(best.a[1], bdd.AND(cur, c)), (best.a[2], bdd.AND(cur, bdd.NOT(c)))]
        else:
            kids = [(y, cur) for y in best.a if type(y) is Node] if type(best.a) is tuple else []
        for y, c in kids:
            c = bdd.AND(c, E.memo[y][1]) if type(y) is Node and y in E.memo else 0
            if c != 0:
                best, cur = y, c
                break
        else:
            break
    if best.op in ("ite", "sym", "c"):
        best = None
    if best is None:
        return "may be infinite or NaN when %s is the largest fraction" % main
    ops = ", ".join(repr(E.memo[y][0]) for y in best.a if type(y) is Node)
    return "%s of %s may be infinite or NaN%s: %s" % (best.op, ops, "" if cur == 1 else " when " + E.D.bshow(cur)[:200], str(best)[:200])


CHECKS = {"S05": s05}
