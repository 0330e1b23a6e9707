"""The published equations, written down independently of the code under test, in the algebra the code's values are
converted to. Coefficients come from the frozen tables in /verif/ref."""
import math
from cas import Q
from core import COMPONENTS


class Build:
    def __init__(self, C):
        self.C = C

    def k(self, v):
        return self.C.const(v)

    def s(self, n):
        return self.C.sym(n)

    def x(self, n, present):
        """the fraction of a component; the zero polynomial when the component is absent"""
        return self.s("x_" + n) if present is None or "x_" + n in present else {}

    def mul(self, *ps):
        r = ps[0]
        for p in ps[1:]:
            r = self.C.mul(r, p)
        return r

    def pw(self, p, e):
        return self.C.power(p, round(e * Q))

    def sum(self, ps):
        r = {}
        for p in ps:
            r = self.C.add(r, p)
        return r

    def comp(self, ps):
        """a sum over compositions"""
        return self.C.wrap(self.sum(ps))

    def ideal_sum(self, X, T, D, d0, n, theta):
        """sum x_i [ln(D/d0) + ln x_i + n1 + n2/T - n3 ln T + hyperbolic terms]; theta: [(coefficient, theta, kind)]"""
        C = self.C
        lnT, lnD = C.log(T), C.log(D)
        out = {}
        for i, x in enumerate(X):
            t = C.sub(C.add(lnD, C.log(x)), self.k(math.log(d0)))
            n1, n2, n3 = n[i]
            t = C.add(t, self.k(n1))
            t = C.add(t, C.scale(self.pw(T, -1), n2))
            t = C.add(t, C.scale(lnT, -n3))
            for c, th, kind in theta[i]:
                e = C.exp(C.scale(self.pw(T, -1), th))
                em = self.pw(e, -1)
                if kind == "sinh":
                    t = C.add(t, C.scale(C.log(C.abs(C.scale(C.sub(e, em), 0.5))), c))
                else:
                    t = C.add(t, C.scale(C.log(C.abs(C.scale(C.add(e, em), 0.5))), -c))
            out = C.add(out, C.mul(x, t))
        return out


def detail(C, ref, present=None):
    """AGA 8 Part 1: molar Helmholtz energy [J/mol], ideal and residual part"""
    B = Build(C)
    c = ref["consts"]
    n0 = ref["assign"]["n0i"]
    R = c["RDETAIL"]
    X = [B.x(n, present) for n in COMPONENTS]
    T, D = B.s("T"), B.s("D")
    N = len(X)
    par = {n: [c[n + "I"][i] for i in range(N)] for n in "EKGQFSW"}
    # ideal gas
    g = lambda i, j: n0["%d,%d" % (i, j)]
    theta = []
    for i in range(N):
        l = []
        for j, kind in ((3, "sinh"), (4, "cosh"), (5, "sinh"), (6, "cosh")):
            th = c["TH0I"][i][j]
            if th > 0 and g(i, j) != 0:
                l.append((g(i, j), th, kind))
        theta.append(l)
    a0 = B.ideal_sum(X, T, D, 101.325 / R / 298.15, [(g(i, 0), g(i, 1), g(i, 2) - 1.0) for i in range(N)], theta)
    # mixture parameters
    def quad(p, pair, power):
        """(sum x p^power)^2 + 2 sum_{i<j} x x (pair^(2 power) - 1) (p p)^power"""
        l = B.sum([C.scale(X[i], p[i] ** power) for i in range(N)])
        sq = C.mul(C.wrap(l), C.wrap(l))
        rest = [C.scale(B.mul(X[i], X[j]), 2.0 * (pair[i][j] ** (2 * power) - 1.0) * (p[i] * p[j]) ** power) for i in range(N) for j in range(i + 1, N)]
        return B.sum([sq] + rest)
    K3 = B.pw(quad(par["K"], c["KIJ"], 2.5), 0.6)
    U = B.pw(quad(par["E"], c["UIJ"], 2.5), 0.2)
    G = B.comp([C.scale(X[i], par["G"][i]) for i in range(N)] +
               [C.scale(B.mul(X[i], X[j]), (c["GIJ"][i][j] - 1.0) * (par["G"][i] + par["G"][j])) for i in range(N) for j in range(i + 1, N)])
    Qm = B.comp([C.scale(X[i], par["Q"][i]) for i in range(N)])
    F = B.comp([C.scale(B.mul(X[i], X[i]), par["F"][i]) for i in range(N)])
    Dr = B.mul(K3, D)
    # second virial coefficient, term by term
    def bnij(n, i, j):
        e = c["EIJ"][i][j] * math.sqrt(par["E"][i] * par["E"][j])
        v = c["AN"][n] * e ** c["UN"][n] * (par["K"][i] * par["K"][j]) ** 1.5
        gij = c["GIJ"][i][j] * (par["G"][i] + par["G"][j]) / 2.0
        for flag, w in (("GN", gij), ("QN", par["Q"][i] * par["Q"][j]), ("FN", par["F"][i] * par["F"][j]), ("SN", par["S"][i] * par["S"][j]), ("WN", par["W"][i] * par["W"][j])):
            if c[flag][n]:
                v *= w
        return v
    terms = []
    for n in range(18):
        b = B.comp([C.scale(B.mul(X[i], X[j]), (1.0 if i == j else 2.0) * bnij(n, i, j)) for i in range(N) for j in range(i, N)])
        terms.append(B.mul(b, D, B.pw(T, -c["UN"][n])))
    for n in range(12, 58):
        cn = C.scale(B.pw(U, c["UN"][n]), c["AN"][n])
        if c["GN"][n]:
            cn = C.mul(cn, G)
        if c["QN"][n]:
            cn = B.mul(cn, Qm, Qm)
        if c["FN"][n]:
            cn = C.mul(cn, F)
        cn = C.mul(cn, B.pw(T, -c["UN"][n]))
        if n < 18:
            terms.append(C.scale(C.mul(cn, Dr), -1.0))
        t = C.mul(cn, B.pw(Dr, c["BN"][n]))
        if c["KN"][n]:
            t = C.mul(t, C.exp(C.scale(B.pw(Dr, c["KN"][n]), -1.0)))
        terms.append(t)
    ar = B.sum(terms)
    RT = C.scale(T, R)
    return C.mul(RT, a0), C.mul(RT, ar)


def gerg(C, ref, present=None):
    """GERG-2008: molar Helmholtz energy [J/mol], ideal and residual part"""
    B = Build(C)
    c, a = ref["consts"], ref["assign"]
    R = c["RGERG"]
    RS = c["RS"] / R
    X = [None] + [B.x(n, present) for n in COMPONENTS]
    T, D = B.s("T"), B.s("D")
    N = 21
    DC, TC = c["DC"], c["TC"]
    at = lambda n, *i: a[n][",".join(map(str, i))]
    # ideal gas
    theta, lin = [], []
    for i in range(1, N + 1):
        l = []
        for j, kind in ((4, "sinh"), (5, "cosh"), (6, "sinh"), (7, "cosh")):
            th = c["TH0I"][i][j]
            if th > 0 and at("n0i", i, j) != 0:
                l.append((RS * at("n0i", i, j), th, kind))
        theta.append(l)
        lin.append((RS * at("n0i", i, 1), RS * (at("n0i", i, 2) + 298.15) - 298.15, RS * (at("n0i", i, 3) - 1.0)))
    a0 = B.ideal_sum(X[1:], T, D, 101.325 / R / 298.15, lin, theta)
    # reducing functions
    vt, tt = [], []
    for i in range(1, N + 1):
        for j in range(i, N + 1):
            if i == j:
                vt.append(C.scale(B.mul(X[i], X[i]), 1.0 / DC[i]))
                tt.append(C.scale(B.mul(X[i], X[i]), TC[i]))
                continue
            s = C.wrap(C.add(X[i], X[j]))
            xx = C.scale(B.mul(X[i], X[j], s), 2.0)
            bv, bt = at("bvij", i, j), at("btij", i, j)
            v = bv * at("gvij", i, j) * (DC[i] ** (-1.0 / 3) + DC[j] ** (-1.0 / 3)) ** 3 / 8.0
            t = bt * at("gtij", i, j) * math.sqrt(TC[i] * TC[j])
            vt.append(C.scale(C.mul(xx, B.pw(C.add(C.scale(X[i], bv * bv), X[j]), -1)), v))
            tt.append(C.scale(C.mul(xx, B.pw(C.add(C.scale(X[i], bt * bt), X[j]), -1)), t))
    Vr, Tr = B.comp(vt), B.comp(tt)
    de = C.mul(D, Vr)
    tau = C.mul(Tr, B.pw(T, -1))
    # pure fluids
    terms = []
    for i in range(1, N + 1):
        n1, n2 = c["KPOL"][i], c["KEXP"][i]
        for k in range(1, n1 + n2 + 1):
            def e(n):
                v = a[n].get("%d,%d" % (i, k))
                if v is None:
                    v = a["full" if i in (1, 2, 4) else "short"][n][str(k)]
                return v
            t = C.scale(B.mul(X[i], B.pw(de, e("doik")), B.pw(tau, e("toik"))), c["NOIK"][i][k])
            if k > n1:
                t = C.mul(t, C.exp(C.scale(B.pw(de, e("coik")), -1.0)))
            terms.append(t)
    # departure functions
    for i in range(1, N + 1):
        for j in range(i + 1, N + 1):
            m = c["MNUMB"][i][j]
            if not m:
                continue
            xf = C.scale(B.mul(X[i], X[j]), c["FIJ"][i][j])
            n1, n2 = c["KPOLIJ"][m], c["KEXPIJ"][m]
            for k in range(1, n1 + n2 + 1):
                t = C.scale(B.mul(xf, B.pw(de, at("dijk", m, k)), B.pw(tau, at("tijk", m, k))), at("nijk", m, k))
                if k > n1:
                    eta, eps, beta, gam = at("cijk", m, k), at("eijk", m, k), at("bijk", m, k), at("gijk", m, k)
                    q = C.sub(de, B.k(eps))
                    x = C.add(C.scale(C.mul(q, q), -eta), C.scale(C.sub(de, B.k(gam)), -beta))
                    t = C.mul(t, C.exp(x))
                terms.append(t)
    ar = B.sum(terms)
    RT = C.scale(T, R)
    return C.mul(RT, a0), C.mul(RT, ar)
