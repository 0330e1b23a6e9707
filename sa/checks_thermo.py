"""T01..T05: thermodynamic identities between the values the operations compute"""
from state import *
import time
from checks_root import Search

EPSV = 1e-9


class Run:
    """properties() of a fresh model with unknown inputs, in algebraic form"""

    def __init__(self, P, mod, density=None, present=None):
        self.mod = mod
        self.M = M = Machine(P, Model(P, mod))
        D = M.D
        v, self.c0 = start(M)
        if present is not None:
            v, self.c0 = restrict(M, v, present)
        if density is not None:
            v = M.setf(v, d=D.const(density))
        self.pre = v
        M.I.events = []
        self.rv, self.post, self.ex = M.call("properties", v, cond=self.c0)
        self.C = algebra(M)
        if present is not None:
            # every component that is not absent is present
            self.C.names = sorted(present)
            self.C.present = lambda node: None
            self.C.truth = opfacts(M, {x: (1e-9, True, 1.0, False) for x in present})
        self.memo = {}
        self.parts = False
        self.w = "%s::properties" % mod

    def node(self, f):
        if f == "p" and type(self.rv) is Node:
            n = self.rv
        else:
            n = self.M.getf(self.post, f)
        return under(self.M.D, n, self.c0, self.memo)

    def poly(self, f):
        return self.C.conv(self.node(f))


def restrict(M, v, present):
    """the same state with every component outside `present` absent (fraction exactly zero)"""
    D = M.D
    c = 1
    l = []
    for x in M.getf(v, "x"):
        if type(x) is Node and x.op == "sym" and x.a[0] not in present:
            x = D.const(0.0)
        l.append(x)
    for n in present:
        c = M.bdd.AND(c, M.bdd.NOT(D.fcmp("eq", D.sym(n), D.const(0.0))))
    c = M.bdd.AND(c, M.bdd.NOT(D.fcmp("eq", D.sym("T"), D.const(0.0))))
    return M.setf(v, x=tuple(l)), c


def deep(C, p, out=None):
    """every atom of a polynomial, inside sums and exponentials as well"""
    out = set() if out is None else out
    for m in p:
        for a, e in m:
            if a not in out:
                out.add(a)
                k, q = C.atoms[a]
                for x in (q.p,) if k == "S" else q if type(q) is tuple else (q,):
                    if type(x) is dict:
                        deep(C, x, out)
    return out


def ident(rep, R, what, p, q, where=None):
    d = R.C.differ(p, q, EPSV, closure=R.C.names)
    if d and R.parts and any(R.C.atoms[a][0] == "ind" for a in deep(R.C, d)):
        return False  # cases the algebra does not tell apart
    rep.ob(not d, "%s: %s" % (R.mod, what), where or R.w, "difference: " + R.C.show(d, 2, 4) if d else "")
    return not d


class Abbrev:
    """names for long polynomials: later occurrences (up to a monomial factor) become one symbol"""

    def __init__(self, C):
        self.C = C
        self.by = {}
        C.lookup = self.find

    def key(self, p):
        c, com, q = self.C.content(p)
        return c, com, q

    def add(self, name, p):
        """returns the polynomial of the name"""
        s = self.C.sym(name)
        self.C.memo.clear()
        self.C.summemo.clear()
        if len(p) > 4:
            self.by.setdefault(len(p), []).append((p, self.key(p), s))
        return s

    def find(self, p):
        l = self.by.get(len(p))
        if not l:
            return p
        C = self.C
        for q, (c0, com0, q0), s in l:
            c, com, r = self.key(p)
            if r.keys() != q0.keys():
                continue
            k = c / c0
            if all(abs(v[0] / c - q0[m][0] / c0) <= 1e-10 * max(v[1] / abs(c), q0[m][1] / abs(c0)) for m, v in r.items()):
                inv = tuple((a, -e) for a, e in com0)
                m, _ = C.mmul(com, inv)
                return C.mul({m: (k, abs(k))}, s)
        return p


def sign_case(R, W, positive):
    """decide comparisons of (a positive multiple of) the squared speed of sound with zero"""
    C = R.C
    base = C.truth
    (m0, (k0, _)), = W.items()

    def truth(node):
        t = base(node)
        if t is not None or node.op not in ("flt", "fle", "feq"):
            return t
        a, b = node.a
        for x, y, s in ((a, b, 1), (b, a, -1)):
            if y.op == "c" and y.a == 0:
                p = C.box(C.conv(x))
                if len(p) == 1 and next(iter(p)) == m0:
                    neg = (p[m0][0] / k0 < 0) == positive
                    if node.op == "feq":
                        return False
                    return neg if s == 1 else not neg
        return None

    return truth


def tcheck(rep, mod):
    P = extract()
    by_parts(rep, P, mod, lambda: identities(rep, Run(P, mod)), lambda R, present: identities(rep, R))


def by_parts(rep, P, mod, full, part):
    """full(); if the general mixture is out of reach, looks for a violation in mixtures of few components (whose absence proves nothing)"""
    try:
        full()
    except (TooBig, Undiff):
        if rep.violations:
            return
        names = ["x_" + n for n in COMPONENTS]
        pairs = [(a, b) for i, a in enumerate(names) for b in names[i + 1:]]
        t0 = time.time()
        for present in pairs[:20] + [(a,) for a in names] + pairs[20::9]:
            try:
                R = Run(P, mod, present=list(present))
                R.w += " (only %s present)" % " and ".join(x[2:] for x in present)
                R.parts = True
                part(R, set(present))
            except (TooBig, Undiff, Undecided):
                pass
            if rep.violations:
                return
            if time.time() - t0 > 300:
                break
        raise


def identities(rep, R):
    C, M, mod = R.C, R.M, R.mod
    events_ob(rep, M.I.events, R.w)
    Rg = R.M.m.R
    T, D = C.sym("T"), C.sym("D")
    inv = lambda p: C.power(p, -Q)
    g = {f: R.poly(f) for f in ("u", "s", "p", "z", "cv", "dp_dd", "dp_dt", "d2p_dd2", "d2p_dtd", "h", "g", "mm")}
    n0 = rep.done
    a = C.sub(g["u"], C.mul(T, g["s"]))
    press = C.mul(C.mul(D, D), C.diff(a, "D"))
    ident(rep, R, "pressure is D^2 (d/dD)(u - T s)", press, g["p"])
    ident(rep, R, "entropy is -(d/dT)(u - T s)", C.scale(C.diff(a, "T"), -1.0), g["s"])
    ident(rep, R, "isochoric heat capacity is (d/dT) u", C.diff(g["u"], "T"), g["cv"])
    ident(rep, R, "compressibility factor is p/(D R T)", C.mul(g["p"], inv(C.scale(C.mul(T, D), Rg))), g["z"])
    ident(rep, R, "dp_dd is (d/dD) p", C.diff(g["p"], "D"), g["dp_dd"])
    ident(rep, R, "dp_dt is (d/dT) p", C.diff(g["p"], "T"), g["dp_dt"])
    ident(rep, R, "d2p_dd2 is (d/dD)^2 p", C.diff(C.diff(g["p"], "D"), "D"), g["d2p_dd2"])
    if mod == "Gerg2008":
        ident(rep, R, "d2p_dtd is (d/dD)(d/dT) p", C.diff(C.diff(g["p"], "D"), "T"), g["d2p_dtd"])
    pv = C.mul(g["p"], inv(D))
    ident(rep, R, "enthalpy is u + p/D", C.add(g["u"], pv), g["h"])
    ident(rep, R, "Gibbs energy is u + p/D - T s", C.add(a, pv), g["g"])
    terms = {f: len(p) for f, p in g.items()}
    cv, dd, dt, z, mm = abbreviate(R, g)
    x = C.mul(dt, inv(D))
    cpw = C.add(cv, C.mul(C.mul(T, C.mul(x, x)), inv(dd)))
    ident(rep, R, "cp is cv + T (dp_dt/D)^2 / dp_dd", R.poly("cp"), cpw)
    cp = C.box(cpw)
    jt = C.mul(C.sub(C.mul(C.mul(T, inv(D)), C.mul(dt, inv(dd))), C.const(1)), inv(C.mul(cp, D)))
    ident(rep, R, "Joule-Thomson coefficient is (T/D dp_dt/dp_dd - 1)/(cp D)", R.poly("jt"), jt)
    sound(rep, R, cp, cv, dd, mm, z, T)
    rep.cover.update(functions=sorted(f for f in M.I.fn_seen if f.startswith("aga8")), terms=terms, assumed=sorted(C.assumed))


def abbreviate(R, g):
    """relations that are not linear in the energy: the quantities they link become symbols"""
    C = R.C
    A = Abbrev(C)
    r = [A.add(f, g[f]) for f in ("cv", "dp_dd", "dp_dt", "z", "mm")]
    for f in ("cv", "dp_dd", "dp_dt", "z", "mm"):
        C.special[R.node(f)] = C.sym(f)
    return r


def sound(rep, R, cp, cv, dd, mm, z, T, squares=True):
    C = R.C
    inv = lambda p: C.power(p, -Q)
    W = C.box(C.scale(C.mul(C.mul(cp, dd), inv(C.mul(cv, mm))), 1000.0))
    truth0 = C.truth
    for pos in (True, False)[not squares:]:
        C.truth = sign_case(R, W, pos)
        C.memo.clear()
        C.summemo.clear()
        C.indmemo.clear()
        w, k = R.poly("w"), R.poly("kappa")
        if pos:
            ident(rep, R, "squared speed of sound is 1000 cp/cv dp_dd/mm", C.mul(w, w), W)
            ident(rep, R, "speed of sound is the square root of its square", w, C.power(W, Q // 2))
            ident(rep, R, "isentropic exponent is w^2 mm/(1000 R T z)", k, C.mul(W, C.mul(mm, inv(C.scale(C.mul(T, z), 1000.0 * R.M.m.R)))))
        else:
            ident(rep, R, "speed of sound is zero when its square would be negative", w, {})
            ident(rep, R, "isentropic exponent is zero with the speed of sound", k, {})
        C.truth = truth0
        C.memo.clear()
        C.summemo.clear()
        C.indmemo.clear()


def t01(rep, tier):
    tcheck(rep, "Detail")


def t02(rep, tier):
    tcheck(rep, "Gerg2008")


# ------------------------------------------------------------------------------------------- ideal-gas limit
def limit(C, p, what):
    """value of a polynomial as D -> 0: (terms without D, coefficient of ln D)"""
    sd = C.atom("sym", "D", ["D"])
    ld = C.atom("log", sd, ["D"])
    rest, coef = {}, {}
    for m, v in p.items():
        d = dict(m)
        e = d.pop(sd, 0)
        l = d.pop(ld, 0)
        others = [a for a in d if "D" in C.asup[a]]
        if e > 0:
            if any(C.atoms[a][0] not in ("exp",) for a in others) or l < 0:
                raise Undecided("limit of %s in %s" % (C.mshow(m), what))
            for a in others:
                # exponentials of negative powers or positive multiples of D^k, k > 0, stay bounded
                mono, c = C.atoms[a][1]
                if any(b == sd and ee < 0 for b, ee in mono):
                    raise Undecided("limit of %s in %s" % (C.mshow(m), what))
            continue
        if e < 0 or others:
            return None, C.mshow(m)
        if l == 0:
            C.acc(rest, {m: v})
        elif l == Q:
            C.acc(coef, {tuple(sorted(d.items())): v})
        else:
            return None, C.mshow(m)
    return rest, coef


def t03(rep, tier):
    P = extract()
    fns = set()
    for mod in ("Detail", "Gerg2008"):
        R = Run(P, mod)
        Z = Run(P, mod, 0.0)
        # both runs in one algebra: rebuild the symbolic run's values in the algebra of the other machine
        M, C = Z.M, Z.C
        events_ob(rep, M.I.events, R.w + " at density zero")
        Rg = M.m.R
        T = C.sym("T")
        RT = C.scale(T, Rg)
        g = {f: Z.poly(f) for f in ("u", "s", "p", "z", "cv", "dp_dd", "dp_dt", "h", "g", "mm")}
        one = C.const(1)
        ident(rep, Z, "compressibility factor is one at density zero", g["z"], one)
        ident(rep, Z, "pressure is zero at density zero", g["p"], {})
        ident(rep, Z, "dp_dd is R T at density zero", g["dp_dd"], RT)
        ident(rep, Z, "dp_dt is zero at density zero", g["dp_dt"], {})
        ident(rep, Z, "enthalpy is u + R T at density zero", g["h"], C.add(g["u"], RT))
        ident(rep, Z, "Gibbs energy is u - T s + R T at density zero", g["g"], C.add(C.sub(g["u"], C.mul(T, g["s"])), RT))
        # the symbolic run in the same algebra
        v2, c2 = start(M, None)
        rv2, post2, _ = M.call("properties", v2, cond=c2)
        R = Z
        memo = {}
        sym = {f: C.conv(under(M.D, M.getf(post2, f), c2, memo)) for f in ("u", "s", "cv", "z", "dp_dd")}
        for f, name in (("u", "internal energy"), ("cv", "isochoric heat capacity"), ("z", "compressibility factor"), ("dp_dd", "slope of the pressure")):
            lim, co = limit(C, sym[f], f)
            if lim is None:
                rep.ob(False, "%s: %s has a finite ideal-gas limit" % (mod, name), R.w, "diverging term %s" % co)
                continue
            rep.ob(not co, "%s: %s has no logarithmic divergence" % (mod, name), R.w, C.show(co))
            ident(rep, Z, "%s at density zero is its ideal-gas limit" % name, g[f], lim)
        lim, co = limit(C, sym["s"], "s")
        if lim is None:
            rep.ob(False, "%s: entropy has a finite residual limit" % mod, R.w, "diverging term %s" % co)
        else:
            ident(rep, Z, "entropy grows like -R ln D as D -> 0", co, C.scale(one, -Rg))
            d = C.differ(g["s"], lim, closure=C.names)
            rest = C.strip(C.closure(d, C.names), 1e-9)
            rep.ob(all(m == ONE for m in rest), "%s: entropy at density zero is its ideal-gas limit up to the constant from the floor of ln D" % mod, R.w, C.show(rest))
        A = Abbrev(C)
        cv, mm = A.add("cv", g["cv"]), A.add("mm", g["mm"])
        for f in ("cv", "mm"):
            C.special[Z.node(f)] = C.sym(f)
        cp = C.add(C.sym("cv"), C.const(Rg))
        ident(rep, Z, "cp is cv + R at density zero", Z.poly("cp"), cp)
        sound(rep, Z, C.box(cp), C.sym("cv"), RT, C.sym("mm"), one, T)
        # the pressure operation
        v, c0 = start(M)
        v = M.setf(v, d=M.D.const(0.0))
        rv, post, ex = M.call("pressure", v, cond=c0)
        C2 = algebra(M)
        Z.C = C2
        w = "%s::pressure" % mod
        ident(rep, Z, "pressure() is zero at density zero", C2.conv(under(M.D, rv, c0)), {}, w)
        ident(rep, Z, "pressure() leaves compressibility factor one at density zero", C2.conv(under(M.D, M.getf(post, "z"), c0)), C2.const(1), w)
        fns |= {f for f in M.I.fn_seen if f.startswith("aga8")}
    rep.cover.update(functions=sorted(fns))


# ------------------------------------------------------------------------------------------- speed of sound
def nonneg(D, n, cond, strict, memo=None):
    """None if the value is not negative on executions satisfying cond (strict: and not NaN of a negative square);
    else the offending node"""
    bdd = D.bdd
    if type(n) is not Node:
        return None if type(n) is int and n >= 0 else n
    if n.op == "c":
        return n if n.a < 0 else None
    if n.op == "abs" or (n.op == "mul" and n.a[0] is n.a[1]) or (n.op == "powi" and type(n.a[1]) is int and n.a[1] % 2 == 0):
        return None
    if n.op == "sqrt":
        return nonneg(D, n.a[0], cond, True)
    if n.op == "ite":
        c = n.a[0]
        for b, x in ((bdd.AND(cond, c), n.a[1]), (bdd.AND(cond, bdd.NOT(c)), n.a[2])):
            if b:
                r = nonneg(D, x, b, strict)
                if r is not None:
                    return r
        return None
    if n.op == "maxnum":
        for x, y in (n.a, n.a[::-1]):
            if nonneg(D, x, cond, strict) is None and (x.op == "c" or nonneg(D, y, cond, strict) is None):
                return None
    neg = D.fcmp("lt", n, D.const(0.0))
    c = bdd.AND(bdd.AND(cond, neg), D.fcmp("eq", n, n))  # a negative value is a number
    if c and bdd.AND(c, thresholds(D, [c])) == 0:
        c = 0
    if c == 0:
        return None
    if n.op in ("mul", "div"):
        # quotients and products of values that are not negative
        if all(nonneg(D, x, cond, strict) is None for x in n.a):
            return None
    return n


def t04(rep, tier):
    P = extract()
    fns = set()
    for mod in ("Detail", "Gerg2008"):
        out, cells = written(P, mod)
        M = Machine(P, Model(P, mod))
        D = M.D
        v = base(M, M.new_state(), cells)
        M.I.events = []
        rv, post, ex = M.call("properties", v)
        w = M.getf(post, "w")
        bad = nonneg(D, w, ex, False)
        rep.ob(bad is None, "%s: the reported speed of sound is never negative, nor the root of a negative number" % mod, "%s::properties" % mod,
               "it can be, because %s is not guarded" % (show(bad, 3) if bad is not None else ""))
        # zero when its square would be negative
        R = Run(P, mod)
        C = R.C
        cv, dd, dt, z, mm = abbreviate(R, {f: R.poly(f) for f in ("cv", "dp_dd", "dp_dt", "z", "mm")})
        sound(rep, R, C.box(R.poly("cp")), cv, dd, mm, z, C.sym("T"), squares=False)
        # the only operations that report it
        for op, cs in out.items():
            if op == "properties":
                continue
            i = M.m.fields["w"]
            st = [p for p in cs if p[0] == i]
            if op == "density" and st:
                S = Search(P, mod)
                vals = [S.v[i]] + [l.post[i] for l in S.log]
                left = S.post[i]
                ok = all(x in vals for x in choices(left))
                rep.ob(ok, "%s::density reports no speed of sound but the one properties() computed" % mod, "%s::density" % mod, show(left))
            else:
                rep.ob(not st, "%s::%s does not report a speed of sound" % (mod, op), "%s::%s" % (mod, op))
        fns |= {f for f in M.I.fn_seen if f.startswith("aga8")}
    rep.cover.update(functions=sorted(fns))


def choices(n):
    """the values a gated value can take"""
    out, seen, todo = set(), set(), [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if type(x) is Node and x.op == "ite":
            todo += [x.a[1], x.a[2]]
        else:
            out.add(x)
    return out


# ------------------------------------------------------------------------------------------- inputs kept, agreement
def t05(rep, tier):
    P = extract()
    fns = set()
    for mod in ("Detail", "Gerg2008"):
        out, cells = written(P, mod)
        model = Model(P, mod)
        ops = [o for o in operations(P, mod) if o not in ("density", "set_composition")]
        res = {}
        for op in ops:
            M = Machine(P, model)
            D = M.D
            v = base(M, M.new_state(), cells)
            st = State(1, {})
            M.I.events = []
            rv, post, ex = apply(M, op, v, st)
            for f in ("x", "t", "d"):
                a, b = M.getf(v, f), under(D, M.getf(post, f), ex)
                rep.ob(a == b, "%s::%s does not change %s" % (mod, op, f), "%s::%s" % (mod, op), "%s instead of %s" % (repr(b)[:300], repr(a)[:100]))
            fns |= {f for f in M.I.fn_seen if f.startswith("aga8")}
        S = Search(P, mod)
        for f in ("x", "t", "p"):
            a, b = S.M.getf(S.v, f), S.M.getf(S.post, f)
            rep.ob(a == b, "%s::density does not change %s" % (mod, f), "%s::density" % mod, "%s instead of %s" % (repr(b)[:300], repr(a)[:100]))
        # agreement
        R = Run(P, mod)
        M, C, D = R.M, R.C, R.M.D
        v, c0 = start(M)
        rv, post, ex = M.call("pressure", v, cond=c0)
        memo = R.memo
        S2 = Shape(M)
        pairs = [("pressure", under(D, rv, c0, memo), R.node("p"))]
        for p in sorted(out["pressure"]):
            if not S2.private(p) and p[0] not in (model.fields[f] for f in INPUTS) and len(p) == 1:
                f = S2.name(p)
                pairs.append((f, under(D, leaf(post, p), c0, memo), R.node(f)))
        rep.ob(any(f == "z" for f, _, _ in pairs), "%s::pressure reports the compressibility factor" % mod, "%s::pressure" % mod)
        for f, a, b in pairs:
            if a is b:
                rep.ob(True, "%s: pressure() and properties() agree on %s" % (mod, f))
            else:
                ident(rep, R, "pressure() and properties() agree on %s" % f, C.conv(a), C.conv(b))
    rep.cover.update(functions=sorted(fns))


CHECKS = {"T01": t01, "T02": t02, "T03": t03, "T04": t04, "T05": t05}
