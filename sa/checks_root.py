"""R01, R02: the density searches, with the pressure evaluation as an uninterpreted operation"""
from state import *

DERR = "aga8::DensityError"
TOL = 1e-7
TRIALS = {"Detail": 20, "Gerg2008": 50}


class Search:
    """density() run from an arbitrary model state; pressure() and properties() leave unknown values"""

    def __init__(self, P, mod, option=None):
        self.P, self.mod = P, mod
        self.model = Model(P, mod)
        self.out, self.cells = written(P, mod)
        self.M = M = Machine(P, self.model)
        self.s0 = M.new_state()
        self.v = base(M, self.s0, self.cells)
        self.log = []
        M.I.hooks.append(summary(M, self.out, self.log))
        M.I.events = []
        st = State(1, {})
        self.rv, self.post, self.cond = apply(M, "density", self.v, st, option)
        self.events = list(M.I.events)
        self.verd = verdict(M.D, P, self.rv, DERR)
        self.pressures = [l for l in self.log if l.op == "pressure"]
        self.props = [l for l in self.log if l.op == "properties"]
        self.where = "%s::density" % mod


def density_verdict(P, mod):
    return Search(P, mod).verd


def slope_field(S, rep):
    """the private or public cell of pressure() that holds the derivative of the pressure with respect to density"""
    M = Machine(S.P, S.model)
    v, c0 = start(M)
    M.I.events = []
    rv, post, ex = M.call("pressure", v, cond=c0)
    C = algebra(M)
    v = under(M.D, rv, c0)
    want = C.diff(C.conv(v), "D")
    n = {i: f for f, i in S.model.fields.items()}
    cand = []
    for (p, a) in leaves(post):
        if p not in S.out["pressure"] or len(p) != 1 or type(a) is not Node or a.k != "f":
            continue
        cand.append((p, a))
    cand.sort(key=lambda t: (0 if "dd" in n[t[0][0]] else 1))
    for p, a in cand:
        try:
            if not C.differ(C.conv(under(M.D, a, c0)), want):
                return p, post, M
        except (TooBig, Undiff):
            pass
    return None, post, M


class View:
    """one execution class of the search: path conditions specialised to an assignment of some atoms"""

    def __init__(self, S, asg):
        self.S, self.asg = S, asg

    def c(self, r):
        return self.S.M.bdd.cof(r, self.asg)


def const_cmp(node):
    """(operand, constant, test of a float value) of a comparison with a constant"""
    if node.op not in ("flt", "fle", "feq"):
        return None
    a, b = node.a
    if b.op == "c" and a.op != "c":
        return a, b.a, {"flt": lambda s, c: s < c, "fle": lambda s, c: s <= c, "feq": lambda s, c: s == c}[node.op]
    if a.op == "c" and b.op != "c":
        return b, a.a, {"flt": lambda s, c: c < s, "fle": lambda s, c: c <= s, "feq": lambda s, c: s == c}[node.op]
    return None


def assign(D, conds, values):
    """truth of every comparison that only involves the given nodes (value per node) and constants"""
    memo = {}

    def ev(n):
        if n in values:
            return values[n]
        if n.op == "c":
            return n.a
        if n.op in ("abs", "neg"):
            x = ev(n.a[0])
            return None if x is None else abs(x) if n.op == "abs" else -x
        if n.op in ("add", "sub", "mul"):
            x, y = ev(n.a[0]), ev(n.a[1])
            if x is None or y is None:
                return None
            return x + y if n.op == "add" else x - y if n.op == "sub" else x * y
        return None

    asg = {}
    sup = set()
    for c in conds:
        sup |= D.bdd.support(c)
    for v in sup:
        n = D.atoms[v]
        if n.op not in ("flt", "fle", "feq"):
            continue
        a, b = ev(n.a[0]), ev(n.a[1])
        if a is None or b is None:
            continue
        asg[v] = a < b if n.op == "flt" else a <= b if n.op == "fle" else a == b
    return asg


def opaque_ites(C, n, seen):
    """make every remaining choice in a value an unknown quantity of the algebra"""
    todo = [n]
    while todo:
        x = todo.pop()
        if type(x) is not Node or x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            C.special[x] = C.sym("choice%d" % x.id)
            continue
        if x.op != "c":
            todo.extend(y for y in x.a if type(y) is Node)


def int_samples(D, conds, name):
    """representatives of every class of the integer argument that the conditions can tell apart"""
    cs = set()
    sup = set()
    for c in conds:
        sup |= D.bdd.support(c)
    vs = []
    for v in sup:
        n = D.atoms[v]
        if name in D.support(n):
            if n.op in ("flt", "fle", "feq"):
                continue
            if n.op not in ("ieq", "ilt"):
                raise Undecided("search option used in " + show(n))
            for x, y in (n.a, n.a[::-1]):
                if type(x) is Node and x.op == "sym":
                    if type(y) is not int:
                        raise Undecided("search option compared with " + show(y))
                    cs.add(y)
            vs.append(v)
    reps = sorted({0, 1, 2, -1, -(1 << 31), (1 << 31) - 1} | cs | {c + 1 for c in cs} | {c - 1 for c in cs})
    out = {}
    for r in reps:
        if not -(1 << 31) <= r < (1 << 31):
            continue
        asg = {}
        for v in vs:
            a, b = [r if type(x) is Node else x for x in D.atoms[v].a]
            asg[v] = a == b if D.atoms[v].op == "ieq" else a < b
        out.setdefault((tuple(sorted(asg.items())), r > 0, r == 2), r)
    return sorted(out.values())


def search_check(rep, mod):
    P = extract()
    S = Search(P, mod)
    if not S.pressures:
        raise Undecided("density() makes no pressure evaluation")
    sp, real_post, RM = slope_field(S, rep)
    rep.ob(sp is not None, "%s::pressure leaves the exact derivative of the pressure with respect to density for the search" % mod, "%s::pressure" % mod,
           "no cell written by pressure() equals it")
    if sp is None:
        return
    if not opargs(S.M, "density"):
        one(rep, S, sp, None)
        reps = []
    else:
        v = S.verd
        reps = int_samples(S.M.D, list(v.values()) + [l.cond for l in S.log] + conds_of(S.M.D, S.post[S.model.fields["d"]]), "arg0")
        for r in reps:
            one(rep, Search(P, mod, r), sp, r)
    rep.cover.update(functions=sorted(x for x in S.M.I.fn_seen | RM.I.fn_seen if x.startswith("aga8")), trials=len(S.pressures), slope=S_name(S.M, sp),
                     search_options=reps, bdd_nodes=len(S.M.bdd.var))


def one(rep, S, sp, r):
    mod = S.mod
    M, D, bdd = S.M, S.M.D, S.M.bdd
    if r is not None:
        S.where += "(%d)" % r
    w = S.where
    events_ob(rep, S.events, w)
    R = S.model.R
    # the summary is faithful: evaluations keep temperature, pressure specification, density and composition
    for op in sorted({l.op for l in S.log}):
        for f in INPUTS:
            bad = [p for p in S.out[op] if p[0] == S.model.fields[f]]
            rep.ob(not bad, "%s: the evaluation %s::%s does not change %s" % (w, mod, op, f), "%s::%s" % (mod, op))
    rep.ob(sp is not None, "%s::pressure leaves the exact derivative of the pressure with respect to density for the search" % mod, "%s::pressure" % mod,
           "no cell written by pressure() equals it")
    if sp is None:
        return
    verd = S.verd
    ok, fail, low = verd.get("Ok()", 0), verd.get("IterationFail", 0), verd.get("PressureTooLow", 0)
    rep.ob(verd.get("Ok", 0) == 0, "%s never fails with the success code" % w, w)
    allc = [ok, fail, low] + [l.cond for l in S.log]
    classes = [(r, {})]
    Tn, Pn, Dn = D.sym("T"), D.sym("P"), D.sym("D")
    f = S.model.fields
    # ---- frame
    for fl in ("t", "p", "x"):
        rep.ob(S.post[f[fl]] == S.v[f[fl]], "%s does not change %s" % (w, fl), w, repr(S.post[f[fl]])[:200])
    for l in S.log:
        for fl in ("t", "x"):
            rep.ob(l.pre[f[fl]] == S.v[f[fl]], "%s evaluates trial %d (%s) at the caller's %s" % (w, l.k, l.op, fl), w, repr(l.pre[f[fl]])[:200])
    touched = {p for op in ("pressure", "properties") for p in S.out[op]}
    oth = [S_name(M, p) for p in S.out["density"] if p not in touched and p[0] != f["d"]]
    rep.ob(not oth, "%s changes nothing but the density and the outputs of the evaluations" % w, w, ", ".join(oth[:5]))
    rep.ob(bdd.OR(bdd.OR(ok, fail), low) == S.cond, "%s reports success, iteration failure or pressure too low" % w, w)
    # ---- pressure too low
    for s in (0.0, -0.0):
        a = assign(D, [low, ok, fail] + [l.cond for l in S.log], {Pn: s})
        rep.ob(bdd.cof(low, a) == 1, "%s reports 'pressure too low' for a zero pressure" % w, w, "reports it when " + D.bshow(bdd.cof(low, a)))
    for s in (1e-6, 1e-3, 1.0, 101.325, 1e6, -1e-6, -1.0, -1e5, math.nan, math.inf):
        a = assign(D, [low], {Pn: s})
        rep.ob(bdd.cof(low, a) == 0, "%s does not report 'pressure too low' for a pressure of %g kPa" % (w, s), w, "reports it when " + D.bshow(bdd.cof(low, a)))
    sup = {D.atoms[v] for v in bdd.support(low)}
    rep.ob(all(D.support(n) <= {"P"} for n in sup), "%s: 'pressure too low' depends on the pressure alone" % w, w, D.bshow(low))
    dpost = S.post[f["d"]]
    dl = under(D, dpost, low)
    rep.ob(low == 0 or (dl.op == "c" and dl.a == 0), "%s leaves density zero when the pressure is too low" % w, w, show(dl))
    # ---- failure: ideal-gas density
    C = CAS(D, (), facts({"T": (0.0, True, math.inf, False)}))
    df = under(D, dpost, fail)
    opaque_ites(C, df, set())
    ideal = C.mul(C.sym("P"), C.power(C.scale(C.sym("T"), R), -Q))
    if fail != 0:
        e, d = polyeq(C, C.conv(df), ideal)
        rep.ob(e, "%s leaves the ideal-gas density p/(R T) after an iteration failure" % w, w, d)
    rep.ob(fail != 0, "%s can report an iteration failure" % w, w)
    # ---- success
    n = len(S.pressures)
    over = at_least(bdd, [l.cond for l in S.pressures], TRIALS[mod] + 1) if n > TRIALS[mod] else 0
    rep.ob(over == 0, "%s makes at most %d trials" % (w, TRIALS[mod]), w, "more when " + D.bshow(over)[:400])
    later = 0
    covered = 0
    nsucc = 0
    for i in range(n - 1, -1, -1):
        l = S.pressures[i]
        okk = bdd.AND(ok, bdd.AND(l.cond, bdd.NOT(later)))
        later = bdd.OR(later, l.cond)
        covered = bdd.OR(covered, okk)
        success(rep, S, l, i, okk, sp, classes, C, w)
        nsucc += okk != 0
    rep.ob(bdd.AND(ok, bdd.NOT(covered)) == 0, "%s never succeeds without a trial" % w, w, "succeeds when " + D.bshow(bdd.AND(ok, bdd.NOT(covered))))
    rep.ob(nsucc > 0, "%s can succeed" % w, w)
    guess(rep, S, C, classes, w)


def S_name(M, p):
    return Shape(M).name(p)


def success(rep, S, l, i, okk, sp, classes, C0, w):
    """obligations on the executions that succeed right after trial i"""
    M, D, bdd = S.M, S.M.D, S.M.bdd
    f = S.model.fields
    R = S.model.R
    what = "%s, success at trial %d" % (w, i + 1)
    slope = leaf(l.post, sp)
    trial = l.ret
    # usable slope (a trial pressure that is not positive cannot meet the criterion: its logarithm is NaN)
    for s in (-1e300, -1.0, -1e-3, -1e-9):
        a = assign(D, [okk], {slope: s})
        r = bdd.cof(okk, a)
        if r != 0:
            rep.ob(False, "%s: the slope is positive" % what, w, "succeeds with slope %g when %s" % (s, D.bshow(r)[:300]))
            break
    else:
        rep.ob(True, "%s: the slope is positive" % what)
    if okk == 0:
        if i > 3:
            return
        rep.ob(False, "%s is possible" % what, w)
        return
    # convergence criterion: a test of v = (ln p_trial - ln p) p_trial / (d slope) against 1e-7
    dk = under(D, l.pre[f["d"]], okk)
    C = CAS(D, (), facts({"T": (0.0, True, math.inf, False)}))
    seen = set()
    opaque_ites(C, dk, seen)
    pk = C.conv(dk)
    sym = lambda n: C.sym(n.a[0])
    try:
        v = C.mul(C.sub(C.log(sym(trial)), C.log(C.sym("P"))), C.mul(sym(trial), C.power(C.mul(pk, sym(slope)), -Q)))
    except (TooBig, Undiff):
        raise Undecided("convergence quantity")
    memo = {}

    def conv(n):
        n = under(D, n, okk, memo)
        opaque_ites(C, n, seen)
        return n

    Sc = Crit(D, C, v, conv, trial)
    pts = Sc.breakpoints(okk)
    rep.ob(bool(pts), "%s: the convergence criterion is tested" % what, w, "no test of the Newton step in the conditions of success")
    bad = None
    ss = [1.05e-7, -1.05e-7, 1e-6, -1e-6, 1e-3, -1e-3, 1.0, -1.0, 1e30, -1e30, math.inf, -math.inf, math.nan]
    ss += [p * k for p in pts for k in (1.0001, 0.9999) if abs(p * k) > TOL * 1.0000001]
    for s in ss:
        r = Sc.bev(okk, s)
        if r != 0:
            bad = (s, r)
            break
    rep.ob(bad is None, "%s: the last Newton step is below %g" % (what, TOL), w, "" if bad is None else "succeeds with a step of %g when %s" % (bad[0], D.bshow(bad[1])[:300]))
    # the returned density is the converged one
    dr = conv(S.post[f["d"]])
    diff = C.sub(C.log(C.conv(dr)), C.log(pk))
    good = not C.differ(diff, {}) or not C.differ(diff, C.scale(v, -1.0))
    rep.ob(good, "%s: the returned density is the one the last trial converged to" % what, w, "ln(returned/trial) = " + C.show(diff, 2, 4))
    # the converse: a usable, converged (and consistent) trial is a success
    for r, asg in classes:
        lc = bdd.cof(l.cond, asg)
        if lc == 0:
            continue
        val = {slope: 1.0, trial: 1.0}
        # the consistency evaluation of the accepted root
        mine = [q for q in S.props if bdd.AND(q.cond, okk) != 0]
        tests = [mine[0].ret] if mine and type(mine[0].ret) is Node else []
        if mine:
            tests += [mine[0].post[f[x]] for x in ("dp_dd", "d2p_dtd", "cv", "cp", "w")]
        need = r is not None and r > 0
        if need:
            for t in tests:
                val[t] = 1.0
        a = assign(D, [okk, l.cond], val)
        a.update(asg)
        c = bdd.cof(okk, a)
        # converged: step zero
        c = Sc.bev(c, 0.0)
        lcc = Sc.bev(bdd.cof(l.cond, a), 0.0)
        name = ""
        rep.ob(bdd.imp(lcc, c), "%s: a usable converged trial is accepted%s" % (what, name), w, "not when " + D.bshow(bdd.AND(lcc, bdd.NOT(c)))[:300])
        if not need:
            continue
        oc = bdd.cof(okk, asg)
        if oc == 0:
            continue
        rep.ob(bool(mine) and bdd.imp(oc, bdd.cof(mine[0].cond, asg)), "%s%s: the properties are evaluated for the consistency tests" % (what, name), w, "")
        if not mine:
            continue
        q = mine[0]
        same = under(D, q.pre[f["d"]], bdd.AND(okk, bdd.cof(okk, asg)))
        ret = under(D, S.post[f["d"]], bdd.AND(okk, bdd.cof(okk, asg)))
        rep.ob(same is ret, "%s%s: they are evaluated at the returned density" % (what, name), w, "%s instead of %s" % (show(same), show(ret)))
        for t in tests:
            for s in (0.0, -1.0, -1e9):
                a = assign(D, [okk], {t: s})
                a.update(asg)
                r2 = bdd.cof(okk, a)
                if r2 != 0:
                    break
            rep.ob(r2 == 0, "%s%s: no success with %s <= 0" % (what, name, t.a[0]), w, "succeeds with %g when %s" % (s, D.bshow(r2)[:300]))


def ok_of(S):
    return S.verd.get("Ok()", 0)


class Crit(Scalar):
    """functions of the Newton step; a step from a trial pressure without a logarithm is not a number"""

    def __init__(self, D, C, poly, conv, trial):
        Scalar.__init__(self, D, C, poly)
        self.conv = conv
        self.trial = trial

    def fn(self, n):
        r = self.memo.get(n)
        if r is None:
            m = n if type(n) is not Node else self.conv(n)
            r = self.memo[n] = self._fn(m)
        return r

    def _fn(self, n):
        if type(n) is Node and n.op != "c" and self.trial.a[0] in self.D.support(n):
            try:
                p = self.C.conv(n)
                if not self.C.differ(self.C.scale(p, -1.0), self.poly):
                    return ("neg", ("s",))
            except (TooBig, Undiff):
                pass
        return Scalar._fn(self, n)

    def is_s(self, n):
        # only nodes that mention the trial pressure through a logarithm
        if self.trial.a[0] not in self.D.support(n):
            return False
        return Scalar.is_s(self, n)


def guess(rep, S, C0, classes, w):
    """the first density tried"""
    M, D, bdd = S.M, S.M.D, S.M.bdd
    f = S.model.fields
    R = S.model.R
    l = S.pressures[0]
    Dn = D.sym("D")
    for r, asg in classes:
        name = ""
        for s in (-1e-3, -0.5, -20.0, 0.0, 1e-3, 5.0, 30.0, math.inf, math.nan):
            a = assign(D, [c for c in [l.cond]] + [x for x in conds_of(D, l.pre[f["d"]])], {Dn: s, D.sym("P"): 100.0})
            a.update(asg)
            C = CAS(D, (), facts({"T": (0.0, True, math.inf, False), "P": (0.0, True, math.inf, False), "D": (0.0, True, math.inf, False) if s > 0 else (-math.inf, False, 0.0, s < 0)}))
            if s < 0:
                want, what = Dn_abs(D, Dn), "the magnitude of a negative stored density"
                n = cofnode(D, l.pre[f["d"]], a)
                # the restart values aside, the trial density is |D|
                leafs = flat(D, n)
                hit = [x for x in leafs if "D" in D.support(x)]
                good = bool(hit) and all(absd(D, x) for x in hit)
                rep.ob(good, "%s%s: a negative stored density (%g) is the starting guess" % (w, name, s), w, "; ".join(show(x) for x in leafs[:3]))
            else:
                n = cofnode(D, l.pre[f["d"]], a)
                leafs = flat(D, n)
                rep.ob(all("D" not in D.support(x) for x in leafs), "%s%s: a stored density of %g does not influence the search" % (w, name, s), w, "; ".join(show(x) for x in leafs[:3]))
                if r is None or r != 2:
                    want = C.mul(C.sym("P"), C.power(C.scale(C.sym("T"), R), -Q))
                    good = False
                    for x in leafs:
                        try:
                            if not C.differ(C.conv(x), want):
                                good = True
                        except (TooBig, Undiff):
                            pass
                    rep.ob(good, "%s%s: the search starts from the ideal-gas density" % (w, name), w, "; ".join(show(x) for x in leafs[:3]))
    # no other trial, condition or result looks at the stored density
    later = [x for q in S.pressures[1:] for x in []]


def Dn_abs(D, n):
    return D.fabs(n)


def absd(D, x):
    """x is |D| for a negative D, evaluated through exp/log at two values"""
    for s in (-0.25, -3.0):
        try:
            v = evalnode(x, {"D": s})
        except (ValueError, OverflowError, ZeroDivisionError, KeyError):
            return False
        if v is None or abs(v - abs(s)) > 1e-9 * abs(s):
            return False
    return True


def evalnode(n, env):
    if n.op == "c":
        return n.a
    if n.op == "sym":
        return env[n.a[0]]
    k = [evalnode(y, env) if type(y) is Node else y for y in n.a]
    if n.op == "add":
        return k[0] + k[1]
    if n.op == "sub":
        return k[0] - k[1]
    if n.op == "mul":
        return k[0] * k[1]
    if n.op == "div":
        return k[0] / k[1]
    if n.op == "neg":
        return -k[0]
    if n.op == "abs":
        return abs(k[0])
    if n.op == "exp":
        return math.exp(k[0])
    if n.op == "log":
        return math.log(k[0])
    if n.op == "maxnum":
        return max(k)
    if n.op == "minnum":
        return min(k)
    if n.op == "powi":
        return k[0] ** k[1]
    raise KeyError(n.op)


def conds_of(D, n):
    out, seen, todo = [], set(), [n]
    while todo:
        x = todo.pop()
        if type(x) is not Node or x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            out.append(x.a[0])
        if x.op not in ("c", "sym"):
            todo.extend(y for y in x.a if type(y) is Node)
    return out


def cofnode(D, n, asg):
    """value of n when the assigned atoms have the given truth values"""
    memo = {}

    def go(x):
        if type(x) is not Node:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ("c", "sym"):
            r = x
        elif x.op == "ite":
            r = D.ite(D.bdd.cof(x.a[0], asg), go(x.a[1]), go(x.a[2]))
        else:
            kids = tuple(go(y) if type(y) is Node else y for y in x.a)
            r = x if kids == x.a else rebuild(D, x, kids)
        memo[x] = r
        return r

    return go(n)


def flat(D, n, limit=64):
    """the values a node can take, choices pulled to the top"""
    memo = {}

    def go(x):
        if type(x) is not Node or x.op in ("c", "sym"):
            return [x]
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "ite":
            r = go(x.a[1]) + [y for y in go(x.a[2])]
        else:
            combos = [()]
            for y in x.a:
                combos = [c + (z,) for c in combos for z in go(y)]
                if len(combos) > limit:
                    raise Undecided("too many values")
            r = [x if c == x.a else rebuild(D, x, c) for c in combos]
        u = []
        for y in r:
            if y not in u:
                u.append(y)
        memo[x] = u
        return u

    return go(n)


def r01(rep, tier):
    search_check(rep, "Detail")


def r02(rep, tier):
    search_check(rep, "Gerg2008")


CHECKS = {"R01": r01, "R02": r02}
