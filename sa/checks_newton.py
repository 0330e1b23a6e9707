"""R03, R04: the density searches take the steps of the published scheme, trial by trial"""
from checks_root import *

SCHED = {"Detail": (), "Gerg2008": (20, 30, 40)}
RESTART = {"Detail": (), "Gerg2008": (3.0, 2.5, 2.0)}
LO, HI = -7.0, 100.0
USABLE = [(1.0, 1.0), (1e-9, 1.0), (1.0, 1e-9), (1e6, 1e8)]
UNUSABLE = [(-1.0, 1.0), (1.0, -1.0), (0.0, 1.0), (1.0, 0.0), (-1e9, -1e9), (-1e-9, 1.0), (1.0, -1e-9)]
INSIDE = (-6.999, -1.0, 0.0, 2.5, 20.0, 99.9)
OUTSIDE = (-7.001, -8.0, -1e30, 100.1, 1e30, math.nan)


def nudge(mod, it):
    """step of ln v away from a trial that cannot be used"""
    if mod == "Detail":
        return 0.1
    return 0.1 / (2.0 if it > 5 else 1.0) / (5.0 if 10 < it < 20 else 1.0)


def leaves_of(D, n, limit=64):
    """[(condition, value)]: the choices of a value pulled to the top"""
    bdd = D.bdd
    memo = {}

    def go(x):
        if type(x) is not Node or x.op in ("c", "sym") or x in stop:
            return [(1, x)]
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "ite":
            c = x.a[0]
            r = [(bdd.AND(c, k), v) for k, v in go(x.a[1])] + [(bdd.AND(bdd.NOT(c), k), v) for k, v in go(x.a[2])]
        else:
            combos = [(1, ())]
            for y in x.a:
                combos = [(bdd.AND(c, k), t + (z,)) for c, t in combos for k, z in go(y)]
                combos = [q for q in combos if q[0] != 0]
                if len(combos) > limit:
                    raise Undecided("too many values of a trial density")
            r = [(c, x if t == x.a else rebuild(D, x, t)) for c, t in combos]
        u = {}
        for c, v in r:
            if c != 0:
                u[v] = bdd.OR(u.get(v, 0), c)
        r = [(c, v) for v, c in u.items()]
        memo[x] = r
        return r

    stop = leaves_of.stop
    return go(n)


leaves_of.stop = set()


def choices(n):
    """the outermost choices inside a value"""
    out, todo, seen = set(), [n], set()
    while todo:
        x = todo.pop()
        if type(x) is not Node or x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            out.add(x)
            continue
        if x.op not in ("c", "sym"):
            todo.extend(y for y in x.a if type(y) is Node)
    return out


class Walk(Scalar):
    """conditions as functions of one scalar (the logarithm of the next specific volume)"""

    def __init__(self, D, C, poly, conv, trial):
        Scalar.__init__(self, D, C, poly)
        self.convn = conv
        self.trial = trial

    def is_s(self, n):
        # only nodes that mention the pressure of the last trial
        if self.trial is not None and self.trial.a[0] not in self.D.support(n):
            return False
        return Scalar.is_s(self, n)

    def fn(self, n):
        r = self.memo.get(n)
        if r is None:
            if type(n) is Node and n.op != "c" and self.trial is not None and self.trial.a[0] not in self.D.support(n):
                raise NotScalar("another quantity")
            m = self.convn(n) if type(n) is Node else n
            r = self.memo[n] = self._fn(m)
        return r


def newton(rep, mod, tier):
    P = extract()
    S = Search(P, mod)
    sp, _, RM = slope_field(S, rep)
    rep.ob(sp is not None, "%s::pressure leaves the exact derivative of the pressure with respect to density for the search" % mod, "%s::pressure" % mod, "no cell written by pressure() equals it")
    if sp is None:
        return
    if not opargs(S.M, "density"):
        S.tier = tier
        steps(rep, S, sp, None)
        reps = []
    else:
        reps = int_samples(S.M.D, list(S.verd.values()) + [l.cond for l in S.log] + conds_of(S.M.D, S.post[S.model.fields["d"]]), "arg0")
        for r in reps:
            S = Search(P, mod, r)
            S.tier = tier
            steps(rep, S, sp, r)
    rep.cover.update(functions=sorted(x for x in S.M.I.fn_seen | RM.I.fn_seen if x.startswith("aga8")), search_options=reps)


def steps(rep, S, sp, option):
    mod, M, D, bdd = S.mod, S.M, S.M.D, S.M.bdd
    S.option = option
    if option is not None:
        S.where += "(%d)" % option
    w = S.where
    f = S.model.fields
    R = S.model.R
    tr = S.pressures
    if not tr:
        raise Undecided("density() makes no pressure evaluation")
    for a, b in zip(tr, tr[1:]):
        if not bdd.imp(b.cond, a.cond):
            raise Undecided("trials do not follow each other one by one")
    fail = S.verd.get("IterationFail", 0)
    ok = S.verd.get("Ok()", 0)
    C = CAS(D, (), facts({"T": (0.0, True, math.inf, False), "P": (0.0, True, math.inf, False)}))
    dcx, base_asg = None, {}
    if RESTART[mod]:
        X = M.xval()
        dc = load_ref("gerg")["consts"]["DC"][1:22]
        vc = {}
        for i, v in enumerate(dc):
            vc = C.add(vc, C.scale(C.conv(X[i + M.m.off]), 1.0 / v))
        dcx = C.power(vc, -Q)
        # a composition that is present: the pseudo-critical volume is not zero
        base_asg = at_sample(D, C, vc, [l.cond for l in tr] + [c for l in tr for c in conds_of(D, l.pre[f["d"]])] + [fail, ok], 0.1)
    for i in range(-1, len(tr) - 1):
        step(rep, S, C, sp, i, dcx, base_asg, fail, ok, option)
    rep.ob(len(tr) == TRIALS[mod], "%s makes up to %d trials" % (w, TRIALS[mod]), w, "%d" % len(tr))
    rep.cover.setdefault("steps", {})[w] = len(tr)


def at_sample(D, C, poly, conds, s):
    """truth of the comparisons of one quantity with constants when it has the value s"""
    bdd = D.bdd
    sup = set()
    for c in conds:
        sup |= bdd.support(c)
    asg = {}
    for v in sup:
        n = D.atoms[v]
        q = const_cmp(n)
        if not q:
            continue
        x, c, t = q
        if choices(x):
            continue
        if D.support(x) and all(y.startswith("x") for y in D.support(x)):
            try:
                if not C.differ(C.conv(x), poly):
                    asg[v] = t(s, c)
            except (TooBig, Undiff):
                pass
    return asg


def step(rep, S, C, sp, i, dcx, base_asg, fail, ok, option):
    mod, M, D, bdd = S.mod, S.M, S.M.D, S.M.bdd
    w = S.where
    f = S.model.fields
    tr = S.pressures
    l, m = (tr[i] if i >= 0 else None), tr[i + 1]
    it = i + 2  # number of the trial the step leads to
    what = "%s, step to trial %d" % (w, it)
    tolog = lambda n: C.log(C.conv(n))
    if l is not None:
        slope, trial = leaf(l.post, sp), l.ret
        full = S.tier == "thorough" or i < 3
        classes = [("usable", q) for q in (USABLE if full else USABLE[:1])] + [("unusable", q) for q in (UNUSABLE if full else UNUSABLE[:2])]
    else:
        slope = trial = None
        classes = [("first", s) for s in (5.0, 0.0, -2.0)]
    F = S.__dict__.setdefault("F", {})
    prev = F.get(i, [1, 0, 0, 0])
    stays, firsts = 0, [0, 0, 0]
    done = {}
    for cls, val in classes:
        if l is not None:
            values = {slope: val[0], trial: val[1]}
        else:
            values = {D.sym("D"): val, D.sym("P"): 100.0}
        dn = m.pre[f["d"]]
        cs = [m.cond, fail, ok] + conds_of(D, dn) + ([l.cond] + conds_of(D, l.pre[f["d"]]) if l is not None else [])
        a = assign(D, cs, values)
        a.update(base_asg)
        memo = {}

        def cv(n, a=a, memo=memo):
            r = memo.get(n)
            if r is None:
                r = memo[n] = cofnode(D, under(D, n, bdd.cof(m.cond, a)), a)
            return r

        mc = bdd.cof(m.cond, a)
        if mc == 0:
            rep.ob(it > TRIALS[mod], "%s is taken from %s" % (what, describe(cls, val)), w, "the search ends")
            continue
        nj = cv(dn)
        if l is not None:
            di = cv(l.pre[f["d"]])
            stop = choices(di)
            for x in stop:
                if x not in C.special:
                    C.special[x] = C.sym("choice%d" % x.id)
            ldi = tolog(di)
            S.di = di
        else:
            stop, ldi = set(), None
        leaves_of.stop = stop
        lv = leaves_of(D, nj)
        lv = [(bdd.AND(c, mc), v) for c, v in lv if bdd.AND(c, mc) != 0]
        go_on, rest, other = [], [[], [], []], []
        for c, v in lv:
            k = kind(S, C, v, ldi, slope, trial, dcx, cls, it, val)
            if k == "step":
                go_on.append((c, v))
            elif type(k) is int:
                rest[k].append((c, v))
            else:
                other.append((c, v))
        name = {"first": "the search starts from the documented guess", "usable": "a usable trial is followed by Newton's step in ln p against ln v",
                "unusable": "an unusable trial is followed by a fixed step of the density"}[cls]
        rep.ob(not other, "%s: %s%s" % (what, name, " or a restart" if RESTART[mod] else ""), w,
               "%s: the next density is %s" % (describe(cls, val), "; ".join(show(v, 4)[:300] for _, v in other[:2])))
        if other:
            continue
        if cls == "unusable" and RESTART[mod]:
            # away from the pseudo-critical density: towards the liquid above it, towards the vapour below it
            for s, side in ((1.0, "above"), (-1.0, "below")):
                b = relation(D, C, [c for c, _ in go_on], ldi, C.log(dcx), s, cv)
                for c, v in go_on:
                    up = same_log(C, C.sub(tolog(v), ldi), C.const(nudge(mod, it - 1)))
                    r = bdd.cof(c, b)
                    rep.ob(up == (s > 0) or r == 0, "%s: an unusable trial %s the pseudo-critical density is followed by a %s one" % (what, side, "denser" if s > 0 else "thinner"), w,
                           "not when " + D.bshow(r)[:300] if r else "")
        forced = it in SCHED[mod]
        if forced:
            rep.ob(not go_on, "%s: the search restarts at trial %d" % (what, it), w, "it goes on" if go_on else "")
        else:
            rep.ob(bool(go_on), "%s: the search goes on from %s" % (what, describe(cls, val)), w, "it never does")
        # restarts in order: the k-th restart takes the k-th density
        for k in range(len(RESTART[mod])):
            rc = 0
            for c, _ in rest[k]:
                rc = bdd.OR(rc, c)
            bad = bdd.AND(rc, bdd.NOT(bdd.cof(prev[k], a)))
            rep.ob(bad == 0, "%s: restart %d uses %g times the pseudo-critical density" % (what, k + 1, RESTART[mod][k]), w, "used out of turn when " + D.bshow(bad)[:300] if bad else "")
        # exhausted restarts are a failure, and leaving the range is a restart or a failure
        if l is None and option == 2 and val >= 0:
            poly = None  # the guess is the density of the first restart
        elif cls == "first":
            poly = None
            for c, v in go_on:
                poly = C.scale(tolog(v), -1.0)
        elif cls == "usable":
            poly = C.sub(newtonq(C, slope, trial, di), ldi)
        else:
            poly = None
        if poly is not None:
            Wk = Walk(D, C, poly, cv, trial)
            gc = 0
            for c, _ in go_on:
                gc = bdd.OR(gc, c)
            allr = 0
            for rr in rest:
                for c, _ in rr:
                    allr = bdd.OR(allr, c)
            pc = bdd.cof(l.cond if l is not None else S.cond, a)
            if l is None:
                low = S.verd.get("PressureTooLow", 0)
                pc = bdd.AND(pc, bdd.NOT(bdd.cof(low, a)))
            gave = bdd.AND(bdd.AND(pc, bdd.NOT(mc)), bdd.cof(fail, a))
            for q in S.props:
                # a converged root that failed the consistency tests
                gave = bdd.AND(gave, bdd.NOT(bdd.cof(q.cond, a)))
            for s in OUTSIDE:
                r = Wk.bev(gc, s)
                rep.ob(r == 0, "%s: no trial beyond exp(7) and exp(-100) mol/l" % what, w, "with ln v = %g when %s" % (s, D.bshow(r)[:300]) if r else "")
            for s in INSIDE:
                r = Wk.bev(gave, s)
                if forced:
                    r = bdd.AND(r, bdd.NOT(bdd.cof(prev[3], a)))
                rep.ob(r == 0, "%s: the search does not give up while the density is in range" % what, w, "with ln v = %g when %s" % (s, D.bshow(r)[:300]) if r else "")
                r = Wk.bev(allr, s) if not forced else 0
                rep.ob(r == 0, "%s: no restart while the density is in range" % what, w, "with ln v = %g when %s" % (s, D.bshow(r)[:300]) if r else "")
            if RESTART[mod]:
                for s in OUTSIDE:
                    r = bdd.AND(Wk.bev(gave, s), bdd.NOT(bdd.cof(prev[3], a)))
                    rep.ob(r == 0, "%s: the search does not give up before its restarts are used up" % what, w, "with ln v = %g when %s" % (s, D.bshow(r)[:300]) if r else "")
        if cls not in done:
            done[cls] = (go_on, rest, a)
    # which restarts have been used, over all executions
    if RESTART[mod]:
        dn = m.pre[f["d"]]
        a = base_asg
        nj = cofnode(D, under(D, dn, bdd.cof(m.cond, a)), a)
        if l is not None:
            di = cofnode(D, under(D, l.pre[f["d"]], bdd.cof(m.cond, a)), a)
            stop = choices(di)
            for x in stop:
                if x not in C.special:
                    C.special[x] = C.sym("choice%d" % x.id)
            ldi = tolog(di)
        else:
            stop, ldi = set(), None
        leaves_of.stop = stop
        mc = bdd.cof(m.cond, a)
        cur = [0, 0, 0, 0]
        for c, v in leaves_of(D, nj):
            c = bdd.AND(c, mc)
            if c == 0:
                continue
            k = None
            for j, q in enumerate(RESTART[mod]):
                if same_log(C, tolog(v), C.log(C.scale(dcx, q))):
                    k = j
            if k is None or (l is None and option == 2):
                for j in range(4):
                    cur[j] = bdd.OR(cur[j], bdd.AND(c, prev[j]) if l is not None else (c if j == 0 else 0))
            if k is not None:
                cur[k + 1] = bdd.OR(cur[k + 1], c)
        F[i + 1] = cur


def relation(D, C, conds, la, lb, s, cv):
    """truth of the comparisons that compare two quantities (given by their logarithms) when the first is exp(s) times the second"""
    sup = set()
    for c in conds:
        sup |= D.bdd.support(c)
    asg = {}
    d = C.sub(la, lb)
    for v in sup:
        n = D.atoms[v]
        if n.op not in ("flt", "fle"):
            continue
        if not any(D.support(y) and all(z.startswith("x") for z in D.support(y)) for y in n.a):
            continue
        a, b = cv(n.a[0]), cv(n.a[1])
        if any(x not in C.special for y in (a, b) for x in choices(y)):
            continue
        try:
            e = C.sub(C.log(C.conv(a)), C.log(C.conv(b)))
        except (TooBig, Undiff):
            e = None
        try:
            g = C.sub(C.conv(a), C.conv(b))
        except (TooBig, Undiff):
            g = None
        for q in (e, g):
            if q is None:
                continue
            for sign in (1.0, -1.0):
                if not C.differ(q, C.scale(d, sign)):
                    x = s * sign
                    asg[v] = x < 0 if n.op == "flt" else x <= 0
    return asg


def describe(cls, val):
    return "a stored density of %g" % val if cls == "first" else "a trial with slope %g and pressure %g" % val


def newtonq(C, slope, trial, di):
    sym = lambda n: C.sym(n.a[0])
    return C.mul(C.sub(C.log(sym(trial)), C.log(C.sym("P"))), C.mul(sym(trial), C.power(C.mul(C.conv(di), sym(slope)), -Q)))


def same_log(C, p, q):
    try:
        return not C.differ(p, q)
    except (TooBig, Undiff):
        return False


def kind(S, C, v, ldi, slope, trial, dcx, cls, it, val):
    """'step', the number of a restart, or None"""
    mod = S.mod
    D = S.M.D
    try:
        lv = C.log(C.conv(v))
    except (TooBig, Undiff):
        return None
    if cls == "first":
        R = S.model.R
        if val < 0:
            return "step" if "D" in D.support(v) and absd(D, v) else restart(C, lv, dcx, mod)
        if same_log(C, lv, C.log(C.mul(C.sym("P"), C.power(C.scale(C.sym("T"), R), -Q)))) and S.option != 2:
            return "step"
        k = restart(C, lv, dcx, mod)
        return "step" if k == 0 and S.option == 2 else k
    d = C.sub(lv, ldi)
    if cls == "usable":
        q = newtonq(C, slope, trial, S.di)
        if not C.differ(d, C.scale(q, -1.0)):
            return "step"
    else:
        c = C.sub(d, {})
        if len(c) <= 1 and (not c or ONE in c):
            x = -(c[ONE][0] if c else 0.0)
            if abs(abs(x) - nudge(mod, it - 1)) < 1e-12 and (mod != "Detail" or x > 0):
                return "step"
    return restart(C, lv, dcx, mod)


def restart(C, lv, dcx, mod):
    for j, q in enumerate(RESTART[mod]):
        if same_log(C, lv, C.log(C.scale(dcx, q))):
            return j
    return None


def r03(rep, tier):
    newton(rep, "Detail", tier)


def r04(rep, tier):
    newton(rep, "Gerg2008", tier)


CHECKS = {"R03": r03, "R04": r04}
