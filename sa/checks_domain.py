"""R05: meaningless temperatures and pressures are never reported as a converged search (abstract interpretation over classes of f64)"""
from checks_root import *
from floatcls import *
import floatcls

BAD = [("NaN", F(NAN)), ("infinite", F(PINF)), ("minus infinity", F(NINF)), ("zero", F(ZERO)), ("negative", F(0, FIN, None))]
ANYX = F(ZERO, None, (MINF, 1.02))
SOME = F(0, None, (0.99 / 21, 1.02))


def meaningless(rep, mod, option):
    P = extract()
    S = Search(P, mod, option)
    if not S.pressures:
        raise Undecided("density() makes no pressure evaluation")
    M, D, bdd = S.M, S.M.D, S.M.bdd
    w = S.where + ("(%d)" % option if option is not None else "")
    ok = S.verd.get("Ok()", 0)
    # what the pressure evaluation can leave behind for a meaningless temperature
    RM = Machine(P, S.model)
    v = RM.setf(RM.new_state(), x=RM.xval(), t=RM.D.sym("T"), d=RM.D.sym("D"), p=RM.D.sym("P"))
    rv, post, ex = RM.call("pressure", v)
    cells = {p: x for p, x in leaves(post) if p in S.out["pressure"] and type(x) is Node and x.k == "f"}
    xs = RM.xsyms()
    nn = 0
    for name, val in BAD:
        # a meaningless pressure: nothing is known about the trials
        nn += judge(rep, S, {"P": val}, ok, w, "pressure", name, TOP)
        # a meaningless temperature: what a pressure evaluation can give there, for each component that may be the present one
        res, loc = None, {}
        for x in xs:
            E = Eval(RM.D, {**{y: ANYX for y in xs}, x: SOME, "T": val})
            res = both(res, E.value(rv))
            for p, n in cells.items():
                loc[p] = both(loc.get(p), E.value(n))
            nn += len(E.memo)
        env = {"T": val}
        for l in S.pressures:
            env[l.ret.a[0]] = res
            for p, y in loc.items():
                n = leaf(l.post, p)
                if type(n) is Node and n.op == "sym":
                    env[n.a[0]] = y
        nn += judge(rep, S, env, ok, w, "temperature", name, res)
    E = Eval(D, {"T": F(0, None, FIN), "P": F(0, None, FIN)})
    rep.ob(E.truth(ok) & 2, "%s can succeed at a positive temperature and pressure" % w, w)
    return nn


def both(a, b):
    return b if a is None else join(a, b)


def judge(rep, S, env, ok, w, who, name, trial):
    E = Eval(S.M.D, env)
    can = E.truth(ok) & 2
    n = len(E.memo)
    if can:
        # once more per number of trials, with what the path says about the values compared with constants
        can = 0
        bdd = S.M.bdd
        later = 0
        for l in reversed(S.pressures):
            okk = bdd.AND(ok, bdd.AND(l.cond, bdd.NOT(later)))
            later = bdd.OR(later, l.cond)
            if okk:
                E = Eval(S.M.D, env)
                if not refine(E, okk):
                    continue
                can |= E.truth(okk) & 2
                n += len(E.memo)
            if can:
                break
        else:
            can |= bdd.AND(ok, bdd.NOT(later)) != 0
    rep.ob(not can, "%s does not succeed when the %s is %s" % (w, who, name), w, "success is not excluded with trial pressures in %s" % trial)
    return n


def refine(E, cond):
    """narrows the compared values by the comparisons the condition implies; False: the condition is impossible"""
    D, bdd = E.D, E.D.bdd
    for v in sorted(bdd.support(cond)):
        n = D.atoms[v]
        c = const_cmp(n)
        if c is None:
            continue
        a = bdd.atom(v)
        t = True if bdd.imp(cond, a) else False if bdd.imp(cond, bdd.NOT(a)) else None
        if t is None:
            continue
        x, k, test = c
        r = meet(E.value(x), k, n.op, x is n.a[0], t)
        if not (r.f or r.n or r.p):
            return False
        E.memo[x] = r
    return True


def meet(a, k, op, left, t):
    """the part of a for which the comparison with k has truth value t"""
    if k != k:
        return a
    if op == "feq":
        if not t:
            return a
        lo = hi = k
    elif t:
        lo, hi = (-math.inf, k) if left else (k, math.inf)
    else:
        lo, hi = (k, math.inf) if left else (-math.inf, k)
    strict = op == "flt" if t else op == "fle"
    f = a.f & (0 if t else NAN)
    if lo == -math.inf and not (strict and hi == -math.inf):
        f |= a.f & NINF
    if hi == math.inf and not (strict and lo == math.inf):
        f |= a.f & PINF
    if lo <= 0 <= hi and not (strict and (lo == 0 or hi == 0)):
        f |= a.f & ZERO
    p = n = None
    if a.p and hi > 0:
        q = (max(a.p[0], lo), min(a.p[1], hi))
        p = q if q[0] <= q[1] else None
    if a.n and lo < 0:
        q = (max(a.n[0], -hi), min(a.n[1], -lo))
        n = q if q[0] <= q[1] else None
    return F(f, n, p)


def r05(rep, tier):
    n = 0
    P = extract()
    for mod in TRIALS:
        n += meaningless(rep, mod, None)
    rep.cover.update(values=n, classes=[c for c, _ in BAD], components=21)


CHECKS = {"R05": r05}
