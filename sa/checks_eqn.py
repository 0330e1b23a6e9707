"""E01-E03: the energies are the published equations; absent components contribute nothing"""
from state import *
import traceback
import interp
from checks_thermo import Run, EPSV, restrict, identities, by_parts
import reference


def energy(rep, mod, which, standard):
    P = extract()
    by_parts(rep, P, mod, lambda: compare(rep, P, Run(P, mod), mod, which, standard, None), lambda R, present: compare(rep, P, R, mod, which, standard, present))


def compare(rep, P, R, mod, which, standard, present):
    C, M = R.C, R.M
    events_ob(rep, M.I.events, R.w)
    ideal, resid = getattr(reference, which)(C, load_ref(which), *([present] if present else []))
    a = C.sub(R.poly("u"), C.mul(C.sym("T"), R.poly("s")))
    want = C.add(ideal, resid)
    d = C.differ(a, want, EPSV, closure=C.names)
    rep.ob(not d, "%s: u - T s is the Helmholtz energy of %s" % (mod, standard), blame(R, P) if d else R.w, "code minus reference: " + C.show(d, 3, 4) if d else "")
    # the pressure used by the density search comes from the same energy
    v, c0 = start(M)
    if present:
        v, c0 = restrict(M, v, present)
    rv, post, ex = M.call("pressure", v, cond=c0)
    p = C.conv(under(M.D, rv, c0))
    wp = C.mul(C.mul(C.sym("D"), C.sym("D")), C.diff(want, "D"))
    d = C.differ(p, wp, EPSV, closure=C.names)
    rep.ob(not d, "%s: the pressure is D^2 d/dD of the Helmholtz energy of %s" % (mod, standard), "%s::pressure" % mod, "code minus reference: " + C.show(d, 3, 4) if d else "")
    if present:
        return
    # term-by-term comparison by component and pair: what is present, and with which weight
    used = set()
    for m in want:
        for t in m:
            used |= C.asup[t[0]]
    rep.ob(set(C.names) <= used, "%s: the reference covers all 21 components" % mod, "", "")
    rep.cover.update(functions=sorted(f for f in M.I.fn_seen if f.startswith("aga8")), reference_terms=len(want), code_terms=len(a), assumed=sorted(C.assumed))
    rep.assumptions.append("T > 0, D > 1e-12, at least one nonzero fraction")


def blame(R, P):
    return R.w


def e01(rep, tier):
    energy(rep, "Detail", "detail", "AGA 8 Part 1")


def e02(rep, tier):
    energy(rep, "Gerg2008", "gerg", "GERG-2008")



# ------------------------------------------------------------------------------------------- absent components
REALISTIC = {"T": (1.0, False, 1e5, False), "D": (1e-6, False, 1e3, False), "P": (1e-3, False, 1e9, False)}


class Defined:
    """scan of values for undefined arithmetic under given facts: infinite or not-a-number constants"""

    def __init__(self, M, present):
        b = dict(REALISTIC)
        for x in present:
            b[x] = (1e-3, False, 1.0, False)
        self.truth = facts(b)
        self.bdd, self.D = M.bdd, M.D
        self.cm = {}
        self.seen = set()

    def cond(self, c):
        """the condition with every comparison the facts decide replaced by its value"""
        if c in (0, 1):
            return c
        r = self.cm.get(c)
        if r is None:
            asg = {v: self.truth(self.D.atoms[v]) for v in self.bdd.support(c)}
            r = self.bdd.cof(c, {v: t for v, t in asg.items() if t is not None})
            self.cm[c] = r
        return r

    def bad(self, v):
        """an undefined constant the value contains, or None"""
        todo = [v]
        while todo:
            x = todo.pop()
            if type(x) is tuple:
                todo += x
                continue
            if type(x) is float:
                if not math.isfinite(x):
                    return x
                continue
            if type(x) is not Node or x in self.seen:
                continue
            self.seen.add(x)
            if x.op == "c":
                if type(x.a) is float and not math.isfinite(x.a):
                    return x
                continue
            if x.op == "ite":
                c = self.cond(x.a[0])
                if c != 0:
                    todo.append(x.a[1])
                if c != 1:
                    todo.append(x.a[2])
                continue
            todo += [a for a in x.a if type(a) in (Node, tuple)] if type(x.a) is tuple else []
        return None


def subset(P, mod, present, out, what, cells):
    """one choice of the components that are present: obligations as (holds, rule, where, detail)"""
    rep = Report("E03")
    model = Model(P, mod)
    R = Run(P, mod, present=present)
    C, M = R.C, R.M
    tag = "%s, %s" % (mod, what)
    which = "detail" if mod == "Detail" else "gerg"
    ideal, resid = getattr(reference, which)(C, load_ref(which), set(present))
    want = C.add(ideal, resid)
    a = C.sub(R.poly("u"), C.mul(C.sym("T"), R.poly("s")))
    d = C.differ(a, want, EPSV, closure=C.names)
    rep.ob(not d, "%s: u - T s is the energy of the mixture without the absent components" % tag, R.w, "code minus reference: " + C.show(d, 3, 4) if d else "")
    D = Defined(M, present)
    S = Shape(M)

    def defined(op, post, rv):
        for p, x in list(leaves(post)) + [((), rv)]:
            if x is None:
                continue
            b = D.bad(x)
            if b is not None:
                rep.ob(False, "%s: %s() evaluates no undefined arithmetic" % (tag, op), "%s::%s" % (mod, op),
                       "%s contains %r" % (S.name(p) if p else "the result", b))
                return
        rep.ob(True, "%s: %s() evaluates no undefined arithmetic" % (tag, op))

    defined("properties", R.post, R.rv)
    v, c0 = restrict(M, R.pre, present)
    rv, post, ex = M.call("pressure", v, cond=c0)
    defined("pressure", post, rv)
    wp = C.mul(C.mul(C.sym("D"), C.sym("D")), C.diff(want, "D"))
    d = C.differ(C.conv(under(M.D, rv, c0)), wp, EPSV, closure=C.names)
    rep.ob(not d, "%s: pressure() is D^2 d/dD of the energy of the mixture without the absent components" % tag, "%s::pressure" % mod, "code minus reference: " + C.show(d, 3, 4) if d else "")
    rv, post, ex = M.call("molar_mass", v, cond=c0)
    defined("molar_mass", post, rv)
    mm = {}
    c = load_ref(which)["consts"]
    col = c["MMI" if mod == "Detail" else "MMI_GERG"]
    for i, n in enumerate(COMPONENTS):
        if "x_" + n in present:
            mm = C.add(mm, C.scale(C.sym("x_" + n), col[i + len(col) - 21]))
    g = R.node("mm")
    for n, val in (("molar_mass()", under(M.D, rv, c0)), ("properties()", g)):
        if type(val) is Node:
            d = C.differ(C.conv(val), mm, EPSV, closure=C.names)
            rep.ob(not d, "%s: %s gives the molar mass of the components present" % (tag, n), R.w, C.show(d, 3, 4) if d else "")
    # the density search: its own arithmetic (starting guess, pseudo-critical point) with pressures unknown
    st = State(1, {})
    hk = M.I.hooks
    M.I.hooks = hk + [summary(M, out)]
    v0 = M.setf(v, p=M.D.sym("P"))
    rv, post, cond = apply(M, "density", v0, st)
    M.I.hooks = hk
    defined("density", under(M.D, post, M.bdd.AND(cond, c0)), None)
    # the remaining properties follow from the energy by the same identities
    identities(rep, R)
    return [(v["rule"], v["where"], v["detail"]) for v in rep.violations], rep.obl, rep.done, rep.undecided, sorted(f for f in M.I.fn_seen if f.startswith("aga8")), sorted(C.assumed)


_JOB = {}


def job(i):
    mod, present, what = _JOB["list"][i]
    P = _JOB["P"]
    try:
        return subset(P, mod, present, _JOB[mod][0], what, _JOB[mod][1])
    except (Undecided, interp.Unsupported, TooBig, Undiff) as e:
        return [], 0, 0, ["%s, %s: %s: %s" % (mod, what, type(e).__name__, e)], [], []


def parallel(n, f, workers=8):
    """f(0..n-1) in forked workers with the current thread's stack"""
    import pickle
    pipes = []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                res = [(i, f(i)) for i in range(w, n, workers)]
                with os.fdopen(wr, "wb") as fh:
                    pickle.dump(res, fh)
            except BaseException:
                traceback.print_exc()
                code = 1
            os._exit(code)
        os.close(wr)
        pipes.append((pid, r))
    out = [None] * n
    for pid, r in pipes:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        if not data:
            raise Undecided("a worker failed")
        for i, x in pickle.loads(data):
            out[i] = x
    return out


def e03(rep, tier):
    P = extract()
    _JOB["P"] = P
    names = ["x_" + n for n in COMPONENTS]
    l = []
    for mod in ("Detail", "Gerg2008"):
        _JOB[mod] = written(P, mod)
        for n in names:
            l.append((mod, [m for m in names if m != n], n[2:] + " absent"))
        for n in names:
            l.append((mod, [n], "only %s present" % n[2:]))
        pairs = [(a, b) for i, a in enumerate(names) for b in names[i + 1:]]
        if tier != "thorough":
            pairs = pairs[::7]
        for a, b in pairs:
            l.append((mod, [a, b], "only %s and %s present" % (a[2:], b[2:])))
    _JOB["list"] = l
    fns, assumed = set(), set()
    for viol, obl, done, und, f, asm in parallel(len(l), job):
        for r, w, d in viol:
            rep.ob(False, r, w, d)
        rep.obl += obl - len(viol)
        rep.done += done
        rep.undecided += und
        fns |= set(f)
        assumed |= set(asm)
    rep.cover.update(functions=sorted(fns), subsets=len(l), assumed=sorted(assumed))
    rep.assumptions.append("temperatures of 1 K to 1e5 K, densities of 1e-6 to 1e3 mol/l for the definedness scan")


CHECKS = {"E01": e01, "E02": e02, "E03": e03}
