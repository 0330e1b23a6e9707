"""C01-C05: compositions"""
from common import *


def c01(rep, tier):
    P = extract()
    M = Machine(P)
    c = CompBox(M)
    st = State(1, {})
    rv = M.I.run(find(P, COMP + "::sum"), [c.put(st)], st)
    events_ob(rep, M.I.events, "Composition::sum")
    names = ["c_" + n for n in c.names]
    C = CAS(M.D, (), None, lambda n: None)

    def pres(node):  # only exact tests against zero are harmless
        if node.op == "feq":
            a, b = node.a
            for x, y in ((a, b), (b, a)):
                if x.op == "sym" and x.a[0] in names and y.op == "c" and y.a == 0:
                    return (x.a[0], False)
        return None

    C.present = pres
    p = C.conv(rv)
    for n in names:
        co = p.get(((C.atom("sym", n, [n]), Q),), (0.0, 0.0))[0]
        rep.ob(abs(co - 1.0) <= 1e-12, "sum counts %s with weight one" % n[2:], "Composition::sum", "weight %r" % co)
    rest = {m: v for m, v in p.items() if not (len(m) == 1 and m[0][1] == Q and C.atoms[m[0][0]][0] == "sym" and C.atoms[m[0][0]][1] in names)}
    rep.ob(not rest, "sum contains nothing but the 21 fractions", "Composition::sum", C.show(rest))
    rep.cover.update(functions=sorted(x for x in M.I.fn_seen if x.startswith("aga8")))


def setup(M):
    c = CompBox(M)
    names = ["c_" + n for n in c.names]
    C = CAS(M.D, names, None, lambda n: None)
    C.positive = lambda p, nonneg=(): False
    return c, names, C


def table(rep, M, S, verd, what, where, expect, spec):
    """the verdict as a function of the total, over every region of f64"""
    pts = set(spec)
    for cond in verd.values():
        pts |= S.breakpoints(cond)
    n = 0
    for s in samples(pts, spec):
        want = expect(s)
        if want is None:
            continue
        got = {k: S.bev(c, s) for k, c in verd.items()}
        res = [k for k, b in got.items() if b == 1]
        n += 1
        rep.ob(res == [want] and all(b in (0, 1) for b in got.values()), "%s answers %s for a total of %.12g (and its region)" % (what, want, s), where,
               "answers %s" % (res or "depending on more than the total: " + "; ".join("%s when %s" % (k, M.D.bshow(b, 3)[:160]) for k, b in got.items() if b != 0)))
    return n


CERR = "aga8::composition::CompositionError"


def c02(rep, tier):
    P = extract()
    M = Machine(P)
    D, bdd = M.D, M.bdd
    c, names, C = setup(M)
    st = State(1, {})
    rv = M.I.run(find(P, COMP + "::normalize"), [c.put(st)], st)
    events_ob(rep, M.I.events, "Composition::normalize")
    tot = total_poly(C, names)
    S = Scalar(D, C, tot)
    v = verdict(D, P, rv, CERR)

    def expect(s):
        if s == math.inf:
            return None
        return "Ok()" if s > 0 else "Empty"

    n = table(rep, M, S, v, "normalize", "Composition::normalize", expect, [0.0])
    post = c.get(st)
    ok = v.get("Ok()", 0)
    er = bdd.NOT(ok)
    inv = C.power(tot, -Q)

    def pres(node):
        if node.op == "feq":
            a, b = node.a
            for x, y in ((a, b), (b, a)):
                if x.op == "sym" and x.a[0] in names and y.op == "c" and y.a == 0:
                    return (x.a[0], False)
        return None

    C.present = pres
    # after success, tests of the total against zero are decided
    C.truth = lambda node: scalar_truth(S, node)
    for nme in c.names:
        p = C.conv(under(D, post[nme], ok))
        want = C.mul(C.sym("c_" + nme), inv)
        e, d = polyeq(C, p, want)
        rep.ob(e, "normalize scales %s by the reciprocal of the total" % nme, "Composition::normalize", d)
        u = under(D, post[nme], er)
        rep.ob(u is c.sym[nme], "normalize leaves %s unchanged when it fails" % nme, "Composition::normalize", show(u))
    rep.cover.update(functions=sorted(x for x in M.I.fn_seen if x.startswith("aga8")), regions=n)


def scalar_truth(S, node):
    """atoms with one truth value for every finite positive total"""
    try:
        f, g = S.fn(node.a[0]), S.fn(node.a[1])
    except (NotScalar, AttributeError, IndexError):
        return None
    vals = set()
    for s in (1e-290, 1e-9, 1e-3, 0.5, 1.0, 2.0, 1e3, 1e9, 1e290):
        a, b = S.ev(f, s), S.ev(g, s)
        vals.add(a < b if node.op == "flt" else a <= b if node.op == "fle" else a == b)
    return vals.pop() if len(vals) == 1 else None


def c03_expect(s):
    if s != s:
        return "BadSum"
    if abs(s) < 1e-10:
        return "Empty"
    return "Ok()" if abs(s - 1.0) <= 0.01 else "BadSum"


C03SPEC = [-1e-10, 1e-10, 0.99, 1.01]


def c03(rep, tier):
    P = extract()
    M = Machine(P)
    D = M.D
    c, names, C = setup(M)
    st = State(1, {})
    rv = M.I.run(find(P, COMP + "::check"), [c.put(st)], st)
    events_ob(rep, M.I.events, "Composition::check")
    S = Scalar(D, C, total_poly(C, names))
    v = verdict(D, P, rv, CERR)
    n = table(rep, M, S, v, "check", "Composition::check", c03_expect, C03SPEC)
    post = c.get(st)
    for nme in c.names:
        rep.ob(post[nme] is c.sym[nme], "check leaves %s unchanged" % nme, "Composition::check", show(post[nme]))
    rep.cover.update(functions=sorted(x for x in M.I.fn_seen if x.startswith("aga8")), regions=n)


def c04(rep, tier):
    P = extract()
    n = 0
    seen = set()
    for name in ("Detail", "Gerg2008"):
        M = Machine(P, Model(P, name))
        D, bdd = M.D, M.bdd
        c, names, C = setup(M)
        # reference verdict: validation of the same composition
        st = State(1, {})
        r0 = M.I.run(find(P, COMP + "::check"), [c.put(st)], st)
        v0 = verdict(D, P, r0, CERR)
        pre = M.I.symbolic(M.m.ty, "self")
        k = M.I.newkey(M.m.ty)
        st = State(1, {k: pre})
        a = c.put(st)
        M.I.events = []
        rv = M.I.run(M.m.fn("set_composition"), [Ptr(k, (), None), a], st)
        post = st.mem[k]
        w = "%s::set_composition" % name
        events_ob(rep, M.I.events, w)
        v = verdict(D, P, rv, CERR)
        S = Scalar(D, C, total_poly(C, names))
        same = all(v.get(x, 0) == v0.get(x, 0) for x in set(v) | set(v0))
        if same:
            rep.ob(True, w + " returns exactly the verdict of validation")
        else:
            pts = set(C03SPEC)
            for cond in list(v.values()) + list(v0.values()):
                pts |= S.breakpoints(cond)

            def expect(s):
                r = [x for x, cc in v0.items() if S.bev(cc, s) == 1]
                return r[0] if len(r) == 1 else None

            n += table(rep, M, S, v, w, w, expect, C03SPEC)
        ok = v.get("Ok()", 0)
        rep.ob(ok != 0, w + " can succeed", w)
        er = bdd.NOT(ok)
        xs = M.getf(post, "x")
        for i, cn in enumerate(COMPONENTS):
            u = under(D, xs[M.m.off + i], ok)
            rep.ob(u is c.sym[cn], "%s stores %s in its slot" % (w, cn), w, "x[%d] = %s" % (M.m.off + i, show(u)))
        for f in M.m.public():
            old, new = M.getf(pre, f), under(D, M.getf(post, f), er)
            rep.ob(old == new, "%s leaves %s unchanged on failure" % (w, f), w, repr(new)[:200])
        for f in ("t", "p", "d"):
            old, new = M.getf(pre, f), under(D, M.getf(post, f), ok)
            rep.ob(old == new, "%s does not touch %s" % (w, f), w, repr(new)[:200])
        seen |= set(x for x in M.I.fn_seen if x.startswith("aga8"))
    rep.cover.update(functions=sorted(seen), regions=n)


def c06(rep, tier):
    P = extract()
    M = Machine(P)
    D, bdd = M.D, M.bdd
    norm, chk = find(P, COMP + "::normalize"), find(P, COMP + "::check")
    # ---- the default composition
    mk = [f for f in P.fns if f["inst"] is not None and f["reachable"] and not f["inputs"] and f["output"] == tid(P, COMP)]
    rep.ob(any("Default" in f["name"] for f in mk), "compositions have a default value", COMP)
    for f in mk:
        w = "%s (%s)" % (f["name"], f["span"])
        st = State(1, {})
        v = M.I.run(P.insts[f["inst"]], [], st)
        bad = [n for i, n in enumerate(CompBox(M).names) if type(v) is not tuple or v[i].op != "c" or v[i].a != 0]
        rep.ob(st.cond == 1 and not bad, "%s has 21 zero fractions" % f["name"], w, ", ".join(bad[:5]))
        if bad:
            continue
        k = M.I.newkey(tid(P, COMP))
        for inst, what in ((chk, "check"), (norm, "normalize")):
            st = State(1, {k: v})
            rv = M.I.run(inst, [Ptr(k, (), None)], st)
            vd = {x: c for x, c in verdict(D, P, rv, CERR).items() if c}
            rep.ob(vd == {"Empty": 1}, "the default composition is empty to %s" % what, w, str(sorted(vd)))
            rep.ob(st.mem[k] == v, "%s leaves the default composition as it is" % what, w)
    # ---- normalised, then validated and installed
    c, names, C = setup(M)
    tot = total_poly(C, names)
    S = Scalar(D, C, tot)
    st = State(1, {})
    a = c.put(st)
    rv = M.I.run(norm, [a], st)
    ok = verdict(D, P, rv, CERR).get("Ok()", 0)
    rep.ob(ok != 0, "normalize can succeed", "Composition::normalize")
    C.truth = lambda node: scalar_truth(S, node)
    post = {n: under(D, x, ok) for n, x in c.get(st).items()}
    # the new total, and the fractions as unknown quantities that add up to it
    new = {}
    for n in c.names:
        new = C.add(new, C.mul(C.conv(post[n]), tot))
    rep.ob(not C.differ(new, tot), "the total is one after normalize", "Composition::normalize", C.show(C.sub(new, tot), 2, 4))
    sites = [("Composition::check", None)] + [("%s::set_composition" % m, m) for m in ("Detail", "Gerg2008")]
    for w, mod in sites:
        M2 = Machine(P, Model(P, mod)) if mod else Machine(P)
        c2, n2, C2 = setup(M2)
        st = State(1, {})
        if mod:
            k = M2.I.newkey(M2.m.ty)
            st = State(1, {k: M2.I.symbolic(M2.m.ty, "self")})
            rv = M2.I.run(M2.m.fn("set_composition"), [Ptr(k, (), None), c2.put(st)], st)
        else:
            rv = M2.I.run(find(P, COMP + "::check"), [c2.put(st)], st)
        v = verdict(M2.D, P, rv, CERR)
        S2 = Scalar(M2.D, C2, total_poly(C2, n2))
        for s in (1.0, 1 - 1e-12, 1 + 1e-12):
            got = {x: S2.bev(q, s) for x, q in v.items()}
            good = got.get("Ok()") == 1 and all(q == 0 for x, q in got.items() if x != "Ok()")
            rep.ob(good, "%s accepts a normalised composition" % w, w, "; ".join("%s when %s" % (x, M2.D.bshow(q, 3)[:160]) for x, q in got.items() if q != 0))
    rep.cover.update(functions=sorted(x for x in M.I.fn_seen | M2.I.fn_seen if x.startswith("aga8")), defaults=[f["name"] for f in mk])


def c05(rep, tier):
    P = extract()
    seen = set()
    for name in ("Detail", "Gerg2008"):
        M = Machine(P, Model(P, name))
        D = M.D
        ref = load_ref("detail" if name == "Detail" else "gerg")["mm"]
        s0 = M.new_state()
        pre = M.I.symbolic(M.m.ty, "self")
        # constants of the model keep the values the constructor gave them
        pre = tuple(s0[i] if f not in M.m.public() else pre[i] for f, i in sorted(M.m.fields.items(), key=lambda t: t[1]))
        pad = D.sym("pad")
        x = list(M.xval())
        if M.m.off:
            x[0] = pad
        pre = M.setf(pre, x=tuple(x))
        M.I.events = []
        rv, post, ex = M.call("molar_mass", pre)
        w = "%s::molar_mass" % name
        events_ob(rep, M.I.events, w)
        C = CAS(D, (), None, lambda n: None)

        def pres(node):
            if node.op == "feq":
                a, b = node.a
                for p, q in ((a, b), (b, a)):
                    if p.op == "sym" and p.a[0] in M.xsyms() and q.op == "c" and q.a == 0:
                        return (p.a[0], False)
            return None

        C.present = pres
        vals = [("mm", M.getf(post, "mm"))]
        if type(rv) is Node:
            vals.append(("returned value", rv))
        for lab, node in vals:
            p = C.conv(node)
            for cn in COMPONENTS:
                co = p.get(((C.atom("sym", "x_" + cn, ["x_" + cn]), Q),), (0.0, 0.0))[0]
                rep.ob(abs(co - ref[cn]) <= 1e-9 * ref[cn], "%s: %s weighs %s with %.7g g/mol" % (w, lab, cn, ref[cn]), w, "weight %r" % co)
            ids = [((C.atom("sym", "x_" + cn, []), Q),) for cn in COMPONENTS]
            rest = {m: v for m, v in p.items() if m not in ids}
            rep.ob(not rest, "%s: %s depends on nothing but the 21 fractions" % (w, lab), w, C.show(rest))
        for f in ("t", "p", "d", "x"):
            rep.ob(M.getf(post, f) == M.getf(pre, f), "%s does not touch %s" % (w, f), w)
        # the property calculation reports the same molar mass
        v, c0 = start(M, s0)
        M.I.events = []
        rv, post, ex = M.call("properties", v, cond=c0)
        q = C.conv(under(D, M.getf(post, "mm"), c0))
        want = {}
        for cn in COMPONENTS:
            want = C.add(want, C.scale(C.sym("x_" + cn), ref[cn]))
        e, d = polyeq(C, q, want)
        rep.ob(e, "%s::properties reports that molar mass" % name, "%s::properties" % name, d)
        seen |= set(z for z in M.I.fn_seen if z.startswith("aga8"))
    rep.cover.update(functions=sorted(seen))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06}
