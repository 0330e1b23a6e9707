"""H01, H02: results are a function of the current inputs, whatever calculations came before.

The state after any history is covered by induction over the public operations: cold runs (a new model whose
scratch cells are arbitrary) give the reference results and the pattern of what they leave behind; warm runs
start from that pattern for other, arbitrary inputs and must give the cold results and the pattern again."""
from state import *
from checks_root import Search

import os
from collections import Counter
DBG = os.environ.get("AGA8_DBG")
CALC = ("pressure", "properties")


class Hist:
    def __init__(self, P, mod):
        self.P, self.mod = P, mod
        self.model = Model(P, mod)
        self.out, self.cells = written(P, mod)
        self.M = M = Machine(P, self.model)
        M.I.sense = True
        self.D = M.D
        self.S = Shape(M)
        self.s0 = M.new_state()
        self.init = dict(leaves(self.s0))
        self.junk = {c: fresh(M, c, self.init[c], "~") for c in self.cells}
        self.junkof = {}
        for c, v in self.junk.items():
            for n in names_of(self.D, v):
                self.junkof[n] = c
        self.xs = M.xsyms()
        # fractions are numbers: a component is either present or not
        self.D.numbers = frozenset(self.xs) | {x.replace("x_", "y_") for x in self.xs}

    def inputs(self, cells, sub=None):
        """a model with unknown inputs and outputs and the given private cells"""
        M = self.M
        v = base(M, self.s0, ())
        return setleaves(v, cells) if cells else v

    def cond(self, x="x", T="T"):
        M, D = self.M, self.D
        c = nonempty(M, 1, x)
        return M.bdd.AND(c, M.bdd.NOT(D.fcmp("eq", D.sym(T), D.const(0.0))))

    def run(self, op, cells, cond):
        """(results, private cells afterwards, condition) of an operation on the current inputs"""
        M = self.M
        v = self.inputs(cells)
        st = State(cond, {})
        M.I.events = []
        rv, post, ex = apply(M, op, v, st)
        memo = {}
        res = {}
        if rv != ():
            res["return value"] = rv
        for p in sorted(self.out[op]):
            if not self.S.private(p) and p[0] not in (self.model.fields["x"],):
                res[self.S.name(p)] = leaf(post, p)
        for p in self.extra:
            if p in self.out[op]:
                res[self.S.name(p)] = leaf(post, p)
        priv = {c: leaf(post, c) for c in self.cells}
        res = {k: under(self.D, r, ex, memo) for k, r in res.items()}
        priv = {k: under(self.D, r, ex, memo) for k, r in priv.items()}
        return res, priv, ex

    def cold(self, c0):
        """(key cells, {operation: run}): calculations of a new model, keys as constructed, other cells arbitrary.
        Keys are the cells that path conditions depend on; whole fields at a time, the smallest first: the tables they
        guard usually leave the conditions with them."""
        H, D = self, self.D
        keys = set()
        size = Counter(c[0] for c in H.cells)
        while True:
            cells = {c: (H.init[c] if c in keys else H.junk[c]) for c in H.cells}
            cold = {op: H.run(op, cells, c0) for op in CALC}
            conds = set()
            seen = set()
            for res, priv, ex in cold.values():
                for v in list(res.values()) + list(priv.values()):
                    conditions(D, v, conds, seen)
            more = {H.junkof[n] for r in conds for n in cond_names(D, r) if n in H.junkof}
            if more <= keys:
                return keys, cold
            fl = min({c[0] for c in more - keys}, key=lambda f: (size[f], f))
            keys |= {c for c in H.cells if c[0] == fl}

    def junk_in(self, v):
        return sorted({self.junkof[n] for n in names_of(self.D, v) if n in self.junkof})


def names_of(D, v, out=None):
    """symbols a value depends on (conditions included)"""
    out = set() if out is None else out
    if type(v) is tuple:
        for x in v:
            names_of(D, x, out)
    elif type(v) is Node:
        out |= D.support(v)
    elif type(v) is Bd:
        out |= cond_names(D, v.r)
    elif type(v) is Enum:
        names_of(D, v.d, out)
        for p in v.p.values():
            names_of(D, p, out)
    elif type(v) is IteV:
        out |= cond_names(D, v.c)
        names_of(D, v.x, out)
        names_of(D, v.y, out)
    return out


def cond_names(D, r):
    out = set()
    for a in D.bdd.support(r):
        out |= D.support(D.atoms[a])
    return out


def conditions(D, v, out, seen):
    """every path condition inside a value"""
    todo = [v]
    while todo:
        x = todo.pop()
        t = type(x)
        if t is tuple:
            todo.extend(x)
        elif t is Bd:
            out.add(x.r)
        elif t is Enum:
            todo.append(x.d)
            todo.extend(x.p.values())
        elif t is IteV:
            out.add(x.c)
            todo += [x.x, x.y]
        elif t is Node and x not in seen:
            seen.add(x)
            if x.op == "ite":
                out.add(x.a[0])
                todo += [x.a[1], x.a[2]]
            elif x.op not in ("c", "sym"):
                todo.extend(y for y in x.a if type(y) is Node)
    return out


def eqnorm(D, v, pairs):
    """in the branch of a choice that implies a == b, a is b: fn over the pairs (stored symbol, current symbol)"""
    bdd = D.bdd
    atoms = [(D.fcmp("eq", D.sym(a), D.sym(b)), a, b) for a, b in pairs]
    memo = {}
    subs = {}

    def sub(eqs):
        r = subs.get(eqs)
        if r is None:
            m = {a: D.sym(b) for _, a, b in [atoms[i] for i in eqs]}
            r = subs[eqs] = substitute(D, None, lambda n: m.get(n.a[0]))
        return r

    def go(x, eqs):
        if type(x) is not Node or x.op in ("c", "sym"):
            return sub(eqs)[0](x) if eqs else x
        k = (x, eqs)
        r = memo.get(k)
        if r is not None:
            return r
        if x.op == "ite":
            c = sub(eqs)[1](x.a[0]) if eqs else x.a[0]
            r = None
            br = []
            for cc, y in ((c, x.a[1]), (bdd.NOT(c), x.a[2])):
                more = frozenset(i for i, (q, a, b) in enumerate(atoms) if i not in eqs and bdd.imp(cc, q)) if cc else frozenset()
                br.append(go(y, eqs | more))
            r = D.ite(c, br[0], br[1])
        else:
            kids = tuple(go(y, eqs) if type(y) is Node else y for y in x.a)
            r = x if kids == x.a else rebuild(D, x, kids)
        memo[k] = r
        return r

    return go(v, frozenset())


def hcheck(rep, mod):
    P = extract()
    H = Hist(P, mod)
    M, D, bdd = H.M, H.D, H.M.bdd
    f = H.model.fields
    # what the density search reads of the model besides its inputs
    S = Search(P, mod)
    reads = set()
    vals = [S.rv, S.M.getf(S.post, "d"), S.cond]
    for v in (S.rv, S.M.getf(S.post, "d")):
        reads |= names_of(S.M.D, v)
    for c in S.verd.values():
        reads |= cond_names(S.M.D, c)
    for l in S.log:
        reads |= cond_names(S.M.D, l.cond) | names_of(S.M.D, leaf(l.pre, (f["d"],)))
    allowed = {"T", "P", "D", "arg0"} | set(H.xs)
    byname = {H.S.name(p): p for p, _ in leaves(H.s0)}
    H.extra = set()
    bad = []
    for n in sorted(reads):
        if n in allowed:
            continue
        if "@" in n:
            cell = n.split("@")[0]
            if cell == "ret":
                continue
            p = byname.get(cell)
            if p is None:
                bad.append(n)
            elif H.S.private(p):
                H.extra.add(p)
        else:
            bad.append(n)
    rep.ob(not bad, "%s::density depends only on composition, temperature, pressure, the stored density and its own evaluations" % mod, "%s::density" % mod,
           "it also reads " + ", ".join(b.replace("~", "") for b in bad[:6]))
    own = set()
    for l in S.log:
        pass
    # the search itself leaves no trace but through its evaluations
    touched = set().union(*(H.out[o] for o in CALC))
    own = [p for p in H.out["density"] if H.S.private(p) and p not in touched]
    rep.ob(not own, "%s::density leaves no private trace besides its evaluations" % mod, "%s::density" % mod, ", ".join(H.S.name(p) for p in own[:5]))
    # the other operations
    others = [o for o in operations(P, mod) if o not in CALC + ("density",)]
    for o in others:
        res, priv, ex = H.run(o, dict(H.junk), 1)
        names = set()
        for v in res.values():
            names |= names_of(D, v)
        badc = sorted({H.junkof[n] for n in names if n in H.junkof})
        rep.ob(not badc, "%s::%s depends on no cached value" % (mod, o), "%s::%s" % (mod, o), ", ".join(H.S.name(c) for c in badc[:6]))
    # ---- cold runs: keys as constructed, everything else arbitrary
    c0 = H.cond()
    keys, cold = H.cold(c0)
    events = list(M.I.events)
    events_ob(rep, events, mod)
    for op in CALC:
        res, priv, ex = cold[op]
        for n, v in res.items():
            j = H.junk_in(v)
            rep.ob(not j, "%s::%s: %s of a new model depends on nothing but the inputs" % (mod, op, n), "%s::%s" % (mod, op), "it depends on " + ", ".join(H.S.name(c) for c in j[:5]))
    if rep.violations:
        rep.cover.update(functions=sorted(x for x in M.I.fn_seen if x.startswith("aga8")))
        return
    # patterns: where a cell keeps arbitrary contents it is not part of the pattern
    pat = {op: {c: (v, dead(H, c, v)) for c, v in cold[op][1].items()} for op in CALC}
    inter = [o for o in others if any(p in H.cells for p in H.out[o])]
    carried = set(H.cells)
    runs = 0
    for rnd in range(6):
        drop = set()
        fails = []
        later = []
        for A in CALC:
            for mid in [None] + inter:
                for eqx in (True, False):
                    for eqt in (True, False):
                        case = "after %s%s with %s composition and %s temperature" % (A, " and " + mid if mid else "", "the same" if eqx else "another", "the same" if eqt else "another")
                        start_cells, cc = warm(H, cold[A][1], carried, eqx, eqt)
                        if mid:
                            start_cells = between(H, mid, start_cells, cc)
                        for B in CALC:
                            runs += 1
                            res, priv, ex = H.run(B, start_cells, cc)
                            for n, v in res.items():
                                w = under(D, cold[B][0][n], ex)
                                if DBG and v is not w:
                                    import sys
                                    firstdiff(D, v, w)
                                    print(case, B, n, foreign(H, v)[:4], file=sys.stderr, flush=True)
                                r = same(H, v, w, eqx, eqt, quick=True)
                                if r is None:
                                    later.append(((H, v, w, eqx, eqt), fails.append, (A, B, case, n, v, w)))
                                elif not r:
                                    fails.append((A, B, case, n, v, w))
                            for c in carried:
                                v = priv[c]
                                w, live = pat[B][c]
                                lv = bdd.AND(ex, live)
                                if lv == 0:
                                    continue
                                v2, w2 = under(D, v, lv), under(D, w, lv)
                                if v2 is not w2 and v2 != w2:
                                    r = same(H, v2, w2, eqx, eqt, lv, quick=True)
                                    if r is None:
                                        later.append(((H, v2, w2, eqx, eqt, lv), drop.add, c))
                                        continue
                                    if r:
                                        continue
                                    if DBG and len(drop) < 3:
                                        import sys
                                        print("DROP", H.S.name(c), case, B, file=sys.stderr)
                                        firstdiff(D, v2, w2)
                                    drop.add(c)
        if not fails:
            # comparisons that need the algebra
            for a, act, what in later:
                if act == drop.add and what in drop:
                    continue
                if not same(*a):
                    act(what)
        if fails or not drop:
            break
        carried -= drop
    for A in CALC:
        for B in CALC:
            mine = [x for x in fails if x[0] == A and x[1] == B]
            for n in cold[B][0]:
                b = [x for x in mine if x[3] == n]
                rep.ob(not b, "%s::%s: %s is that of a new model with the same inputs, after any %s" % (mod, B, n, A), "%s::%s" % (mod, B),
                       why(H, b[0]) if b else "")
    rep.cover.update(functions=sorted(x for x in M.I.fn_seen if x.startswith("aga8")), warm_runs=runs, keys=sorted({H.S.fname[c[0]] for c in keys}),
                     cached=sorted({H.S.fname[c[0]] for c in carried if any(pat[o][c][1] for o in CALC)}), private_cells=len(H.cells),
                     scratch=sorted({H.S.fname[c[0]] for c in H.cells - carried}), operations_between=inter, rounds=rnd + 1)
    rep.assumptions.append("compositions with a nonzero fraction and nonzero temperatures, throughout the history")


def firstdiff(D, v, w):
    import sys
    d = 0
    while True:
        if type(v) is not Node or type(w) is not Node or v.op != w.op or v.op in ("sym", "c"):
            print("DIFF", d, show(v, 3)[:300], " /// ", show(w, 3)[:300], file=sys.stderr)
            if type(v) is Node and v.op == "ite":
                print("   COND", D.bshow(v.a[0], 4)[:1500], file=sys.stderr)
            if type(w) is Node and w.op == "ite":
                print("   WCOND", D.bshow(w.a[0], 4)[:1500], file=sys.stderr)
            return
        if v.op == "ite" and v.a[0] != w.a[0]:
            print("DIFF cond", D.bshow(v.a[0], 4)[:1000], " /// ", D.bshow(w.a[0], 4)[:1000], file=sys.stderr)
            return
        for a, b in zip(v.a, w.a):
            if a is not b and a != b:
                v, w = a, b
                break
        d += 1


def dead(H, c, v):
    """condition under which a cell's value is determined (not the arbitrary contents it had)"""
    j = H.junk[c]
    if v is j:
        return 0
    D = H.D
    live = 1
    r = 0

    def go(x, cond):
        nonlocal r
        if cond == 0:
            return
        if x is j:
            r = D.bdd.OR(r, cond)
            return
        if type(x) is Node and x.op == "ite":
            go(x.a[1], D.bdd.AND(cond, x.a[0]))
            go(x.a[2], D.bdd.AND(cond, D.bdd.NOT(x.a[0])))

    go(v, 1)
    return D.bdd.NOT(r)


def warm(H, priv, carried, eqx, eqt):
    """private cells left by an earlier calculation for other inputs, and the condition of the case"""
    D, M, bdd = H.D, H.M, H.M.bdd
    ren = {"D": "D'", "P": "P'", "pad": "pad'"}
    if not eqx:
        ren.update({x: x.replace("x_", "y_") for x in H.xs})
    if not eqt:
        ren["T"] = "T'"
    for n in H.junkof:
        ren[n] = n + "'"
    syms = {}

    def fn(n):
        r = ren.get(n.a[0])
        return None if r is None else D.sym(r, n.k)

    go, gob = substitute(D, None, fn)
    cells = {c: (go(priv[c]) if c in carried else H.junk[c]) for c in H.cells}
    cc = H.cond()
    ys = [x if eqx else x.replace("x_", "y_") for x in H.xs]
    if not eqx:
        cc = bdd.AND(cc, nonempty(M, 1, "y"))
        alleq = 1
        for x, y in reversed(list(zip(H.xs, ys))):
            alleq = bdd.AND(D.fcmp("eq", D.sym(x), D.sym(y)), alleq)
        cc = bdd.AND(cc, bdd.NOT(alleq))
    else:
        # equal stored fractions are numbers
        for x in H.xs:
            cc = bdd.AND(cc, D.fcmp("eq", D.sym(x), D.sym(x)))
    if not eqt:
        cc = bdd.AND(cc, bdd.NOT(D.fcmp("eq", D.sym("T'"), D.const(0.0))))
        cc = bdd.AND(cc, bdd.NOT(D.fcmp("eq", D.sym("T"), D.sym("T'"))))
    else:
        cc = bdd.AND(cc, D.fcmp("eq", D.sym("T"), D.sym("T")))
    return cells, cc


def between(H, op, cells, cc):
    """private cells after a further operation"""
    res, priv, ex = H.run(op, cells, cc)
    return priv


def leafmap(D, v, c, limit=200):
    """{leaf: condition} of the choices at the top of a value, on executions satisfying c"""
    out = {}
    bdd = D.bdd
    n = 0
    todo = [(v, c)]
    while todo:
        x, c = todo.pop()
        if c == 0:
            continue
        if type(x) is Node and x.op == "ite":
            n += 1
            if n > limit:
                return None
            todo.append((x.a[1], bdd.AND(c, x.a[0])))
            todo.append((x.a[2], bdd.AND(c, bdd.NOT(x.a[0]))))
        else:
            out[x] = bdd.OR(out.get(x, 0), c)
    return out


def same(H, v, w, eqx, eqt, cond=1, quick=False):
    """are two values equal; quick: None where only the algebra can tell"""
    if v is w or (type(v) is not Node and v == w):
        return True
    D = H.D
    if type(v) is Node and type(w) is Node:
        a, b = leafmap(D, v, cond), leafmap(D, w, cond)
        if a is not None and a == b:
            return True
    if type(v) is Node and type(w) is Node:
        pairs = []
        if not eqx:
            pairs += [(x.replace("x_", "y_"), x) for x in H.xs]
        if not eqt:
            pairs.append(("T'", "T"))
        if pairs:
            v2 = eqnorm(D, v, pairs)
            if v2 is w:
                return True
            v = v2
        if foreign(H, v):
            return False
        if quick:
            return None
        C = algebra(H.M)
        try:
            return not C.differ(C.conv(v), C.conv(w))
        except (TooBig, Undiff):
            return False
    return False


def foreign(H, v):
    """symbols of earlier inputs or stale contents"""
    return sorted(n for n in names_of(H.D, v) if n.endswith("'") or n.startswith("y_") or n in H.junkof)


def why(H, x):
    A, B, case, n, v, w = x
    fs = foreign(H, v)
    cells = sorted({z.split("~")[0] for z in fs if "~" in z})
    inp = sorted({z.rstrip("'").replace("y_", "x of ") for z in fs if "~" not in z})
    s = case + ": "
    if cells:
        s += "depends on stale contents of " + ", ".join(cells[:5])
    if inp:
        s += (" and " if cells else "depends ") + "on the earlier " + ", ".join(inp[:4])
    return s if fs else s + "%s instead of %s" % (show(v, 3), show(w, 3))


def h01(rep, tier):
    hcheck(rep, "Detail")


def h02(rep, tier):
    hcheck(rep, "Gerg2008")


CHECKS = {"H01": h01, "H02": h02}
