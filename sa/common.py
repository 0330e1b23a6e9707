"""helpers shared by the checks"""
import math
from core import *
from cas import CAS, Q, ONE, TooBig, Undiff
from regions import Scalar, NotScalar, samples

COMP = "aga8::composition::Composition"


def tid(P, name):
    for i, T in enumerate(P.types):
        if T["k"] == "adt" and T["name"] == name:
            return i
    raise Undecided("type %s not found" % name)


def variants(P, name):
    return [v["name"] for v in P.types[tid(P, name)]["variants"]]


class CompBox:
    """a symbolic composition in memory"""

    def __init__(self, M, prefix="c"):
        self.M = M
        P = M.P
        self.ty = tid(P, COMP)
        fs = P.types[self.ty]["variants"][0]["fields"]
        self.names = [f[0] for f in fs]
        if sorted(self.names) != sorted(COMPONENTS):
            raise Undecided("Composition does not have the 21 documented component fields")
        self.sym = {n: M.D.sym(prefix + "_" + n) for n in self.names}
        self.val = tuple(self.sym[n] for n in self.names)
        self.key = M.I.newkey(self.ty)

    def put(self, st):
        st.mem[self.key] = self.val
        return Ptr(self.key, (), None)

    def get(self, st):
        v = st.mem.get(self.key)
        return dict(zip(self.names, v))


def total_poly(C, names):
    p = {}
    for n in names:
        p = C.add(p, C.sym(n))
    return C.wrap(p)


def events_ob(rep, evs, what, kinds=("panic", "unreachable", "abort", "null-deref", "unbounded-loop", "recursion", "unknown-call", "static-access", "const-write")):
    bad = [e for e in evs if e.kind in kinds]
    return rep.ob(not bad, what + ": no failure is reachable", loc(bad[0]) if bad else "", "; ".join(map(repr, bad[:3])))


def loc(e):
    return "%s:%s" % (e.where[0], e.where[1])


def enum_cases(D, v, cond=1):
    """[(variant index, payload, condition)] of an enum value"""
    out = []

    def go(v, c):
        if c == 0:
            return
        if type(v) is IteV:
            go(v.x, D.bdd.AND(c, v.c))
            go(v.y, D.bdd.AND(c, D.bdd.NOT(v.c)))
            return
        if type(v) is not Enum:
            raise Undecided("result is not an enumeration value: %r" % (v,))
        lv = D.ileaves(v.d, c)
        if lv is None:
            raise Undecided("result discriminant is opaque")
        for cc, i in lv:
            if cc:
                out.append((i, v.p.get(i, ()), cc))

    go(v, cond)
    return out


def verdict(D, P, v, errty, cond=1):
    """Result<(), E> -> {'Ok' or error variant name: condition}"""
    names = variants(P, errty)
    out = {}
    for i, pay, c in enum_cases(D, v, cond):
        if i == 0:
            out["Ok()"] = D.bdd.OR(out.get("Ok()", 0), c)
        else:
            if not pay:
                raise Undecided("error without payload")
            for j, _, cc in enum_cases(D, pay[0], c):
                out[names[j]] = D.bdd.OR(out.get(names[j], 0), cc)
    return out


def polyeq(C, p, q, closure=None, tol=1e-9):
    d = C.differ(p, q, tol, closure=closure)
    return not d, ("difference: " + C.show(d, 2, 4)) if d else ""


def thresholds(D, conds, extra=()):
    """consistency of comparisons of one value with different constants, as a BDD (unordered values satisfy none)"""
    bdd = D.bdd
    per = {}
    sup = set()
    for c in conds:
        sup |= bdd.support(c)
    for v in sup:
        n = D.atoms[v]
        if n.op in ("flt", "fle", "feq"):
            a, b = n.a
            if b.op == "c" and a.op != "c":
                per.setdefault(a, []).append((("lt" if n.op == "flt" else "le" if n.op == "fle" else "eq"), b.a, v))
            elif a.op == "c" and b.op != "c":
                per.setdefault(b, []).append((("gt" if n.op == "flt" else "ge" if n.op == "fle" else "eq"), a.a, v))
        elif n.op in ("ilt", "ieq"):
            a, b = n.a
            if type(b) is int and type(a) is not int:
                per.setdefault(a, []).append((("lt" if n.op == "ilt" else "eq"), b, v))
            elif type(a) is int and type(b) is not int:
                per.setdefault(b, []).append((("gt" if n.op == "ilt" else "eq"), a, v))
    th = 1
    for x, l in per.items():
        if len(l) < 2:
            continue
        pts = sorted(set(c for _, c, _ in l))
        if x.k == "i":
            vals = sorted({p + d for p in pts for d in (-1, 0, 1)})
        else:
            vals = [pts[0] - 1 - abs(pts[0])] + [(a + b) / 2 for a, b in zip(pts, pts[1:])] + [pts[-1] + 1 + abs(pts[-1])] + pts + [math.nan]
        ok = 0
        for s in vals:
            m = 1
            for k, c, v in sorted(l, key=lambda t: -t[2]):
                t = {"lt": s < c, "le": s <= c, "gt": s > c, "ge": s >= c, "eq": s == c}[k]
                m = bdd.AND(m, bdd.atom(v) if t else bdd.NOT(bdd.atom(v)))
            ok = bdd.OR(ok, m)
        th = bdd.AND(th, ok)
    return th


def opfacts(M, extra=()):
    b = {"T": (0.0, True, math.inf, False), "D": (1e-12, True, math.inf, False), "P": (-math.inf, False, math.inf, False)}
    for x in M.xsyms():
        b[x] = (0.0, False, 1.0, False)
    b.update(dict(extra))
    return facts(b)


def algebra(M, **kw):
    C = CAS(M.D, M.xsyms(), opfacts(M), presence(M.xsyms()), **kw)
    C.names = M.xsyms()
    return C


def nonempty(M, cond=1, prefix="x"):
    """some fraction differs from zero"""
    b = M.bdd
    allz = 1
    for x in reversed(M.xsyms(prefix)):
        allz = b.AND(M.D.fcmp("eq", M.D.sym(x), M.D.const(0.0)), allz)
    return b.AND(cond, b.NOT(allz))


def start(M, s0=None):
    """state of a fresh model with symbolic inputs, and the entry condition"""
    D = M.D
    if s0 is None:
        s0 = M.new_state()
    v = M.setf(s0, x=M.xval(), t=D.sym("T"), d=D.sym("D"), p=D.sym("P"))
    c = nonempty(M)
    c = M.bdd.AND(c, M.bdd.NOT(D.fcmp("eq", D.sym("T"), D.const(0.0))))
    return v, c


def load_ref(name):
    return json.load(open(os.path.join(VERIF, "ref", name + ".json")))


def at_least(bdd, conds, k):
    """condition under which at least k of the conditions hold"""
    row = [1] + [0] * k
    for c in conds:
        if c == 0:
            continue
        for j in range(k, 0, -1):
            row[j] = bdd.OR(row[j], bdd.AND(row[j - 1], c))
    return row[k]
