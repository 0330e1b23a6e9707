"""S01-S04: no panics, bounded work, isolation, constructors"""
from state import *
from checks_ffi import Api, keeps, argvals, op_hooks, is_panic, reach, reach_alloc, MODELS, OPS
from checks_hist import Hist, CALC, names_of

PANIC = ("panic", "unreachable", "abort", "asm", "null-deref", "uaf", "double-free", "unknown-call", "const-write")
PATHS = {"aga8::detail::Detail": "Detail", "aga8::gerg2008::Gerg2008": "Gerg2008"}
TRIALS = {"Detail": 20, "Gerg2008": 50}


def c_layer(P):
    """modules that make up the C interface: those of the exported functions"""
    return {"::".join(f["name"].split("::")[:2]) for f in P.fns if f["extern_indicator"]}


def in_layer(name, layer):
    return any(("::" + name.lstrip("<")).find("::" + m + "::") >= 0 for m in layer)


def entries(P):
    """public operations outside the C interface"""
    layer = c_layer(P)
    for f in P.fns:
        if not f["reachable"] or f["closure"] or in_layer(f["name"], layer) or f["extern_indicator"]:
            continue
        if f["trait"] and "fmt::" in f["trait"]:
            continue
        if f["generic"] or f["inst"] is None or P.insts[f["inst"]]["body"] is None:
            if f["trait"] is None:
                raise Undecided("public function %s cannot be analysed" % f["name"])
            continue
        yield f


class Run:
    """one public operation on unknown arguments and any state the operations can leave a model in"""

    def __init__(self, P, f):
        self.f = f
        T = P.types
        self.mod = None
        for t in f["inputs"]:
            n = P.tname(T[t]["to"]) if T[t]["k"] == "ptr" else P.tname(t)
            if n in PATHS:
                self.mod = PATHS[n]
        model = Model(P, self.mod) if self.mod else None
        self.M = M = Machine(P, model)
        I = M.I
        self.log = []
        args = []
        st = State(1, {})
        s0 = M.new_state() if model else None
        if model:
            self.out, self.cells = effects(P, self.mod)
            base_ = f["name"].split("::")[-1]
            if base_ not in CALC:
                I.hooks.append(summary(M, self.out, self.log))
        I.events = []
        for i, t in enumerate(f["inputs"]):
            to = T[t]["to"] if T[t]["k"] == "ptr" else None
            n = P.tname(to if to is not None else t)
            if n in PATHS:
                v = base(M, s0, self.cells)
            elif n == COMP:
                v = CompBox(M, "c%d" % i).val
            else:
                v = I.symbolic(to if to is not None else t, "arg%d" % i)
            if to is not None:
                k = I.newkey(to)
                st.mem[k] = v
                args.append(Ptr(k, (), None))
            else:
                args.append(v)
        self.loop = None
        try:
            I.run(P.insts[f["inst"]], args, st)
        except Unsupported as e:
            # what was seen up to there still counts
            if not any(e.kind in ("unbounded-loop", "recursion") + PANIC and feasible(M, e.cond) for e in I.events):
                raise
            self.loop = str(e)
        self.st = st


_EFF = {}


def effects(P, mod):
    """(cells each operation may change, private ones), coarsely where the operations cannot be analysed to the end"""
    k = (id(P), mod)
    if k not in _EFF:
        try:
            _EFF[k] = written(P, mod)
        except Unsupported:
            M = Machine(P, Model(P, mod))
            S = Shape(M)
            sd = seed(P, mod)
            cells = {p for p, _ in leaves(M.new_state()) if p[0] in sd}
            ins = {M.m.fields[f] for f in INPUTS}
            _EFF[k] = ({op: {c for c in cells if c[0] not in ins or op == "density" and c[0] == M.m.fields["d"]} for op in operations(P, mod)}, {c for c in cells if S.private(c)})
    return _EFF[k]


def feasible(M, c):
    """the condition can hold for some values (comparisons of one value with several constants taken together)"""
    return c != 0 and M.bdd.AND(c, thresholds(M.D, [c])) != 0


def s01(rep, tier):
    P = extract()
    n = 0
    fns = set()
    for f in entries(P):
        r = Run(P, f)
        n += 1
        fns |= r.M.I.fn_seen
        bad = [e for e in r.M.I.events if e.kind in PANIC and feasible(r.M, e.cond)]
        if r.loop and not bad:
            raise Undecided(r.loop)
        rep.ob(not bad, "%s cannot fail for any input" % f["name"], loc(bad[0]) if bad else "", "; ".join("%s when %s" % (e.detail or e.kind, r.M.D.bshow(e.cond)[:300]) for e in bad[:3]))
        rep.cover["asserts_decided"] = rep.cover.get("asserts_decided", 0) + r.M.I.stats["asserts"]
    # the C layer adds no failure of its own on a valid handle
    api = Api(P)
    if api.sym:
        for pre, mod, op in api.every():
            name = pre + "_" + op
            if name not in api.sym:
                continue
            f = api.fn(name)
            model = Model(P, mod)
            M = Machine(P, model)
            if op != "new":
                op_hooks(M, op)
            args, st, box = argvals(M, api, f, "valid")
            M.I.events = []
            M.I.run(api.inst(name), args, st)
            bad = [e for e in M.I.events if e.kind in PANIC and feasible(M, e.cond)]
            rep.ob(not bad, "%s cannot fail for a valid handle" % name, "%s (%s)" % (name, f["span"]), "; ".join(map(repr, bad[:3])))
            fns |= M.I.fn_seen
            n += 1
    rep.cover.update(operations=n, functions=sorted(x for x in fns if "aga8::" in x), instances=len(fns))


def s02(rep, tier):
    P = extract()
    n = 0
    fns = set()
    most = {}
    for f in entries(P):
        r = Run(P, f)
        n += 1
        fns |= r.M.I.fn_seen
        bad = [e for e in r.M.I.events if e.kind in ("unbounded-loop", "recursion")]
        if r.loop and not bad:
            raise Undecided(r.loop)
        rep.ob(not bad, "%s: every loop has a constant bound and nothing is recursive" % f["name"], loc(bad[0]) if bad else "", "; ".join(map(repr, bad[:3])))
        if bad:
            continue
        rep.cover["block_steps"] = rep.cover.get("block_steps", 0) + r.M.I.steps
        if r.mod:
            conds = [l.cond for l in r.log if l.op == "pressure"]
            lim = TRIALS[r.mod] if f["name"].endswith("::density") else 0
            over = at_least(r.M.bdd, conds, lim + 1) if len(conds) > lim else 0
            over = r.M.bdd.AND(over, thresholds(r.M.D, [over])) if over else 0
            rep.ob(over == 0, "%s evaluates the pressure at most %d times" % (f["name"], lim), f["name"], "more often when " + r.M.D.bshow(over)[:400])
            props = [l.cond for l in r.log if l.op == "properties"]
            over = at_least(r.M.bdd, props, lim + 1) if len(props) > lim else 0
            rep.ob(over == 0, "%s evaluates the properties at most %d times" % (f["name"], lim), f["name"], "more often when " + r.M.D.bshow(over)[:400])
            if conds:
                most[f["name"]] = len(conds)
    rep.cover.update(operations=n, functions=sorted(x for x in fns if "aga8::" in x), pressure_evaluation_sites_unrolled=most)


# ---------------------------------------------------------------- isolation
EFFECT = ("std::io", "std::fs", "std::net", "std::env", "std::thread", "std::process", "std::time", "std::sync", "std::os", "std::sys", "std::random", "std::rc",
          "core::sync", "core::sync::atomic", "alloc::sync", "alloc::rc", "std::cell", "core::cell", "std::alloc", "alloc::alloc", "std::boxed", "alloc::boxed",
          "std::collections", "std::vec", "alloc::vec", "std::string", "alloc::string")
LIBM = {"pow", "sqrt", "exp", "log", "__powidf2", "sinh", "cosh", "tanh", "exp2", "log2", "log10", "expm1", "log1p", "fma", "cbrt", "hypot", "fmin", "fmax", "fabs", "floor",
        "ceil", "trunc", "rint", "round", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "asinh", "acosh", "atanh", "powi", "fmod", "fdim", "copysign", "fmaximum_num", "fminimum_num", "fmaximum", "fminimum"}


HEAP = ("std::alloc", "alloc::alloc", "std::boxed", "alloc::boxed", "std::vec", "alloc::vec", "std::string", "alloc::string", "std::collections", "alloc::collections")


def heap(i, e):
    """allocation of temporaries, which their owners release again"""
    return e in HEAP or (e == "foreign function" and "__rust_" in i["name"])


def fmtcode(n):
    return "fmt::" in n


def head(n):
    n = n.lstrip("<&")
    for p in ("mut ", "dyn "):
        if n.startswith(p):
            n = n[len(p):]
    return n


def effect(i):
    n = head(i["name"])
    if is_panic(n) or n.startswith("std::sys::cmath::"):
        return None
    for e in EFFECT:
        if n.startswith(e + "::"):
            return e
    b = i["name"]
    if i["intrinsic"]:
        if "atomic" in i["intrinsic"] or "volatile" in i["intrinsic"] or i["intrinsic"] in ("prefetch_read_data", "prefetch_write_data", "breakpoint"):
            return "intrinsic " + i["intrinsic"]
        return None
    if i["foreign"] and b.split("::")[-1] not in LIBM:
        return "foreign function"
    return None


def s03(rep, tier):
    P = extract()
    layer = c_layer(P)
    roots = [P.insts[f["inst"]] for f in P.fns if f["inst"] is not None and not in_layer(f["name"], layer) and not f["extern_indicator"] and not (f["trait"] and "fmt::" in f["trait"])]
    seen = {}
    for r in roots:
        for k, v in reach(P, r, lambda i: is_panic(i["name"]) or fmtcode(i["name"])).items():
            seen.setdefault(k, v)
    ninst = 0
    for i, frm in seen.values():
        if is_panic(i["name"]) or fmtcode(i["name"]):
            continue
        ninst += 1
        e = effect(i)
        if heap(i, e):
            e = None
            if i["body"] is None:
                continue
        rep.ob(e is None, "%s has no effect beyond its arguments" % i["name"], "%s called from %s" % (i["name"], frm), "it belongs to %s" % e)
        if i["local"] and not in_layer(i["name"], layer) and i["body"] is not None:
            k = keeps(P, i)
            rep.ob(not k, "%s takes no memory out of its owner's hands" % i["name"], i["name"], "it calls " + ", ".join(k[:4]))
        if i["body"] is None and e is None and not i["intrinsic"] and not i["foreign"] and not i.get("ctor"):
            raise Undecided("no source for %s, called from %s" % (i["name"], frm))
        if i["body"] is not None:
            u = uses(P, i)
            rep.ob(not u["static"], "%s touches no global or thread-local state" % i["name"], i["name"], "; ".join(u["static"][:4]))
            if i["local"] and not in_layer(i["name"], layer):
                rep.ob(not u["unsafe"] and not i["unsafe"], "%s performs no unsafe operation" % i["name"], i["name"], "; ".join(u["unsafe"][:4]) or "it is an unsafe function")
    for s in P.statics:
        rep.ob(s[2], "the static %s is immutable plain data" % s[0], "%s" % s[1], "it can be changed")
    # functions of the C layer: no shared state either
    for f in P.fns:
        if f["inst"] is not None and in_layer(f["name"], layer):
            i = P.insts[f["inst"]]
            if i["body"] is not None:
                u = uses(P, i)
                rep.ob(not u["static"], "%s touches no global or thread-local state" % i["name"], i["name"], "; ".join(u["static"][:4]))
            for j, frm in reach(P, i, lambda i: is_panic(i["name"]) or fmtcode(i["name"])).values():
                n = head(j["name"])
                e = effect(j)
                rep.ob(e is None or e == "std::process" or heap(j, e),
                       "%s has no effect beyond its handle" % i["name"], "%s called from %s" % (j["name"], frm), "it belongs to %s" % e)
    for name, mod in PATHS.items():
        m = Model(P, mod)
        bad = shared(P, m.ty, name)
        rep.ob(not bad, "%s is plain data: no pointer, shared or interior-mutable part" % name, name, "; ".join(bad[:4]))
    bad = shared(P, tid(P, COMP), COMP)
    rep.ob(not bad, "%s is plain data: no pointer, shared or interior-mutable part" % COMP, COMP, "; ".join(bad[:4]))
    rep.cover.update(functions=sorted(i["name"] for i, _ in seen.values() if i["local"]), instances_scanned=ninst, statics=[s[0] for s in P.statics], c_layer=sorted(layer))


def shared(P, t, path, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return []
    seen.add(t)
    T = P.types[t]
    k = T["k"]
    if k in ("float", "int", "bool", "char", "never"):
        return []
    if k == "adt":
        if T["name"].split("::")[-1] in ("UnsafeCell", "Cell", "RefCell", "Rc", "Arc", "Mutex", "RwLock", "OnceCell", "Box", "Vec", "String"):
            return ["%s has type %s" % (path, T["name"])]
        return [b for V in T["variants"] for f in V["fields"] for b in shared(P, f[1], path + "." + f[0], seen)]
    if k in ("tuple", "closure"):
        return [b for i, f in enumerate(T["fields"]) for b in shared(P, f, "%s.%d" % (path, i), seen)]
    if k in ("array", "slice"):
        return shared(P, T["elem"], path + "[]", seen)
    if k == "pat":
        return shared(P, T["base"], path, seen)
    if k == "ptr":
        if T["raw"] or T["mut"]:
            return ["%s has type %s" % (path, P.tname(t))]
        return shared(P, T["to"], path, seen)
    if k in ("str", "fndef", "fnptr"):
        return []
    return ["%s has type %s" % (path, P.tname(t))]


_CST = {}


def static_const(P, c):
    """names of changeable statics a constant refers to"""
    r = _CST.get(c)
    if r is None:
        r = []
        seen = set()

        def go(x):
            if type(x) is list:
                if len(x) >= 2 and x[0] == "static":
                    r.append(str(x[1]))
                elif len(x) >= 2 and x[0] == "p" and type(x[1]) is int and x[1] not in seen:
                    seen.add(x[1])
                    go(P.allocs_raw[x[1]])
                for y in x:
                    go(y)
        go(P.consts_raw[c])
        _CST[c] = r
    return r


def uses(P, inst):
    """global state and unsafe operations in one function body"""
    body = inst["body"]
    out = {"static": [], "unsafe": []}
    T = P.types

    def boxptr(r):
        """the pointer inside a Box: what the compiler reads for the safe `*boxed`; its parts are private to safe code"""
        if r[0] != "cast" or "Transmute" not in str(r[1]) or type(r[2]) is not list or r[2][0] not in ("cp", "mv"):
            return False
        pl = r[2][1]
        t = body["locals"][pl[0]]
        for e in pl[1:]:
            if t is not None and T[t]["k"] == "adt" and T[t].get("box") and e[0] == "f":
                return True
            t = e[2] if e[0] == "f" else T[t]["to"] if t is not None and e[0] == "d" and T[t]["k"] == "ptr" else None
        return False

    boxed = {}
    for b in body["blocks"]:
        for q in b["s"]:
            if q[0] == "=" and len(q[1]) == 1:
                boxed[q[1][0]] = boxptr(q[2]) and boxed.get(q[1][0], True)

    def place(pl, line):
        t = body["locals"][pl[0]]
        if boxed.get(pl[0]) and pl[1:2] and pl[1][0] == "d":
            t = T[t]["to"]
            pl = pl[:1] + pl[2:]
        for e in pl[1:]:
            if t is None:
                return
            X = T[t]
            if e[0] == "d":
                if X["k"] == "ptr":
                    if X["raw"]:
                        out["unsafe"].append("dereferences a raw pointer at line %s" % line)
                    t = X["to"]
                elif X["k"] == "adt" and X.get("box"):
                    t = X["targs"][0]
                else:
                    return
            elif e[0] == "f":
                if len(e) > 3 and e[3]:
                    out["unsafe"].append("reads a union at line %s" % line)
                t = e[2]
            elif e[0] in ("x", "c"):
                t = X["elem"] if X["k"] in ("array", "slice") else None

    def walk(x, line):
        if type(x) is not list or not x:
            return
        if x[0] in ("cp", "mv") and len(x) == 2 and type(x[1]) is list:
            place(x[1], line)
        elif x[0] == "k" and len(x) >= 2 and type(x[1]) is int:
            for s in static_const(P, x[1]):
                out["static"].append("uses the static %s at line %s" % (s, line))
        elif x[0] == "tls":
            out["static"].append("uses the thread-local %s at line %s" % (x[1], line))
        if x[0] == "cast" and "Transmute" in str(x[1]) and not boxptr(x):
            out["unsafe"].append("transmutes at line %s" % line)
        for y in x:
            if type(y) is list:
                walk(y, line)

    for b in body["blocks"]:
        for q in b["s"]:
            line = q[3] if len(q) > 3 else ""
            if q[0] == "=":
                place(q[1], line)
                r = q[2]
                for y in r[1:]:
                    if type(y) is list and y and type(y[0]) is int and r[0] in ("ref", "addrof", "reborrow", "len", "discr"):
                        place(y, line)
                walk(r, line)
            elif q[0] == "cno":
                out["unsafe"].append("copies raw memory at line %s" % line)
        t = b["t"]
        if t[0] == "call":
            line = t[6]
            for a in t[2]:
                walk(a, line)
            if t[1][0] == "i":
                c = P.insts[t[1][1]]
                if c["unsafe"] and not c["name"].startswith("core::panicking"):
                    out["unsafe"].append("calls the unsafe function %s at line %s" % (c["name"], line))
        elif t[0] == "asm":
            out["unsafe"].append("inline assembly")
        elif t[0] in ("switch", "assert"):
            walk(t[1], t[5])
    return out


# ---------------------------------------------------------------- constructors
def s04(rep, tier):
    P = extract()
    layer = c_layer(P)
    for name, mod in PATHS.items():
        model = Model(P, mod)
        M = Machine(P, model)
        st = State(1, {})
        s0 = M.I.run(model.fn("new"), [], st)
        ref = dict(leaves(s0))
        S = Shape(M)
        und = [S.name(p) for p, v in ref.items() if v is UNDEF]
        rep.ob(not und and st.cond == 1, "%s::new initialises every field" % mod, "%s::new" % mod, ", ".join(und[:5]))
        ctors = []
        for f in P.fns:
            if not f["reachable"] or f["inst"] is None or f["inputs"] or f["output"] != model.ty:
                continue
            ctors.append(f["name"])
            st = State(1, {})
            v = M.I.run(P.insts[f["inst"]], [], st)
            diff = [S.name(p) for p, x in leaves(v) if x is not ref[p] and x != ref[p]] if st.cond == 1 else ["it can fail"]
            rep.ob(not diff, "%s yields the same model as %s::new" % (f["name"], mod), "%s (%s)" % (f["name"], f["span"]), "it differs in " + ", ".join(diff[:6]))
        rep.ob(any("Default" in c for c in ctors), "%s has a default value" % mod, name, "no Default implementation")
        rep.cover.setdefault("constructors", []).extend(ctors)
        events_ob(rep, M.I.events, mod + " constructors")
        # the first calculation of a new model does all its work: nothing it uses is left over from construction but constant tables
        H = Hist(P, mod)
        H.extra = set()
        c0 = H.cond()
        memo = {}
        for op in CALC:
            res, priv, ex = H.run(op, {c: H.init[c] for c in H.cells}, c0)
            cold = firstcold(H, op, c0)
            for n, v in res.items():
                w = under(H.D, cold[0][n], ex)
                j = H.junk_in(w)
                rep.ob(not j and v is w, "%s::%s: %s of a new model is calculated from the inputs without any set-up" % (mod, op, n), "%s::%s" % (mod, op),
                       "it uses " + ", ".join(H.S.name(c) for c in j[:5]) if j else "it differs from the calculation with empty caches")
            main = [v for n, v in res.items() if n in ("z", "u", "h", "p")] + [v for n, v in res.items() if n == "return value"]
            sup = set()
            for v in main:
                sup |= names_of(H.D, v)
            miss = [x for x in H.xs if x not in sup]
            rep.ob(not miss, "%s::%s of a new model responds to every component" % (mod, op), "%s::%s" % (mod, op), "it ignores " + ", ".join(miss[:5]))
    rep.assumptions.append("compositions with a nonzero fraction and nonzero temperatures")


def firstcold(H, op, c0):
    """the operation on a new model whose cells other than cache keys hold arbitrary values"""
    k = getattr(H, "coldruns", None)
    if k is None:
        k = H.coldruns = H.cold(c0)[1]
    return k[op]


CHECKS = {"S01": s01, "S02": s02, "S03": s03, "S04": s04}
