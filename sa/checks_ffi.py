"""F01-F05: the C interface"""
import re
from common import *

MODELS = {"aga8": "Detail", "gerg": "Gerg2008"}
PATH = {"Detail": "aga8::detail::Detail", "Gerg2008": "aga8::gerg2008::Gerg2008"}
DERR = "aga8::DensityError"
CERR = "aga8::composition::CompositionError"
PROPS = ["d", "mm", "z", "dp_dd", "d2p_dd2", "dp_dt", "u", "h", "s", "cv", "cp", "w", "g", "jt", "kappa"]
# documented C interface: operation -> (arguments after the handle, result)
OPS = {
    "set_composition": (["composition", "comperr"], "unit"),
    "set_pressure": (["f64"], "unit"), "get_pressure": ([], "f64"),
    "set_temperature": (["f64"], "unit"), "get_temperature": ([], "f64"),
    "set_density": (["f64"], "unit"), "get_density": ([], "f64"),
    "get_properties": ([], "properties"),
    "calculate_pressure": ([], "f64"), "calculate_molar_mass": ([], "f64"),
    "calculate_density": (["denserr"], "unit"), "calculate_properties": ([], "unit"),
}


class Api:
    def __init__(self, P):
        self.P = P
        self.sym = {}
        for f in P.fns:
            if f["inst"] is None:
                continue
            i = P.insts[f["inst"]]
            if f["extern_indicator"] and i["mangled"] and not i["mangled"].startswith("_"):
                self.sym[i["mangled"]] = f

    def fn(self, name):
        if name not in self.sym:
            raise Missing(name)
        return self.sym[name]

    def inst(self, name):
        return self.P.insts[self.fn(name)["inst"]]

    def every(self):
        for pre, mod in MODELS.items():
            yield pre, mod, "new"
            yield pre, mod, "free"
            for op in OPS:
                yield pre, mod, op


class Missing(Exception):
    pass


def kind(P, t):
    """C-level kind of a parameter type"""
    T = P.types[t]
    if T["k"] == "float":
        return T["name"].lower()
    if T["k"] == "int":
        return P.tname(t)
    if T["k"] == "tuple" and not T["fields"]:
        return "unit"
    to = None
    if T["k"] == "ptr":
        to = T["to"]
    elif T["k"] == "adt" and T["name"].endswith("option::Option") and T["targs"]:
        U = P.types[T["targs"][0]]
        if U["k"] == "ptr":
            to = U["to"]
        elif U["k"] == "adt" and U["name"].endswith("NonNull"):
            to = U["targs"][0]
    elif T["k"] == "adt" and T["name"].endswith("NonNull"):
        to = T["targs"][0]
    if to is not None:
        n = P.tname(to)
        return {PATH["Detail"]: "Detail", PATH["Gerg2008"]: "Gerg2008", COMP: "composition", CERR: "comperr", DERR: "denserr"}.get(n, "*" + n)
    if T["k"] == "adt":
        return {"aga8::ffi::Properties": "properties"}.get(T["name"], T["name"])
    return P.tname(t)


def nullable(P, t):
    T = P.types[t]
    return (T["k"] == "ptr" and T["raw"]) or (T["k"] == "adt" and T["name"].endswith("option::Option"))


def ptrval(I, t, p):
    """pointer p (Ptr or null) as a value of type t"""
    T = I.P.types[t]
    return p if T["k"] == "ptr" else I.wrapptr(p, t)


def argvals(M, api, f, handle, modelval=None):
    """arguments for exported function f; returns (args, state, boxes)"""
    P, I = M.P, M.I
    st = State(1, {})
    args, box = [], {}
    for i, t in enumerate(f["inputs"]):
        k = kind(P, t)
        if k in ("Detail", "Gerg2008"):
            if handle == "null":
                args.append(ptrval(I, t, Addr(0)))
            else:
                key = I.newkey(tid(P, PATH[k]))
                I.heap[key] = tid(P, PATH[k])
                st.mem[key] = modelval if modelval is not None else I.symbolic(tid(P, PATH[k]), "m")
                box["handle"] = key
                args.append(ptrval(I, t, Ptr(key, (), None)))
        elif k == "composition":
            c = CompBox(M)
            args.append(ptrval(I, t, c.put(st)))
            box["composition"] = c
        elif k in ("comperr", "denserr"):
            n = CERR if k == "comperr" else DERR
            key = I.newkey(tid(P, n))
            st.mem[key] = I.symbolic(tid(P, n), "old")
            box["err"] = key
            box["errty"] = n
            args.append(ptrval(I, t, Ptr(key, (), None)))
        elif k == "f64":
            args.append(M.D.sym("arg%d" % i))
            box["arg"] = args[-1]
        else:
            raise Undecided("argument %d of %s has type %s" % (i, f["name"], P.tname(t)))
    return args, st, box


def need(rep, api, name):
    ok = name in api.sym
    rep.ob(ok, "the C symbol %s is exported" % name, "src/ffi.rs", "no such symbol")
    return ok


def f01(rep, tier):
    P = extract()
    api = Api(P)
    for pre, mod, op in api.every():
        name = pre + "_" + op
        if op == "new" or not need(rep, api, name):
            continue
        f = api.fn(name)
        M = Machine(P, Model(P, mod))
        w = "%s (%s)" % (name, f["span"])
        hs = [t for t in f["inputs"] if kind(P, t) in ("Detail", "Gerg2008")]
        rep.ob(len(hs) == 1 and nullable(P, hs[0]), "%s takes one nullable handle" % name, w, str([P.tname(t) for t in f["inputs"]]))
        if len(hs) != 1 or not nullable(P, hs[0]):
            continue
        M.I.hooks.append(opaque_ops(M, []))
        args, st, box = argvals(M, api, f, "null")
        rv = M.I.run(api.inst(name), args, st)
        ev = M.I.events
        der = [e for e in ev if e.kind == "null-deref"]
        rep.ob(not der, "%s does not touch a null handle" % name, loc(der[0]) if der else w, "; ".join(map(repr, der[:2])))
        if op == "free":
            rep.ob(st.cond == 1, "%s returns for a null handle" % name, w, "may fail: " + "; ".join(map(repr, ev[:2])))
            oth = [e for e in ev if e.kind != "null-deref"]
            rep.ob(not oth, "%s does nothing for a null handle" % name, loc(oth[0]) if oth else w, "; ".join(map(repr, oth[:2])))
        else:
            pan = 0
            for e in ev:
                if e.kind in ("panic", "abort"):
                    pan = M.bdd.OR(pan, e.cond)
            rep.ob(st.cond == 0 and pan == 1, "%s refuses a null handle on every path" % name, w, "returns normally when " + M.D.bshow(st.cond))
            rep.ob("unwind: true" not in f["abi"], "%s turns the refusal into an abort (non-unwinding C ABI)" % name, w, f["abi"])
            if "err" in box:
                old = M.I.symbolic(tid(P, box["errty"]), "old")
        # a valid handle is not refused
        M = Machine(P, Model(P, mod))
        M.I.hooks.append(opaque_ops(M, []))
        args, st, box = argvals(M, api, f, "valid")
        M.I.run(api.inst(name), args, st)
        bad = [e for e in M.I.events if e.kind in ("panic", "abort", "null-deref", "unreachable")]
        rep.ob(not bad and st.cond == 1, "%s accepts every non-null handle" % name, loc(bad[0]) if bad else w, "; ".join(map(repr, bad[:2])))
    rep.cover["exported"] = sorted(api.sym)
    # nothing else that takes a handle is exported
    for n, f in sorted(api.sym.items()):
        if n not in [p + "_" + o for p, m, o in api.every()]:
            rep.undec("exported function %s is not in the documented interface; its handle discipline is not specified" % n) if any(kind(P, t) in ("Detail", "Gerg2008") for t in f["inputs"]) else None


METHODS = ("set_composition", "molar_mass", "pressure", "density", "properties")


def opaque_ops(M, log, only=METHODS):
    """public model operations become uninterpreted: every field and result a fresh symbol"""
    cnt = {}

    def hook(I, callee, args, st):
        for mod, path in PATH.items():
            if callee["name"].startswith(path + "::"):
                op = callee["name"][len(path) + 2:]
                if op not in only:
                    return None
                k = cnt.get(op, 0) + 1
                cnt[op] = k
                p = I.unptr(args[0])
                if type(p) is not Ptr:
                    return None
                log.append((op, p, I.load(st, p.al, p.path), list(args[1:]), st.cond, dict(st.mem)))
                ty = tid(I.P, path)
                I.store(st, p.al, p.path, I.symbolic(ty, "%s@%d" % (op, k)))
                ret = callee["body"]["locals"][0]
                if I.P.types[ret]["k"] == "tuple":
                    return ((),)
                return (I.symbolic(ret, "%s@%d.ret" % (op, k)),)
        return None

    return hook


def op_hooks(M, op):
    """hooked run where `op` is the outermost operation"""
    log = []
    M.I.hooks = [opaque_ops(M, log)]
    return log


def f02(rep, tier):
    P = extract()
    api = Api(P)
    for pre, mod in MODELS.items():
        M = Machine(P, Model(P, mod))
        name = pre + "_new"
        if need(rep, api, name):
            f = api.fn(name)
            st = State(1, {})
            rv = M.I.run(api.inst(name), [], st)
            fr = [e for e in M.I.events if e.kind == "free"]
            # temporaries that are released again before the function returns do not count
            temp = {e.detail[0] for e in fr if e.cond == 1 and e.detail[2] == ()}
            p = M.I.unptr(rv) if rv is not None else None
            temp.discard(p.al if type(p) is Ptr else None)
            al = [e for e in M.I.events if e.kind == "alloc" and e.detail[0] not in temp]
            fr = [e for e in fr if e.detail[0] not in temp]
            oth = [e for e in M.I.events if e.kind != "alloc" and not (e.kind == "free" and e.detail[0] in temp)]
            w = "%s (%s)" % (name, f["span"])
            rep.ob(st.cond == 1 and not oth, "%s always returns, and does nothing but allocate" % name, w, "; ".join(map(repr, oth[:3])))
            rep.ob(len(al) == 1 and al[0].cond == 1 and al[0].detail[1] == PATH[mod], "%s allocates exactly one %s" % (name, mod), w, str([e.detail for e in al]))
            good = len(al) == 1 and type(p) is Ptr and p.al == al[0].detail[0] and p.path == ()
            rep.ob(good, "%s returns the allocation" % name, w, repr(rv))
            rep.ob(not fr, "%s does not release what it returns" % name, w, str([e.detail for e in fr]))
            if good:
                want = M.new_state()
                got = st.mem[p.al]
                diff = [fl for fl, i in M.m.fields.items() if got[i] != want[i]]
                rep.ob(not diff, "%s hands out a model equal to a newly constructed one" % name, w, str(diff[:5]))
        name = pre + "_free"
        if need(rep, api, name):
            f = api.fn(name)
            M = Machine(P, Model(P, mod))
            args, st, box = argvals(M, api, f, "valid")
            M.I.run(api.inst(name), args, st)
            w = "%s (%s)" % (name, f["span"])
            fr = [e for e in M.I.events if e.kind == "free"]
            oth = [e for e in M.I.events if e.kind != "free"]
            rep.ob(st.cond == 1 and not oth, "%s returns and does nothing but release" % name, w, "; ".join(map(repr, oth[:3])))
            rep.ob(len(fr) == 1 and fr[0].cond == 1 and fr[0].detail[0] == box.get("handle") and fr[0].detail[2] == (), "%s releases exactly the handle" % name, w, str([e.detail for e in fr]))
            rep.ob(bool(fr) and all(e.detail[1] == PATH[mod] for e in fr), "%s releases it with the type it was created with" % name, w, str([e.detail for e in fr]))
        for op in OPS:
            name = pre + "_" + op
            if not need(rep, api, name):
                continue
            f = api.fn(name)
            M = Machine(P, Model(P, mod))
            log = op_hooks(M, op)
            args, st, box = argvals(M, api, f, "valid")
            M.I.run(api.inst(name), args, st)
            ev = [e for e in M.I.events if e.kind in ("alloc", "free")]
            rep.ob(not ev, "%s neither allocates nor releases a model" % name, "%s (%s)" % (name, f["span"]), str([(e.kind, e.detail) for e in ev]))
            # model operations themselves own no heap memory
        for meth in METHODS + ("new",):
            inst = find(P, PATH[mod] + "::" + meth)
            hv = reach_alloc(P, inst)
            rep.ob(not hv, "%s::%s allocates nothing it does not release again" % (mod, meth), inst["name"], str(hv[:3]))
    rep.cover["exported"] = sorted(api.sym)


def reach(P, inst, stop=lambda i: False):
    seen, todo = {}, [(inst, None)]
    while todo:
        i, frm = todo.pop()
        if i["id"] in seen:
            continue
        seen[i["id"]] = (i, frm)
        if i["body"] is None or stop(i):
            continue
        for b in i["body"]["blocks"]:
            t = b["t"]
            if t[0] == "call" and t[1][0] == "i":
                todo.append((P.insts[t[1][1]], i["name"]))
            elif t[0] == "drop" and type(t[3]) is int:
                todo.append((P.insts[t[3]], i["name"]))
        for j in fnptrs(P, i):
            todo.append((P.insts[j], i["name"]))
    return seen


_FP = {}


def fnptrs(P, i):
    """instances whose address a body takes"""
    out = set()
    seen = set()

    def go(x):
        if type(x) is not list:
            return
        if len(x) >= 2 and x[0] == "fp" and type(x[1]) is int:
            out.add(x[1])
        elif len(x) >= 2 and x[0] == "p" and type(x[1]) is int and x[1] not in seen:
            seen.add(x[1])
            go(P.allocs_raw[x[1]])
        elif len(x) == 2 and x[0] == "k" and type(x[1]) is int:
            c = x[1]
            if ("k", c) not in seen:
                seen.add(("k", c))
                go(P.consts_raw[c][1])
        for y in x:
            if type(y) is list:
                go(y)

    for b in i["body"]["blocks"]:
        go(b["s"])
        go(b["t"])
    return out


KEEP = ("::leak", "::into_raw", "::into_raw_parts", "::into_non_null", "::from_raw", "::from_raw_parts", "mem::forget", "ManuallyDrop", "std::alloc::alloc", "std::alloc::alloc_zeroed", "std::alloc::realloc", "std::alloc::dealloc")


def keeps(P, i):
    """calls with which a function of this crate takes memory out of its owner's hands"""
    out = []
    for b in i["body"]["blocks"]:
        t = b["t"]
        if t[0] == "call" and t[1][0] == "i":
            n = P.insts[t[1][1]]["name"]
            n = re.sub(r"::<[^:]*>$", "", n)
            if any(n.endswith(k) or (k == "ManuallyDrop" and "ManuallyDrop" in n) or (k == "mem::forget" and "mem::forget" in n) for k in KEEP):
                out.append(n)
    return out


def reach_alloc(P, inst):
    bad = []
    for i, frm in reach(P, inst, lambda i: is_panic(i["name"]) or (i["local"] and "Formatter" in str(i["name"]))).values():
        if i["local"] and i["body"] is not None and not is_panic(i["name"]):
            bad += ["%s calls %s" % (i["name"], k) for k in keeps(P, i)]
    return bad


def is_panic(n):
    return n.startswith("core::panicking") or n.startswith("std::rt::") or "panic_const" in n or n.endswith("unwrap_failed") or n.endswith("expect_failed") or "slice_index_fail" in n or n.endswith("_mismatch_fail") or n.startswith("alloc::raw_vec::handle_error") or n.endswith("::capacity_overflow") or n.endswith("::handle_alloc_error") or n.startswith("std::panicking")


def f03(rep, tier):
    P = extract()
    api = Api(P)
    for pre, mod in MODELS.items():
        model = Model(P, mod)
        for op in OPS:
            name = pre + "_" + op
            if not need(rep, api, name):
                continue
            f = api.fn(name)
            w = "%s (%s)" % (name, f["span"])
            M = Machine(P, model)
            m0 = M.I.symbolic(model.ty, "m")
            log = op_hooks(M, op)
            args, st, box = argvals(M, api, f, "valid", m0)
            rv = M.I.run(api.inst(name), args, st)
            bad = [e for e in M.I.events]
            if st.cond != 1 or bad:
                rep.ob(False, "%s returns for every valid handle" % name, w, "; ".join(map(repr, bad[:3])))
                continue
            post = st.mem[box["handle"]]
            if op.startswith("set_") and op != "set_composition":
                fld = {"set_pressure": "p", "set_temperature": "t", "set_density": "d"}[op]
                want = M.setf(m0, **{fld: box["arg"]})
                diff = [x for x, i in model.fields.items() if post[i] != want[i]]
                rep.ob(not diff, "%s stores its argument in %s and changes nothing else" % (name, fld), w, fields(post, diff, model))
            elif op.startswith("get_") and op != "get_properties":
                fld = {"get_pressure": "p", "get_temperature": "t", "get_density": "d"}[op]
                rep.ob(rv is M.getf(m0, fld), "%s returns %s" % (name, fld), w, show(rv))
                rep.ob(post == m0, "%s does not change the model" % name, w)
            elif op == "get_properties":
                T = P.types[f["output"]]
                names = [x[0] for x in T["variants"][0]["fields"]] if T["k"] == "adt" else []
                rep.ob(sorted(names) == sorted(PROPS), "%s returns the documented quantities" % name, w, str(names))
                for i, n in enumerate(names):
                    if n in model.fields:
                        rep.ob(rv[i] is M.getf(m0, n), "%s returns %s under its own name" % (name, n), w, show(rv[i]))
                rep.ob(post == m0, "%s does not change the model" % name, w)
            else:
                meth = {"set_composition": "set_composition", "calculate_pressure": "pressure", "calculate_molar_mass": "molar_mass",
                        "calculate_density": "density", "calculate_properties": "properties"}[op]
                same_op(rep, P, M, model, api, name, meth, m0, rv, post, box, log, w)
    rep.cover["exported"] = sorted(api.sym)


def fields(v, names, model):
    return "; ".join("%s = %s" % (n, repr(v[model.fields[n]])[:120]) for n in names[:4])


def same_op(rep, P, M, model, api, name, meth, m0, rv, post, box, log, w):
    def reference(N, hooks):
        N.I.hooks = hooks
        inst = model.fn(meth)
        k = N.I.newkey(model.ty)
        st = State(1, {k: m0})
        args = [Ptr(k, (), None)]
        if meth == "set_composition":
            args.append(box["composition"].put(st))
        for t in api_inputs(P, inst)[len(args):]:
            if P.types[t]["k"] == "int":
                args.append(0)  # documented: the C API searches without a phase option
            else:
                raise Undecided("argument of " + inst["name"])
        r = N.I.invoke(inst, args, st)
        return r, st.mem[k]

    def agree(r, q):
        ok = post == q
        if meth == "pressure":
            ok = ok and rv is r
        if meth == "molar_mass":
            ok = ok and rv is q[model.fields["mm"]]
        return ok

    if len(log) == 1 and log[0][0] == meth:
        o, p, pre, extra, cond, mem = log[0]
        N = M
        r, q = reference(N, [opaque_ops(N, [])])
        good = agree(r, q) and cond == 1 and pre == m0
        why = ""
        if pre != m0:
            why = "the model was changed before the operation"
        elif not agree(r, q):
            why = "result or state differs from the operation's: " + show(rv) if type(rv) is Node else "state differs"
        if meth == "set_composition":
            cp = extra[0]
            cv = M.I.load(State(1, mem), M.I.unptr(cp).al, M.I.unptr(cp).path)
            if cv != box["composition"].val:
                good, why = False, "the composition passed on is not the caller's"
        if meth == "density":
            if any(x != 0 or type(x) is not int for x in extra):
                good, why = False, "the search option passed on is %r" % (extra,)
        rep.ob(good, "%s performs %s on the handle's model, once, and returns its result" % (name, meth), w, why)
        return
    if len(log) == 0 and meth != "density":
        # the wrapper does not go through the operation: compare the two computations
        M2 = Machine(P, model, M.D)
        M2.I.hooks = []
        f = api.fn(name)
        args, st, box2 = argvals(M2, api, f, "valid", m0)
        r2 = M2.I.run(api.inst(name), args, st)
        rv, post = r2, st.mem[box2["handle"]]
        r, q = reference(M2, [])
        rep.ob(agree(r, q), "%s performs the same calculation as %s" % (name, meth), w, "state or result differs")
        return
    rep.ob(False, "%s performs %s on the handle's model, once, and returns its result" % (name, meth), w, "operations performed: %s" % [l[0] for l in log])


def api_inputs(P, inst):
    for f in P.fns:
        if f["inst"] == inst["id"]:
            return f["inputs"]
    raise Undecided("signature of " + inst["name"])


def f04(rep, tier):
    P = extract()
    api = Api(P)
    for pre, mod in MODELS.items():
        model = Model(P, mod)
        for op, meth, ety in (("set_composition", "set_composition", CERR), ("calculate_density", "density", DERR)):
            name = pre + "_" + op
            if not need(rep, api, name):
                continue
            f = api.fn(name)
            w = "%s (%s)" % (name, f["span"])
            M = Machine(P, model)
            log = op_hooks(M, op)
            args, st, box = argvals(M, api, f, "valid")
            if "err" not in box:
                rep.ob(False, "%s has a status out-parameter" % name, w)
                continue
            M.I.run(api.inst(name), args, st)
            names = variants(P, ety)
            rep.ob(st.cond == 1, "%s returns on every path" % name, w, "; ".join(map(repr, M.I.events[:3])))
            res = M.I.symbolic(model.fn(meth)["body"]["locals"][0], "%s@1.ret" % meth)
            if len(log) == 1:
                want = verdict(M.D, P, res, ety)
            else:
                # not through the operation: use the operation's own verdict
                rep.ob(False, "%s reports the outcome of one %s" % (name, meth), w, "operations performed: %s" % [l[0] for l in log])
                continue
            got = {}
            for i, _, c in enum_cases(M.D, st.mem[box["err"]], st.cond):
                got[names[i]] = M.bdd.OR(got.get(names[i], 0), c)
            # an error value named Ok is never produced (obligation below), so success is exactly Ok(())
            asm = M.bdd.NOT(want.pop("Ok", 0))
            succ = want.pop("Ok()", 0)
            for n in names:
                c = succ if n == "Ok" else want.get(n, 0)
                g = got.get(n, 0)
                d = M.bdd.AND(asm, M.bdd.OR(M.bdd.AND(c, M.bdd.NOT(g)), M.bdd.AND(g, M.bdd.NOT(c))))
                rep.ob(d == 0, "%s writes %s exactly when the operation %s" % (name, n, "succeeds" if n == "Ok" else "fails with it"), w,
                       "writes %s when %s" % (n, M.D.bshow(g)))
        # the operations never wrap the success code in an error
        M = Machine(P, model)
        k = M.I.newkey(model.ty)
        st = State(1, {k: M.I.symbolic(model.ty, "m")})
        c = CompBox(M)
        rv = M.I.run(model.fn("set_composition"), [Ptr(k, (), None), c.put(st)], st)
        v = verdict(M.D, P, rv, CERR)
        rep.ob(v.get("Ok", 0) == 0, "%s::set_composition never fails with the success code" % mod, mod, "")
        import checks_root
        rep.ob(checks_root.density_verdict(P, mod).get("Ok", 0) == 0, "%s::density never fails with the success code" % mod, mod, "")
    rep.cover["exported"] = sorted(api.sym)


def f05(rep, tier):
    P = extract()
    api = Api(P)
    for pre, mod, op in api.every():
        name = pre + "_" + op
        if not need(rep, api, name):
            continue
        f = api.fn(name)
        w = "%s (%s)" % (name, f["span"])
        rep.ob(f["abi"].startswith("C"), "%s has the C ABI" % name, w, f["abi"])
        rep.ob(f["reachable"] or True, "%s is linked" % name, w)
        if op == "new":
            want = ([], mod)
        elif op == "free":
            want = ([mod], "unit")
        else:
            want = ([mod] + OPS[op][0], OPS[op][1])
        got = ([kind(P, t) for t in f["inputs"]], kind(P, f["output"]))
        rep.ob(got == want, "%s has the documented argument and result types" % name, w, "%s -> %s" % got)
    order = [("aga8::ffi::Properties", PROPS), (COMP, COMPONENTS)]
    for n, names in order:
        T = P.types[tid(P, n)]
        fs = T["variants"][0]["fields"]
        lay = T["layout"]
        rep.ob(T["repr_c"] and T["repr_pack"] == "None" and T["repr_align"] == "None", "%s has C layout" % n, n, "repr_c=%s" % T["repr_c"])
        rep.ob([x[0] for x in fs] == names, "%s has the documented fields in the documented order" % n, n, str([x[0] for x in fs]))
        rep.ob(all(P.tname(x[1]) == "f64" for x in fs), "%s holds doubles" % n, n, str([P.tname(x[1]) for x in fs]))
        rep.ob(lay["offsets"] == [8 * i for i in range(len(names))] and lay["size"] == 8 * len(names), "%s is laid out contiguously in that order" % n, n, str(lay))
    for n, names in ((CERR, ["Ok", "Empty", "BadSum"]), (DERR, ["Ok", "IterationFail", "PressureTooLow"])):
        T = P.types[tid(P, n)]
        rep.ob(T["repr_c"] or T["repr_int"] != "None", "%s has a C representation" % n, n, "repr_c=%s repr_int=%s" % (T["repr_c"], T["repr_int"]))
        rep.ob(T["layout"]["size"] == 4, "%s has the size of a C enumeration" % n, n, str(T["layout"]))
        got = {v["name"]: v["discr"] for v in T["variants"]}
        for i, x in enumerate(names):
            rep.ob(got.get(x) == i, "%s::%s is %d" % (n, x, i), n, str(got))
        rep.ob(set(got) == set(names), "%s has no other values" % n, n, str(got))
    rep.cover["exported"] = sorted(api.sym)


CHECKS = {"F01": f01, "F02": f02, "F03": f03, "F04": f04, "F05": f05}
