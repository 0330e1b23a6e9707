"""what the public operations change: the cells of a model that can differ from their constructed value"""
from common import *

INPUTS = ("t", "p", "d", "x")


def leaves(v, path=()):
    if type(v) is tuple:
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    else:
        yield path, v


def leaf(v, path):
    for i in path:
        v = v[i]
    return v


def setleaves(v, new):
    """new: {path: value}"""
    by = {}
    for p, x in new.items():
        by.setdefault(p[0], {})[p[1:]] = x
    l = list(v)
    for i, d in by.items():
        l[i] = d[()] if () in d else setleaves(v[i], d)
    return tuple(l)


class Shape:
    """cells of a model value by name"""

    def __init__(self, M):
        self.M = M
        self.fname = {i: n for n, i in M.m.fields.items()}
        self.public = set(M.m.public())

    def name(self, path):
        return self.fname[path[0]] + "".join("[%d]" % i for i in path[1:])

    def private(self, path):
        return self.fname[path[0]] not in self.public


def fresh(M, path, old, tag):
    """an unknown value for a cell holding `old`"""
    S = Shape(M)
    n = S.name(path) + tag
    if type(old) is Node:
        return M.D.sym(n, old.k)
    if type(old) is int:
        return M.D.sym(n, "i")
    if type(old) is Bd:
        return M.D.bd(M.D.atom(M.D.sym(n, "b")))
    ty = M.m.ty
    for i in path:
        T = M.P.types[ty]
        ty = T["variants"][0]["fields"][i][1] if T["k"] == "adt" else T["elem"] if T["k"] == "array" else T["fields"][i]
    return M.I.symbolic(ty, n)


def base(M, s0, cells, tag="~"):
    """a constructed model with unknown inputs and outputs, and unknown values in `cells`"""
    S = Shape(M)
    new = {}
    for path, old in leaves(s0):
        f = S.fname[path[0]]
        if f in S.public and f not in INPUTS:
            new[path] = fresh(M, path, old, tag)
        elif path in cells and f not in INPUTS:
            new[path] = fresh(M, path, old, tag)
    v = setleaves(s0, new)
    x = list(M.xval())
    if M.m.off:
        x[0] = M.D.sym("pad")
    return M.setf(v, x=tuple(x), t=M.D.sym("T"), d=M.D.sym("D"), p=M.D.sym("P"))


_CACHE = {}


def seed(P, mod):
    """fields of the model that some function reachable from its operations stores to or borrows mutably (syntactic)"""
    model = Model(P, mod)
    seen = {}
    todo = [model.fn(op) for op in operations(P, mod)]
    out = set()
    T = P.types
    while todo:
        i = todo.pop()
        if i["id"] in seen or i["body"] is None:
            continue
        seen[i["id"]] = i
        body = i["body"]
        for b in body["blocks"]:
            t = b["t"]
            if t[0] == "call":
                if t[1][0] == "i":
                    todo.append(P.insts[t[1][1]])
                mark(P, model, body, t[3], out)
            for q in b["s"]:
                if q[0] == "=":
                    mark(P, model, body, q[1], out)
                    if q[2][0] in ("ref", "addrof", "reborrow") and q[2][1] is not False:
                        mark(P, model, body, q[2][2], out)
    return out


def mark(P, model, body, pl, out):
    t = body["locals"][pl[0]]
    T = P.types
    for e in pl[1:]:
        if e[0] == "f" and t == model.ty:
            out.add(e[1])
        if e[0] == "d":
            X = T[t]
            t = X["to"] if X["k"] == "ptr" else (X["targs"][0] if X.get("box") else None)
        elif e[0] == "f":
            t = e[2]
        elif e[0] in ("x", "c"):
            t = T[t]["elem"]
        if t is None:
            return


def written(P, mod):
    """({operation: cells it may change}, private cells any operation may change): a fixpoint over the operations,
    each run from a model with unknown values in every cell changed so far"""
    k = (id(P), mod)
    if k in _CACHE:
        return _CACHE[k]
    model = Model(P, mod)
    M = Machine(P, model)
    s0 = M.new_state()
    S = Shape(M)
    sd = seed(P, mod)
    cells = {p for p, _ in leaves(s0) if p[0] in sd and S.private(p)}
    for rnd in range(8):
        out = {}
        M.wcells = cells
        for op in operations(P, mod):
            I = M.I
            I.hooks = [summary(M, out)] if op not in ("pressure", "properties") else []
            v = base(M, s0, cells)
            st = State(1, {})
            rv, post, cond = apply(M, op, v, st)
            post = under(M.D, post, cond)
            pre = dict(leaves(v))
            w = set()
            for q, b in leaves(post):
                a = pre.get(q)
                if a is None:
                    raise Undecided("the layout of a cell changes: " + S.name(q))
                if a is not b and (type(a) is Node or type(b) is Node or a != b):
                    w.add(q)
            out[op] = w
        new = {p for w in out.values() for p in w if S.private(p)}
        if new <= cells:
            _CACHE[k] = (out, new)
            M.I.hooks = []
            return out, new
        cells |= new
    raise Undecided("the set of written cells does not stabilise")


def operations(P, mod):
    """public methods of the model that take it mutably, calculations first"""
    model = Model(P, mod)
    pre = model.path + "::"
    ops = []
    for f in P.fns:
        if f["inst"] is None or not f["name"].startswith(pre) or not f["reachable"] or not f["inputs"]:
            continue
        if "{" in f["name"]:
            continue
        T = P.types[f["inputs"][0]]
        if T["k"] == "ptr" and T["to"] == model.ty:
            ops.append(f["name"][len(pre):])
    order = ["pressure", "properties", "molar_mass", "set_composition", "density"]
    for o in order:
        if o not in ops:
            raise Undecided("%s has no public operation %s" % (model.path, o))
    return order[:2] + [o for o in ops if o not in order] + order[2:]


def opargs(M, op):
    """unknown arguments after the receiver: [(type index)]"""
    inst = M.m.fn(op)
    for f in M.P.fns:
        if f["inst"] == inst["id"]:
            return f["inputs"][1:]
    raise Undecided("signature of " + op)


def apply(M, op, v, st, ints=None):
    """run one public operation with unknown arguments: (result, post model, path condition)"""
    I = M.I
    k = I.newkey(M.m.ty)
    st.mem[k] = v
    args = [Ptr(k, (), None)]
    box = None
    for i, t in enumerate(opargs(M, op)):
        T = M.P.types[t]
        if T["k"] == "ptr" and M.P.tname(T["to"]) == COMP:
            box = CompBox(M)
            args.append(box.put(st))
        elif T["k"] == "ptr":
            key = I.newkey(T["to"])
            st.mem[key] = I.symbolic(T["to"], "arg%d" % i)
            args.append(Ptr(key, (), None))
        elif T["k"] == "int" and ints is not None:
            args.append(ints)
        else:
            args.append(I.symbolic(t, "arg%d" % i))
    rv = I.run(M.m.fn(op), args, st)
    return rv, st.mem.get(k), st.cond


class Log:
    def __init__(self, op, k, ptr, pre, cond, ret, post):
        self.op, self.k, self.ptr, self.pre, self.cond, self.ret, self.post = op, k, ptr, pre, cond, ret, post


def summary(M, out, log=None, ops=("pressure", "properties"), count=None):
    """hook: the listed operations leave unknown values in every cell they may write and return an unknown result"""
    cnt = {}

    def hook(I, callee, args, st):
        n = callee["name"]
        if not n.startswith(M.m.path + "::"):
            return None
        op = n[len(M.m.path) + 2:]
        if op not in ops:
            return None
        if op not in out:
            return None
        p = I.unptr(args[0])
        if type(p) is not Ptr:
            raise Unsupported("receiver of " + op)
        M.summarised = getattr(M, "summarised", set()) | {op}
        k = cnt[op] = cnt.get(op, 0) + 1
        pre = I.load(st, p.al, p.path)
        tag = "@%s%d" % (op, k)
        post = setleaves(pre, {c: fresh(M, c, leaf(pre, c), tag) for c in out[op]})
        I.store(st, p.al, p.path, post)
        ret = callee["body"]["locals"][0]
        rv = () if M.P.types[ret]["k"] == "tuple" else I.symbolic(ret, "ret" + tag)
        if log is not None:
            log.append(Log(op, k, p, pre, st.cond, rv, post))
        return (rv,)

    return hook
