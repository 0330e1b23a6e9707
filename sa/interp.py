"""Abstract interpreter over monomorphised MIR in the gated value-number domain (dom.py).

Control-flow joins are merges (gated by the path condition), loops with constant trip counts are
partitioned by iteration, callees are analysed in their calling context.  Inputs are unknown symbols.
"""
import re
import heapq, json, sys
from dom import *

sys.setrecursionlimit(200000)


# iterators that skip elements, below adapters that do nothing before they ask for the next one
SKIPS = re.compile(r"^<(&mut |(std|core)::iter::(adapters::)?(map::|enumerate::|copied::|cloned::|inspect::)?(Map|Enumerate|Copied|Cloned|Inspect)<)*(std|core)::iter::(adapters::)?(filter::|filter_map::)?(Filter|FilterMap)<.* as (std|core)::iter::(traits::iterator::)?Iterator>::next$")
DRIVES = re.compile(r"::(find|try_fold|find_map)(::<.*)?$")
CLOSURE = re.compile(r"\{closure#\d+\}$")


class Unsupported(Exception):
    pass


class Event:
    def __init__(self, kind, cond, where, detail=""):
        self.kind = kind
        self.cond = cond
        self.where = where
        self.detail = detail

    def __repr__(self):
        return "%s at %s: %s" % (self.kind, self.where, self.detail)


class State:
    __slots__ = ("cond", "mem")

    def __init__(self, cond, mem):
        self.cond = cond
        self.mem = mem


FLOAT_FUN1 = {"exp", "log", "sqrt", "sin", "cos", "tan", "exp2", "log2", "log10", "floor", "ceil", "trunc", "rint", "round"}
# foreign / libm functions by (suffix of) name
LIBM = {"sinh", "cosh", "tanh", "cbrt", "expm1", "log1p", "asin", "acos", "atan", "atan2", "hypot", "tgamma", "lgamma_r", "asinh", "acosh", "atanh", "fmod", "fdim", "pow", "exp", "log", "sqrt"}


class Program:
    def __init__(self, text):
        d = json.loads(text)
        self.types = d["types"]
        self.consts_raw = d["consts"]
        self.allocs_raw = d["allocs"]
        self.insts = d["instances"]
        self.fns = d["fns"]
        self.statics = d["statics"]
        self.adts = d["adts"]
        self.byname = {}
        for i in self.insts + self.fns:  # methods of an impl block in another module than its type
            i["name"] = re.sub(r"^aga8(?:::\w+)*::<impl (aga8::[\w:]+)>::", r"\1::", i["name"])
        for i in self.insts:
            self.byname.setdefault(i["name"], i)
        self._wto = {}

    def tname(self, t):
        T = self.types[t]
        k = T["k"]
        if k == "adt":
            return T["name"]
        if k == "int":
            return ("i" if T["signed"] else "u") + str(T["bits"])
        if k == "float":
            return T["name"].lower()
        if k == "array":
            return "[%s;%s]" % (self.tname(T["elem"]), T["len"])
        if k == "slice":
            return "[%s]" % self.tname(T["elem"])
        if k == "ptr":
            return ("*" if T["raw"] else "&") + ("mut " if T["mut"] else ("const " if T["raw"] else "")) + self.tname(T["to"])
        if k == "tuple":
            return "(%s)" % ",".join(self.tname(x) for x in T["fields"])
        return k

    # ----- control flow structure
    def succs(self, b):
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def order(self, inst):
        """Loop structure: returns (pos, loops) where pos[b] = rpo index with loop bodies contiguous and
        loops[b] = tuple of enclosing loop headers (outermost first, includes b itself when b is a header)."""
        r = self._wto.get(inst["id"])
        if r is not None:
            return r
        blocks = inst["body"]["blocks"]
        succ = [self.succs(b) for b in blocks]
        out_pos = {}
        loops = {}
        counter = [0]

        def sccs(nodes, removed_edges_to):
            # Tarjan (iterative) on subgraph `nodes`, ignoring edges into `removed_edges_to`
            index = {}
            low = {}
            onst = set()
            stack = []
            comps = []
            idx = [0]
            for root in nodes:
                if root in index:
                    continue
                work = [(root, 0)]
                while work:
                    v, pi = work[-1]
                    if pi == 0:
                        index[v] = low[v] = idx[0]
                        idx[0] += 1
                        stack.append(v)
                        onst.add(v)
                    recurse = False
                    ss = [w for w in succ[v] if w in nodeset and w != removed_edges_to]
                    for i in range(pi, len(ss)):
                        w = ss[i]
                        if w not in index:
                            work[-1] = (v, i + 1)
                            work.append((w, 0))
                            recurse = True
                            break
                        elif w in onst:
                            low[v] = min(low[v], index[w])
                    if recurse:
                        continue
                    work.pop()
                    if low[v] == index[v]:
                        comp = []
                        while True:
                            w = stack.pop()
                            onst.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        comps.append(comp)
                    if work:
                        u = work[-1][0]
                        low[u] = min(low[u], low[v])
            return comps[::-1]  # topological order

        def layout(nodes, entry, head, enclosing):
            nonlocal nodeset
            saved = nodeset
            nodeset = set(nodes)
            cs = sccs(nodes, head)
            nodeset = saved
            for comp in cs:
                v = comp[0]
                selfloop = v in succ[v]
                if len(comp) == 1 and not (selfloop and v != head):
                    out_pos[v] = counter[0]
                    counter[0] += 1
                    loops[v] = enclosing
                else:
                    cset = set(comp)
                    # header: the node entered from outside
                    ents = [b for b in comp if any(b in succ[p] for p in range(len(blocks)) if p not in cset) or b == entry]
                    if len(ents) != 1:
                        hs = set(ents)
                        if not hs:
                            hs = {min(comp)}
                        if len(hs) > 1:
                            raise Unsupported("irreducible loop in " + inst["name"])
                        ents = list(hs)
                    h = ents[0]
                    enc = enclosing + (h,)
                    out_pos[h] = counter[0]
                    counter[0] += 1
                    loops[h] = enc
                    # order rest with edges to h removed
                    rest = [b for b in comp if b != h]
                    # keep topological consistency from header
                    rest_order = dfs_order(h, cset)
                    layout([b for b in rest_order if b != h], None, h, enc)

        def dfs_order(h, cset):
            seen = {h}
            post = []
            work = [(h, iter(succ[h]))]
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w in cset and w not in seen:
                        seen.add(w)
                        work.append((w, iter(succ[w])))
                        adv = True
                        break
                if not adv:
                    post.append(v)
                    work.pop()
            return post[::-1]

        nodeset = set()
        reach = dfs_order(0, set(range(len(blocks))))
        layout(reach, 0, None, ())
        r = (out_pos, loops)
        self._wto[inst["id"]] = r
        return r


class Interp:
    LOOP_LIMIT = 1000
    SYM_LOOP_LIMIT = 130

    def __init__(self, prog, dom=None):
        self.P = prog
        self.D = dom or Dom()
        self.bdd = self.D.bdd
        self.events = []
        self.constval = {}
        self.keyty = {}
        self.nextkey = 1
        self.stack = []
        self.skipping = None
        self.sense = False  # loads resolve choices that the path condition decides
        self.sensed = {}
        self.treesize = {}
        self.budget = 0
        self.hooks = []  # functions (interp, inst, args, st, line) -> (handled, retval)
        self.steps = 0
        self.fn_seen = set()
        self.heap = {}
        self.loop_max = {}
        self.stats = {"calls": 0, "merges": 0, "asserts": 0, "switches": 0}
        self.callers = {}

    # ------------------------------------------------------------------ constants
    def dec(self, v):
        k = v[0]
        if k == "f":
            return self.D.const(fbits(v[1]))
        if k == "i":
            return v[1]
        if k == "b":
            return self.D.bd(v[1])
        if k == "a" or k == "s":
            return tuple(self.dec(x) for x in v[1])
        if k == "e":
            return Enum(v[1], {v[1]: tuple(self.dec(x) for x in v[2])})
        if k == "p":
            return Ptr(("C", v[1]), () if v[2] is None else (0,), v[2])
        if k == "addr":
            return Addr(v[1], v[2])
        if k == "str":
            return StrV(v[1])
        if k == "fn" or k == "fp":
            return FnV(v[1])
        if k == "z":
            return ()
        if k == "u":
            return UNDEF
        if k == "static":
            return Ptr(("STATIC", v[1]), (), None)
        if k == "dyn":
            return StrV("dyn")
        raise Unsupported("constant " + repr(v)[:80])

    def const(self, i):
        c = self.constval.get(i)
        if c is None:
            raw = self.P.consts_raw[i]
            c = self.dec(raw[1])
            if c == () and raw[1][0] == "z":
                c = self.zst(raw[0])
            self.constval[i] = c
        return c

    def zst(self, t):
        return self.skel(t)

    def skel(self, t):
        """value of type t with every leaf undefined"""
        T = self.P.types[t]
        k = T["k"]
        if k == "adt":
            if T["kind"] == "Struct":
                return tuple(self.skel(f[1]) for f in T["variants"][0]["fields"])
            if T["kind"] == "Union":
                return (UNDEF,)
            return UNDEF
        if k == "tuple" or k == "closure":
            return tuple(self.skel(f) for f in T["fields"])
        if k == "array":
            e = self.skel(T["elem"])
            return (e,) * T["len"]
        if k == "fndef":
            return FnV(T["inst"])
        if k == "pat":
            return self.skel(T["base"])
        return UNDEF

    def symbolic(self, t, name):
        """fully unknown value of type t, one symbol per scalar leaf"""
        T = self.P.types[t]
        k = T["k"]
        if k == "float":
            return self.D.sym(name, "f")
        if k == "int":
            return self.D.sym(name, "i")
        if k == "bool":
            return self.D.bd(self.D.atom(self.D.sym(name, "b")))
        if k == "adt":
            if T["kind"] == "Struct":
                return tuple(self.symbolic(f[1], name + "." + f[0]) for f in T["variants"][0]["fields"])
            if T["kind"] == "Enum":
                n = len(T["variants"])
                d = n - 1
                for v in range(n - 2, -1, -1):
                    d = self.D.ite(self.D.atom(self.D.sym(name + "#is" + str(v), "b")), v, d)
                return Enum(d, {vi: tuple(self.symbolic(f[1], "%s.%s.%s" % (name, V["name"], f[0])) for f in V["fields"]) for vi, V in enumerate(T["variants"])})
        if k == "tuple" or k == "closure":
            return tuple(self.symbolic(f, "%s.%d" % (name, i)) for i, f in enumerate(T["fields"]))
        if k == "array":
            return tuple(self.symbolic(T["elem"], "%s[%d]" % (name, i)) for i in range(T["len"]))
        if k == "pat":
            return self.symbolic(T["base"], name)
        raise Unsupported("symbolic value of type " + self.P.tname(t))

    def newkey(self, ty):
        k = self.nextkey
        self.nextkey += 1
        self.keyty[k] = ty
        return k

    # ------------------------------------------------------------------ events
    def event(self, kind, cond, detail=""):
        if cond == 0:
            return
        fr = self.stack[-1] if self.stack else ("?", 0)
        # attribute to innermost local function
        loc = None
        for nm, ln, local, _, _ in reversed(self.stack):
            if local:
                loc = (nm, ln)
                break
        self.events.append(Event(kind, cond, loc or fr[:2], detail))

    # ------------------------------------------------------------------ memory
    def getmem(self, st, al):
        if type(al) is tuple:
            if al[0] == "C":
                v = self.constval.get(al)
                if v is None:
                    v = self.dec(self.P.allocs_raw[al[1]]["v"])
                    self.constval[al] = v
                return v
            if al[0] == "STATIC":
                self.event("static-access", st.cond, al[1])
                return UNDEF
        v = st.mem.get(al, UNDEF)
        return v

    def walk(self, v, path):
        for i, e in enumerate(path):
            if v is UNDEF:
                return UNDEF
            t = type(v)
            if t is tuple:
                if type(e) is not int:
                    if e[0] == "U":
                        e = 0
                    else:
                        raise Unsupported("path %r in tuple" % (e,))
                if e >= len(v) or e < 0:
                    raise Unsupported("out of range path %r" % (path,))
                v = v[e]
            elif t is Enum:
                if type(e) is int:
                    raise Unsupported("field of enum without variant")
                v = v.p.get(e[1], UNDEF)
            elif t is IteV:
                rest = path[i:]
                return self.D.merge(v.c, self.walk(v.x, rest), self.walk(v.y, rest))
            else:
                raise Unsupported("projection %r into %s" % (e, type(v).__name__))
        return v

    def put(self, v, path, new, ty):
        if not path:
            return new
        e = path[0]
        if v is UNDEF:
            if ty is None:
                raise Unsupported("store into untyped undefined value")
            T = self.P.types[ty]
            if T["k"] == "adt" and T["kind"] == "Enum":
                v = Enum(UNDEF, {})
            else:
                v = self.skel(ty)
            if v is UNDEF:
                raise Unsupported("store into undefined scalar " + self.P.tname(ty))
        t = type(v)
        if t is tuple:
            if type(e) is not int:
                e = 0
            sub = self.subty(ty, e)
            nv = self.put(v[e], path[1:], new, sub)
            if nv is v[e]:
                return v
            return v[:e] + (nv,) + v[e + 1:]
        if t is Enum:
            vi = e[1]
            p = dict(v.p)
            old = p.get(vi)
            if old is None:
                if ty is None:
                    raise Unsupported("store into undefined enum payload")
                old = tuple(self.skel(f[1]) for f in self.P.types[ty]["variants"][vi]["fields"])
            if len(path) == 1:
                p[vi] = new
            else:
                i = path[1]
                fty = self.P.types[ty]["variants"][vi]["fields"][i][1] if ty is not None else None
                nv = self.put(old[i], path[2:], new, fty)
                p[vi] = old[:i] + (nv,) + old[i + 1:]
            return Enum(v.d, p)
        if t is IteV:
            return IteV(v.c, self.put(v.x, path, new, ty), self.put(v.y, path, new, ty))
        raise Unsupported("store into %s" % t.__name__)

    def subty(self, ty, e):
        if ty is None:
            return None
        T = self.P.types[ty]
        k = T["k"]
        try:
            if k == "adt":
                return T["variants"][0]["fields"][e][1] if T["kind"] == "Struct" else None
            if k in ("tuple", "closure"):
                return T["fields"][e]
            if k == "array":
                return T["elem"]
        except IndexError:
            return None
        return None

    def load(self, st, al, path):
        return self.walk(self.getmem(st, al), path)

    def store(self, st, al, path, v):
        if type(al) is tuple:
            self.event("const-write", st.cond, repr(al))
            return
        if path:
            v = self.put(st.mem.get(al, UNDEF), path, v, self.keyty.get(al))
        st.mem[al] = v

    # places -> list of (guard or None, al, path, meta)
    def unptr(self, v):
        while type(v) is tuple:
            if len(v) == 0:
                raise Unsupported("deref of unit")
            v = v[0]
        return v

    def ptrs(self, st, v, guard, out):
        v = self.unptr(v)
        t = type(v)
        if t is Ptr:
            out.append((guard, v.al, v.path, v.meta))
        elif t is IteV:
            g = st.cond if guard is None else guard
            a = self.bdd.AND(g, v.c)
            b = self.bdd.AND(g, self.bdd.NOT(v.c))
            if a == 0:
                self.ptrs(st, v.y, guard, out)
            elif b == 0:
                self.ptrs(st, v.x, guard, out)
            else:
                self.ptrs(st, v.x, a, out)
                self.ptrs(st, v.y, b, out)
        elif t is Addr:
            self.event("null-deref", st.cond if guard is None else guard, "dereference of address %d" % v.v)
            if guard is None:
                st.cond = 0  # there is no defined execution behind it
        elif t is StrV:
            out.append((guard, ("STR", v.s), (), None))
        elif v is UNDEF and st.cond == 0:
            pass
        else:
            raise Unsupported("dereference of %r" % (v,))

    def place(self, fr, st, pl):
        if len(pl) == 1:
            return ((None, fr + pl[0], (), None),)
        cur = [(None, fr + pl[0], (), None)]
        for e in pl[1:]:
            k = e[0]
            nxt = []
            if k == "f":
                i = e[1]
                for g, al, path, meta in cur:
                    p2 = path + ((("U",),) if e[3] else (i,))
                    if meta is not None and type(meta) is int:
                        # the unsized tail of a structure keeps the length
                        u = self.tail(e[2])
                        if u == "slice":
                            nxt.append((g, al, p2 + (0,), meta))
                            continue
                        if u == "struct":
                            nxt.append((g, al, p2, meta))
                            continue
                    nxt.append((g, al, p2, None))
            elif k == "d":
                for g, al, path, meta in cur:
                    v = self.load(st, al, path)
                    if type(v) is IteV or g is not None:
                        s2 = st if g is None else State(g, st.mem)
                        self.ptrs(s2, v, g, nxt)
                    else:
                        self.ptrs(st, v, None, nxt)
            elif k == "x":
                iv = self.load(st, fr + e[1], ())
                if type(iv) is int:
                    for g, al, path, meta in cur:
                        if meta is not None:
                            nxt.append((g, al, path[:-1] + (path[-1] + iv,), None))
                        else:
                            nxt.append((g, al, path + (iv,), None))
                else:
                    lv = self.D.ileaves(iv) if type(iv) is Node else None
                    for g, al, path, meta in cur:
                        ls = lv
                        if ls is None:
                            n = meta if meta is not None else len(self.load(st, al, path))
                            if type(iv) is not Node or type(n) is not int or n > 64:
                                raise Unsupported("symbolic index")
                            ls = [(self.D.icmp("eq", iv, i), i) for i in range(n)]
                        for c, i in ls:
                            gg = self.bdd.AND(st.cond if g is None else g, c)
                            if gg == 0:
                                continue
                            nxt.append((gg, al, (path[:-1] + (path[-1] + i,)) if meta is not None else path + (i,), None))
            elif k == "v":
                for g, al, path, meta in cur:
                    nxt.append((g, al, path + (("V", e[1]),), None))
            elif k == "c":
                for g, al, path, meta in cur:
                    if meta is not None:
                        i = meta - e[1] if e[3] else e[1]
                        nxt.append((g, al, path[:-1] + (path[-1] + i,), None))
                    else:
                        i = e[1]
                        if e[3]:
                            v = self.load(st, al, path)
                            i = len(v) - e[1]
                        nxt.append((g, al, path + (i,), None))
            elif k == "ss":
                for g, al, path, meta in cur:
                    fr_, to, fe = e[1], e[2], e[3]
                    if meta is not None:
                        n = (meta - to - fr_) if fe else to - fr_
                        nxt.append((g, al, path[:-1] + (path[-1] + fr_,), n))
                    else:
                        v = self.load(st, al, path)
                        n = (len(v) - to - fr_) if fe else to - fr_
                        nxt.append((g, al, path + (fr_,), n))
            else:
                raise Unsupported("projection " + k)
            cur = nxt
        return cur

    def rdplace(self, fr, st, pl):
        v = self.rdplace0(fr, st, pl)
        if self.sense and type(v) is Node and v.op == "ite":
            n = self.treesize.get(v)
            if n is None:
                n = self.treesize[v] = self.tree(v)
            self.budget = 200
            return self.decide(v, st.cond, 24 if n <= 40 else 2)
        return v

    def tree(self, v):
        """number of distinct choices at the top of a value"""
        seen = set()
        todo = [v]
        while todo and len(seen) <= 40:
            x = todo.pop()
            if type(x) is Node and x.op == "ite" and x not in seen:
                seen.add(x)
                todo += [x.a[1], x.a[2]]
        return len(seen)

    def decide(self, v, c, depth):
        """resolve the choices at the top of a value that the path condition decides"""
        k = (v, c)
        r = self.sensed.get(k)
        if r is not None:
            return r
        bdd = self.bdd
        g = v.a[0]
        a = bdd.AND(c, g)
        if a == 0:
            r = v.a[2]
        elif a == c:
            r = v.a[1]
        else:
            r = v
            self.budget -= 1
            if depth > 1 and self.budget > 0:
                x, y = v.a[1], v.a[2]
                x2 = self.decide(x, a, depth - 1) if type(x) is Node and x.op == "ite" else x
                y2 = self.decide(y, bdd.AND(c, bdd.NOT(g)), depth - 1) if type(y) is Node and y.op == "ite" else y
                if x2 is not x or y2 is not y:
                    r = self.D.ite(g, x2, y2)
            self.sensed[k] = r
            return r
        if type(r) is Node and r.op == "ite":
            r = self.decide(r, c, depth)
        self.sensed[k] = r
        return r

    def rdplace0(self, fr, st, pl):
        if len(pl) == 1:
            return st.mem.get(fr + pl[0], UNDEF)
        ps = self.place(fr, st, pl)
        if len(ps) == 1:
            g, al, path, meta = ps[0]
            if al.__class__ is tuple and al[0] == "STR":
                return StrV(al[1])
            return self.load(st, al, path)
        if not ps:
            return UNDEF
        r = UNDEF
        rem = None
        for g, al, path, meta in reversed(ps):
            v = self.load(st, al, path)
            if r is UNDEF:
                r = v
            else:
                c = self.bdd.restrict(g, st.cond)
                r = self.D.merge(c, v, r)
        return r

    def wrplace(self, fr, st, pl, v):
        if len(pl) == 1:
            st.mem[fr + pl[0]] = v
            return
        ps = self.place(fr, st, pl)
        if len(ps) == 1 and ps[0][0] is None:
            self.store(st, ps[0][1], ps[0][2], v)
            return
        for g, al, path, meta in ps:
            if g is None:
                g = st.cond
            if self.bdd.imp(st.cond, g):
                self.store(st, al, path, v)
            else:
                old = self.load(st, al, path)
                self.store(st, al, path, self.D.merge(self.bdd.restrict(g, st.cond), v, old))

    # ------------------------------------------------------------------ operands / rvalues
    def op(self, fr, st, o):
        k = o[0]
        if k == "cp" or k == "mv":
            return self.rdplace(fr, st, o[1])
        if k == "k":
            return self.const(o[1])
        if k == "rc":
            return self.D.F
        raise Unsupported("operand " + k)

    def wrap(self, v, T):
        bits = T["bits"]
        v &= (1 << bits) - 1
        if T["signed"] and v >> (bits - 1):
            v -= 1 << bits
        return v

    def int1(self, f, a):
        """apply f to an int or to the constant leaves of a choice"""
        if type(a) is int:
            return f(a)
        if type(a) is Node and a.op == "ite":
            m = self.D.imap(a)
            if m is not None:
                r = None
                for v in sorted(m, reverse=True):
                    x = f(v)
                    r = x if r is None else self.D.ite(m[v], x, r)
                return r
            return self.D.ite(a.a[0], self.int1(f, a.a[1]), self.int1(f, a.a[2]))
        return None

    def ibin(self, op, a, b, T):
        """integer arithmetic -> (wrapped value, overflow bdd)"""
        D = self.D
        if type(a) is int and type(b) is int:
            if op == "Add":
                r = a + b
            elif op == "Sub":
                r = a - b
            elif op == "Mul":
                r = a * b
            elif op == "BitAnd":
                r = a & b
            elif op == "BitOr":
                r = a | b
            elif op == "BitXor":
                r = a ^ b
            elif op == "Shl":
                r = a << (b % T["bits"])
                return self.wrap(r, T), 1 if not 0 <= b < T["bits"] else 0
            elif op == "Shr":
                r = a >> (b % T["bits"])
                return self.wrap(r, T), 1 if not 0 <= b < T["bits"] else 0
            elif op == "Div" or op == "Rem":
                if b == 0:
                    return 0, 1
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                r = q if op == "Div" else a - q * b
            else:
                raise Unsupported("int op " + op)
            w = self.wrap(r, T)
            return w, (1 if w != r else 0)
        if type(a) is Node and type(b) in (Node, int):
            x, y = D.imap(a), D.imap(b)
            if x is not None and y is not None:
                r, ov = None, 0
                for v in x:
                    for w in y:
                        c = self.bdd.AND(x[v], y[w])
                        if c:
                            q, o = self.ibin(op, v, w, T)
                            r = q if r is None else D.ite(c, q, r)
                            ov = self.bdd.OR(ov, self.bdd.AND(c, o))
                return r, ov
        if type(a) is Node and a.op == "ite":
            x, ox = self.ibin(op, a.a[1], b, T)
            y, oy = self.ibin(op, a.a[2], b, T)
            return D.ite(a.a[0], x, y), self.bdd.ite(a.a[0], ox, oy)
        if type(b) is Node and b.op == "ite":
            x, ox = self.ibin(op, a, b.a[1], T)
            y, oy = self.ibin(op, a, b.a[2], T)
            return D.ite(b.a[0], x, y), self.bdd.ite(b.a[0], ox, oy)
        if op in ("BitAnd", "BitOr", "BitXor") and (a is UNDEF or b is UNDEF):
            raise Unsupported("undef int")
        n = D.mk("i" + op, (a, b), "i")
        return n, D.atom(D.mk("ovf" + op, (a, b, T["bits"], T["signed"]), "b"))

    def cmp(self, op, a, b):
        """comparison -> bdd ref.  op: Eq Ne Lt Le Gt Ge"""
        D = self.D
        bdd = self.bdd
        if op == "Ne":
            return bdd.NOT(self.cmp("Eq", a, b))
        if op == "Gt":
            return self.cmp("Lt", b, a)
        if op == "Ge":
            return self.cmp("Le", b, a)
        ta, tb = type(a), type(b)
        if ta is Node and a.k == "f" and tb is Node and b.k == "f":
            return D.fcmp({"Eq": "eq", "Lt": "lt", "Le": "le"}[op], a, b)
        if ta is Bd and tb is Bd:
            if op == "Eq":
                return bdd.NOT(bdd.ite(a.r, bdd.NOT(b.r), b.r))
            if op == "Lt":
                return bdd.AND(bdd.NOT(a.r), b.r)
            return bdd.OR(bdd.NOT(a.r), b.r)
        if (ta is int or (ta is Node and a.k == "i")) and (tb is int or (tb is Node and b.k == "i")):
            return D.icmp({"Eq": "eq", "Lt": "lt", "Le": "le"}[op], a, b)
        if ta is tuple and len(a) == 1:
            return self.cmp(op, a[0], b)
        if tb is tuple and len(b) == 1:
            return self.cmp(op, a, b[0])
        if ta is IteV:
            return bdd.ite(a.c, self.cmp(op, a.x, b), self.cmp(op, a.y, b))
        if tb is IteV:
            return bdd.ite(b.c, self.cmp(op, a, b.x), self.cmp(op, a, b.y))
        if ta is PtrInt:
            return self.cmp(op, a.p, b if tb is not PtrInt else b.p)
        if tb is PtrInt:
            return self.cmp(op, a, b.p)
        if ta is int:
            a = Addr(a)
            ta = Addr
        if tb is int:
            b = Addr(b)
            tb = Addr
        if ta is Ptr and tb is Ptr:
            if a.al == b.al and a.path[:-1] == b.path[:-1] and len(a.path) == len(b.path):
                x = a.path[-1] if a.path else 0
                y = b.path[-1] if b.path else 0
                if type(x) is int and type(y) is int:
                    return 1 if (x == y if op == "Eq" else x < y if op == "Lt" else x <= y) else 0
            if op == "Eq" and a.al != b.al:
                return 0
        if ta is Addr and tb is Addr:
            return 1 if (a.v == b.v if op == "Eq" else a.v < b.v if op == "Lt" else a.v <= b.v) else 0
        if op == "Eq" and ((ta is Ptr and tb is Addr and b.v == 0) or (tb is Ptr and ta is Addr and a.v == 0)):
            return 0
        if op in ("Lt", "Le") and ta is Addr and a.v == 0 and tb is Ptr:
            return 1
        if op == "Eq" and ta is FnV and tb is FnV:
            return 1 if a == b else 0
        raise Unsupported("comparison %s of %r and %r" % (op, a, b))

    def offset(self, p, n):
        p = self.unptr(p)
        if type(p) is IteV:
            return IteV(p.c, self.offset(p.x, n), self.offset(p.y, n))
        if type(p) is Addr:
            return p if n == 0 else Addr(p.v + n)
        if type(p) is not Ptr or type(n) is not int:
            raise Unsupported("pointer offset")
        if n == 0:
            return Ptr(p.al, p.path, None)
        if not p.path or type(p.path[-1]) is not int:
            raise Unsupported("pointer offset of non-element")
        return Ptr(p.al, p.path[:-1] + (p.path[-1] + n,), None)

    def binop(self, op, a, b, ty):
        D = self.D
        T = self.P.types[ty]
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return D.bd(self.cmp(op, a, b))
        if op == "Offset":
            return self.offset(a, b)
        if op.endswith("Unchecked"):
            op = op[:-9]
        if type(a) is Node and a.k == "f":
            f = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem"}[op]
            return D.fbin(f, a, b)
        if type(a) is Bd:
            if op == "BitAnd":
                return D.bd(self.bdd.AND(a.r, b.r))
            if op == "BitOr":
                return D.bd(self.bdd.OR(a.r, b.r))
            if op == "BitXor":
                return D.bd(self.bdd.ite(a.r, self.bdd.NOT(b.r), b.r))
        if op == "Cmp":
            lt = self.cmp("Lt", a, b)
            eq = self.cmp("Eq", a, b)
            return Enum(D.ite(lt, 0, D.ite(eq, 1, 2)), {0: (), 1: (), 2: ()})
        if T["k"] == "int" or T["k"] == "char":
            if T["k"] == "char":
                T = {"bits": 32, "signed": False}
            return self.ibin(op, a, b, T)[0]
        raise Unsupported("binop %s on %s" % (op, self.P.tname(ty)))

    def cast(self, kind, v, st_ty, ty):
        D = self.D
        P = self.P
        S, T = P.types[st_ty], P.types[ty]
        if kind == "IntToInt":
            if S["k"] == "bool":
                return D.ite(v.r, 1, 0)
            TT = T if T["k"] == "int" else {"bits": 32, "signed": False}
            r = self.int1(lambda x: self.wrap(x, TT), v)
            if r is None:
                if T["k"] == "int" and S["k"] == "int" and T["bits"] >= S["bits"] and (T["signed"] == S["signed"] or not S["signed"]):
                    return v
                return D.mk("itoi", (v, TT["bits"], TT["signed"]), "i")
            return r
        if kind == "IntToFloat":
            r = self.int1(lambda x: D.const(float(x)), v)
            return r if r is not None else D.mk("i2f", (v,), "f")
        if kind == "FloatToInt":
            if v.op == "c":
                x = v.a
                lo = -(1 << (T["bits"] - 1)) if T["signed"] else 0
                hi = (1 << (T["bits"] - (1 if T["signed"] else 0))) - 1
                if x != x:
                    return 0
                if x in (math.inf, -math.inf):
                    return hi if x > 0 else lo
                return max(lo, min(hi, int(x)))
            return D.mk("f2i", (v, T["bits"], T["signed"]), "i")
        if kind == "FloatToFloat":
            if S["name"] == T["name"]:
                return v
            return D.mk("f2f", (v, T["name"]), "f")
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                s = P.types[S["to"]] if S["k"] == "ptr" else None
                t = P.types[T["to"]] if T["k"] == "ptr" else None
                if s and t and s["k"] == "array" and t["k"] == "slice":
                    return self.mapptr(v, lambda p: Ptr(p.al, p.path + (0,), s["len"]))
                if s and t and s["k"] == "adt" and t["k"] == "adt" and self.tail(T["to"]) == "struct":
                    n = self.taillen(S["to"])
                    if n is not None:
                        return self.mapptr(v, lambda p: Ptr(p.al, p.path, n))
                return v
            return v
        if kind in ("PtrToPtr", "Transmute", "FnPtrToPtr", "BoxDerefTransmute", "Subtype"):
            sk, tk = S["k"], T["k"]
            if sk == "ptr" and tk == "ptr":
                s, t = P.types[S["to"]], P.types[T["to"]]
                if s["k"] == "slice" and t["k"] == "slice":
                    return v
                if s["k"] == "slice":
                    if t["k"] == "array" and t["elem"] == s["elem"]:
                        return self.mapptr(v, lambda p: Ptr(p.al, p.path[:-1], None) if p.path[-1] == 0 else self.bad("slice to array pointer"))
                    return self.mapptr(v, lambda p: Ptr(p.al, p.path, None))
                if s["k"] == "array" and t["k"] != "array" and s["elem"] == T["to"]:
                    return self.mapptr(v, lambda p: Ptr(p.al, p.path + (0,), None))
                if t["k"] == "array" and s["k"] != "array" and t["elem"] == S["to"]:
                    return self.mapptr(v, lambda p: Ptr(p.al, p.path[:-1], None) if p.path and p.path[-1] == 0 else self.bad("element to array pointer"))
                if s["k"] == "adt" and S["to"] != T["to"]:
                    ext = self.descend(S["to"], T["to"])
                    if ext:
                        return self.mapptr(v, lambda p: Ptr(p.al, p.path + ext, None))
                return v
            if tk == "int" and (type(self.unptr_safe(v)) in (Ptr, Addr, IteV)):
                return PtrInt(self.unptr_safe(v))
            if tk == "ptr" and type(v) is PtrInt:
                return v.p
            if tk == "ptr" and type(v) is int:
                return Addr(v)
            if tk == "ptr" and sk == "adt" and S["name"].endswith("::NonNull") and type(self.unptr_safe(v)) in (Ptr, IteV):
                ext = self.descend(S["targs"][0], T["to"])
                if ext:
                    return self.mapptr(self.unptr_safe(v), lambda p: Ptr(p.al, p.path + ext, None))
            if tk == "ptr" or (tk == "pat" and type(v) in (Ptr, Addr, IteV)):
                return self.unptr_safe(v)
            if sk == "float" and tk == "int":
                if v.op == "c":
                    return bitsof(v.a)
                return D.mk("bits", (v,), "i")
            if sk == "int" and tk == "float":
                if type(v) is int:
                    return D.const(fbits(v))
                return self.unbits(v)
            if sk == tk and sk in ("int", "float", "bool"):
                return v
            if sk == "ptr" and tk == "adt" and T["name"].endswith("::NonNull") and type(v) in (Ptr, IteV) and P.types[S["to"]]["k"] in ("adt", "array"):
                ext = self.descend(S["to"], T["targs"][0])
                if ext:
                    v = self.mapptr(v, lambda p: Ptr(p.al, p.path + ext, None))
            if sk == "ptr" and tk == "adt":  # wrap into transparent newtypes
                return self.wrapptr(v, ty)
            if sk == "adt" and tk == "adt":
                if S["kind"] == "Enum" or T["kind"] == "Enum":
                    if S["kind"] == T["kind"] and len(S["variants"]) == len(T["variants"]):
                        return v
                    raise Unsupported("enum transmute")
                u = self.unptr_safe(v)
                if type(u) in (Ptr, Addr, IteV):
                    return self.wrapptr(u, ty)
                if self.shape_ok(v, ty):
                    return v
            if sk == "array" and tk == "array":
                if S["elem"] != T["elem"] and type(v) is tuple and S["len"] == T["len"]:
                    return tuple(self.cast(kind, x, S["elem"], T["elem"]) for x in v)
                return v
            if sk == "adt" and S["kind"] == "Enum" and tk == "int":
                return self.discr(v, st_ty)
            if tk == "pat":
                return v
            if sk == "adt" and S["kind"] == "Union" or tk == "adt" and T["kind"] == "Union":
                if v is UNDEF:
                    return UNDEF
            if sk == "adt" or tk == "adt":
                u = v
                while type(u) is tuple and len(u) == 1:
                    u = u[0]
                if tk == "adt":
                    return self.wrapany(u, ty)
                return u
            raise Unsupported("transmute %s -> %s" % (P.tname(st_ty), P.tname(ty)))
        if kind == "PointerExposeAddress":
            return PtrInt(v)
        if kind == "PointerWithExposedProvenance":
            return v.p if type(v) is PtrInt else Addr(v)
        raise Unsupported("cast " + kind)

    def unbits(self, v):
        D = self.D
        if v.op == "bits":
            return v.a[0]
        if v.op == "ite":
            x, y = v.a[1], v.a[2]
            return D.ite(v.a[0], D.const(fbits(x)) if type(x) is int else self.unbits(x), D.const(fbits(y)) if type(y) is int else self.unbits(y))
        if v.op == "iBitAnd":
            a, b = v.a
            if type(b) is int and b == (1 << 63) - 1 and type(a) is Node and a.op == "bits":
                return D.fabs(a.a[0])
            if type(a) is int and a == (1 << 63) - 1 and type(b) is Node and b.op == "bits":
                return D.fabs(b.a[0])
        return D.mk("unbits", (v,), "f")

    def bad(self, m):
        raise Unsupported(m)

    def unptr_safe(self, v):
        while type(v) is tuple and len(v) >= 1:
            v = v[0]
        return v

    def shape_ok(self, v, ty):
        s = self.skel(ty)
        return type(s) is tuple and type(v) is tuple and len(s) == len(v)

    def wrapptr(self, v, ty):
        """value of struct type ty whose first leaf is the pointer v"""
        T = self.P.types[ty]
        if T["k"] == "ptr" or T["k"] == "pat":
            return v
        if T["k"] == "adt" and T["kind"] == "Struct":
            fs = T["variants"][0]["fields"]
            out = []
            done = False
            for f in fs:
                if not done and self.carries(f[1]):
                    out.append(self.wrapptr(v, f[1]))
                    done = True
                else:
                    out.append(self.skel(f[1]))
            if done:
                return tuple(out)
        if T["k"] == "adt" and T["kind"] == "Enum":
            # Option<NonNull>-like
            if type(v) is Addr and v.v == 0:
                for vi, V in enumerate(T["variants"]):
                    if not V["fields"]:
                        return Enum(vi, {vi: ()})
            for vi, V in enumerate(T["variants"]):
                if len(V["fields"]) == 1:
                    return Enum(vi, {vi: (self.wrapptr(v, V["fields"][0][1]),)})
        if T["k"] == "adt" and T["kind"] == "Union":
            return (self.wrapptr(v, T["targs"][0]) if T["name"].endswith("::MaybeUninit") and self.P.types[T["targs"][0]]["k"] == "adt" else v,)
        raise Unsupported("wrap pointer into " + self.P.tname(ty))

    def wrapany(self, v, ty):
        T = self.P.types[ty]
        if T["k"] == "adt" and T["kind"] == "Struct":
            fs = T["variants"][0]["fields"]
            if len(fs) >= 1:
                return (self.wrapany(v, fs[0][1]),) + tuple(self.skel(f[1]) for f in fs[1:])
        if T["k"] == "adt" and T["kind"] == "Union":
            return (v,)
        return v

    def carries(self, ty):
        T = self.P.types[ty]
        if T["k"] == "ptr" or T["k"] == "pat":
            return True
        if T["k"] == "adt" and T["kind"] == "Struct":
            return any(self.carries(f[1]) for f in T["variants"][0]["fields"])
        return False

    def mapptr(self, v, f):
        if type(v) is IteV:
            return IteV(v.c, self.mapptr(v.x, f), self.mapptr(v.y, f))
        if type(v) is Ptr:
            return f(v)
        return v

    def discr(self, v, ty=None):
        if type(v) is IteV:
            return self.D.ite(v.c, self.discr(v.x, ty), self.discr(v.y, ty))
        if v is UNDEF:
            return UNDEF
        if type(v) is not Enum:
            raise Unsupported("discriminant of %r" % (v,))
        d = v.d
        if ty is not None:
            T = self.P.types[ty]
            m = []
            for V in T["variants"]:
                x = V["discr"]
                if x is not None and T["discr_ty"] is not None:
                    x = self.wrap(x, self.P.types[T["discr_ty"]]) if self.P.types[T["discr_ty"]]["k"] == "int" else x
                m.append(x)
            if d is UNDEF:
                raise Unsupported("discriminant of undefined enum")
            r = self.int1(lambda i: m[i] if m[i] is not None else i, d)
            if r is None:
                raise Unsupported("discriminant of opaque enum")
            return r
        return d

    def plty(self, body, pl):
        t = body["locals"][pl[0]]
        T = self.P.types
        for e in pl[1:]:
            k = e[0]
            if k == "d":
                X = T[t]
                t = X["to"] if X["k"] == "ptr" else (X["targs"][0] if X.get("box") else None)
            elif k == "f":
                t = e[2]
            elif k in ("x", "c"):
                t = T[t]["elem"]
            elif k == "v" or k == "oc":
                pass
            elif k == "ss":
                pass
            if t is None:
                return None
        return t

    def rvalue(self, fr, st, body, r):
        k = r[0]
        if k == "use":
            return self.op(fr, st, r[1])
        if k == "bin":
            return self.binop(r[1], self.op(fr, st, r[2]), self.op(fr, st, r[3]), r[4])
        if k == "cbin":
            a = self.op(fr, st, r[2])
            b = self.op(fr, st, r[3])
            v, o = self.ibin(r[1], a, b, self.P.types[r[4]])
            return (v, self.D.bd(o))
        if k == "ref" or k == "addrof" or k == "reborrow":
            ps = self.place(fr, st, r[2])
            if not ps:
                return UNDEF
            v = None
            for g, al, path, meta in reversed(ps):
                p = StrV(al[1]) if type(al) is tuple and al[0] == "STR" else Ptr(al, path, meta)
                v = p if v is None else IteV(self.bdd.restrict(g, st.cond), p, v)
            return v
        if k == "agg":
            kind, ty, vi, fi, ops = r[1], r[2], r[3], r[4], r[5]
            vals = tuple(self.op(fr, st, o) for o in ops)
            if kind == "adt":
                T = self.P.types[ty]
                if T["kind"] == "Enum":
                    return Enum(vi, {vi: vals})
                if T["kind"] == "Union":
                    return (vals[0],)
                return vals
            if kind == "rawptr":
                p = self.unptr(vals[0])
                m = vals[1]
                if type(m) is int:
                    return self.mapptr(p, lambda q: Ptr(q.al, q.path, m)) if type(p) is not Addr else Addr(p.v, m)
                return p
            return vals
        if k == "cast":
            return self.cast(r[1], self.op(fr, st, r[2]), r[3], r[4])
        if k == "un":
            v = self.op(fr, st, r[2])
            u = r[1]
            if u == "Neg":
                if type(v) is Node and v.k == "f":
                    return self.D.fneg(v)
                x = self.int1(lambda i: self.wrap(-i, self.P.types[r[3]]), v)
                return x if x is not None else self.D.mk("ineg", (v,), "i")
            if u == "Not":
                if type(v) is Bd:
                    return self.D.bd(self.bdd.NOT(v.r))
                x = self.int1(lambda i: self.wrap(~i, self.P.types[r[3]]), v)
                return x if x is not None else self.D.mk("inot", (v,), "i")
            if u == "PtrMetadata":
                return self.ptrmeta(v)
        if k == "discr":
            return self.discr(self.rdplace(fr, st, r[1]), self.plty(body, r[1]))
        if k == "repeat":
            return (self.op(fr, st, r[1]),) * r[2]
        if k == "len":
            ps = self.place(fr, st, r[1])
            g, al, path, meta = ps[0]
            if meta is not None:
                return meta
            return len(self.load(st, al, path))
        if k == "tls":
            self.event("tls", st.cond, r[1])
            return UNDEF
        raise Unsupported("rvalue " + k)

    def scalar(self, v, ty):
        """a number read through a pointer into a transparent wrapper around it"""
        if v.__class__ is tuple and len(v) == 1 and self.P.types[ty]["k"] in ("float", "int", "bool"):
            while v.__class__ is tuple and len(v) == 1:
                v = v[0]
        return v

    def descend(self, s, t):
        """path from a structure to a part of type t at its very start (None: there is none)"""
        if s == t:
            return ()
        S = self.P.types[s]
        if S["k"] == "array":
            r = self.descend(S["elem"], t)
            return (0,) + r if r is not None else None
        if S["k"] == "adt" and S.get("kind") == "Struct" and S["variants"] and len(S["variants"][0]["fields"]) == 1:
            r = self.descend(S["variants"][0]["fields"][0][1], t)
            return (0,) + r if r is not None else None
        return None

    def lastfield(self, T):
        if T["k"] == "adt" and T.get("kind") == "Struct" and T["variants"] and T["variants"][0]["fields"]:
            return T["variants"][0]["fields"][-1]
        return None

    def tail(self, ty):
        """'slice', 'struct' (a structure with a slice at its end) or None"""
        T = self.P.types[ty]
        if T["k"] == "slice":
            return "slice"
        f = self.lastfield(T)
        return "struct" if f is not None and self.tail(self.fieldty(f)) else None

    def taillen(self, ty):
        T = self.P.types[ty]
        if T["k"] == "array":
            return T["len"]
        f = self.lastfield(T)
        return self.taillen(self.fieldty(f)) if f is not None else None

    def fieldty(self, f):
        return f[1]

    def ptrmeta(self, v):
        v = self.unptr(v)
        if type(v) is IteV:
            return self.D.ite(v.c, self.ptrmeta(v.x), self.ptrmeta(v.y))
        if type(v) is Ptr or type(v) is Addr:
            return v.meta if v.meta is not None else ()
        if type(v) is StrV:
            return len(v.s)
        raise Unsupported("metadata")

    # ------------------------------------------------------------------ execution
    def run(self, inst, args, st):
        """analyse inst from state st (mutated into the exit state); returns the value or None if it diverges"""
        P = self.P
        body = inst["body"]
        if body is None:
            raise Unsupported("no MIR for " + inst["name"])
        if len(self.stack) > 200:
            raise Unsupported("call depth")
        self.fn_seen.add(inst["name"])
        pos, loops = P.order(inst)
        nloc = len(body["locals"])
        fr = self.nextkey
        self.nextkey += nloc
        for i, t in enumerate(body["locals"]):
            self.keyty[fr + i] = t
        if CLOSURE.search(inst["name"]) and len(args) == 2 and type(args[1]) is tuple and body["argc"] == 1 + len(args[1]):
            args = [args[0]] + list(args[1])  # the arguments of a closure arrive as one tuple
        elif body["spread"] is not None:
            n = body["spread"]
            args = list(args[: n - 1]) + [tuple(args[n - 1]) if type(args[n - 1]) is tuple else args[n - 1]]
        for i, a in enumerate(args):
            st.mem[fr + 1 + i] = a
        self.stack.append([inst["name"], 0, inst["local"], fr, nloc])
        frame = self.stack[-1]
        blocks = body["blocks"]
        pending = {}
        heap = []
        self.seq = getattr(self, "seq", 0)

        def key_of(b, iters):
            # iters: tuple of iteration numbers for loops[b]
            k = []
            ls = loops[b]
            for h, n in zip(ls, iters):
                k.append(pos[h])
                k.append(n)
            k.append(pos[b])
            return tuple(k)

        def push(b, frm, iters, s):
            if s.cond == 0:
                return
            tl = loops.get(b)
            if tl is None:
                raise Unsupported("edge into unordered block")
            fl = loops[frm] if frm is not None else ()
            # common prefix of enclosing loops
            ni = []
            for i, h in enumerate(tl):
                if i < len(fl) and fl[i] == h:
                    if h == b and i == len(tl) - 1:
                        if self.skipping is not None and self.again(s):
                            return
                        n = iters[i] + 1
                        if n > self.LOOP_LIMIT:
                            self.event("unbounded-loop", s.cond, "more than %d iterations" % self.LOOP_LIMIT)
                            raise Unsupported("loop bound in " + inst["name"])
                        ni.append(n)
                    else:
                        ni.append(iters[i])
                else:
                    ni.append(0)
            ni = tuple(ni)
            later(key_of(b, ni), b, ni, s)

        def later(k, b, ni, s):
            if k in pending:
                pending[k][2].append(s)
            else:
                pending[k] = (b, ni, [s])
                heapq.heappush(heap, k)

        exits = []
        push(0, None, (), State(st.cond, st.mem))
        symiters = {}
        while heap:
            k = heapq.heappop(heap)
            b, iters, sts = pending.pop(k)
            resumed = len(k) % 2 == 0
            s = sts[0]
            for t in sts[1:]:
                s = self.join(s, t)
            blk = blocks[b]
            self.steps += 1 + len(blk["s"])
            mem = s.mem
            for q in blk["s"] if not resumed else ():
                kk = q[0]
                if kk == "=":
                    frame[1] = q[3]
                    v = self.rvalue(fr, s, body, q[2])
                    if s.cond == 0:
                        break
                    if v.__class__ is tuple and len(v) == 1 and len(q[1]) == 1:
                        v = self.scalar(v, body["locals"][q[1][0]])
                    self.wrplace(fr, s, q[1], v)
                elif kk == "live":
                    if mem.get(fr + q[1], UNDEF) is not UNDEF:
                        mem[fr + q[1]] = UNDEF
                elif kk == "dead":
                    mem.pop(fr + q[1], None)
                elif kk == "sd":
                    v = self.rdplace(fr, s, q[1])
                    p = v.p if type(v) is Enum else {}
                    p = dict(p)
                    p.setdefault(q[2], ())
                    self.wrplace(fr, s, q[1], Enum(q[2], p))
                elif kk == "cno":
                    self.copy_n(s, self.op(fr, s, q[1]), self.op(fr, s, q[2]), self.op(fr, s, q[3]))
                else:
                    raise Unsupported("statement " + kk)
            if s.cond == 0:
                continue
            t = blk["t"]
            tk = t[0]
            if tk == "goto":
                push(t[1], b, iters, s)
            elif tk == "switch":
                frame[1] = t[5]
                v = self.op(fr, s, t[1])
                self.switch(s, v, t, lambda tgt, ns: push(tgt, b, iters, ns), inst, b, iters, symiters)
            elif tk == "return":
                rv = mem.pop(fr, UNDEF)
                for i in range(nloc):
                    mem.pop(fr + i, None)
                s.mem = mem
                mem[("ret",)] = rv
                exits.append(s)
            elif tk == "call":
                frame[1] = t[6]
                if iters and t[1][0] == "i" and SKIPS.match(P.insts[t[1][1]]["name"]):
                    # the iterator moves on by one element per pass of the enclosing loop; elements it skips
                    # rejoin here in the next pass
                    if not resumed:
                        later(k + (1,), b, iters, s)
                        continue
                    old = self.skipping
                    self.skipping = more = (len(self.stack), [])
                    self.call(fr, s, body, t, inst)
                    self.skipping = old
                    it2 = iters[:-1] + (iters[-1] + 1,)
                    if more[1] and it2[-1] > self.LOOP_LIMIT:
                        self.event("unbounded-loop", s.cond, "more than %d iterations" % self.LOOP_LIMIT)
                        raise Unsupported("loop bound in " + inst["name"])
                    for s2 in more[1]:
                        later(key_of(b, it2) + (1,), b, it2, s2)
                else:
                    self.call(fr, s, body, t, inst)
                if t[4] is not None and s.cond != 0:
                    push(t[4], b, iters, s)
            elif tk == "assert":
                frame[1] = t[5]
                self.stats["asserts"] += 1
                v = self.op(fr, s, t[1])
                c = v.r if t[2] else self.bdd.NOT(v.r)
                bad = self.bdd.AND(s.cond, self.bdd.NOT(c))
                if bad != 0:
                    self.event("panic", bad, "assert " + t[3])
                    s.cond = self.bdd.AND(s.cond, c)
                push(t[4], b, iters, s)
            elif tk == "drop":
                frame[1] = t[6]
                self.drop(fr, s, body, t)
                if s.cond != 0:
                    push(t[2], b, iters, s)
            elif tk == "unreachable":
                self.event("unreachable", s.cond, "")
            elif tk in ("abort", "asm"):
                self.event(tk, s.cond, "")
            elif tk == "resume":
                pass
            else:
                raise Unsupported("terminator " + tk)
        self.stack.pop()
        if not exits:
            st.cond = 0
            return None
        s = exits[0]
        for t in exits[1:]:
            s = self.join(s, t)
        st.cond = s.cond
        rv = s.mem.pop(("ret",), UNDEF)
        st.mem = s.mem
        return rv

    def again(self, s):
        """a pass of the library loop that looks for the next element of a skipping iterator: ask again later"""
        base, out = self.skipping
        fs = self.stack[base:]
        if not fs or any(f[2] for f in fs) or not DRIVES.search(fs[-1][0]) or any("::nth" in f[0] or "advance_by" in f[0] for f in fs):
            return False
        for f in fs:
            for i in range(f[4]):
                s.mem.pop(f[3] + i, None)
        out.append(s)
        return True

    def join(self, a, b):
        self.stats["merges"] += 1
        D = self.D
        bdd = self.bdd
        tot = bdd.OR(a.cond, b.cond)
        c = bdd.fewer(a.cond, tot)
        am, bm = a.mem, b.mem
        for k in list(am):
            x = am[k]
            y = bm.get(k, UNDEF)
            if x is not y:
                am[k] = D.merge(c, x, y)
        for k, y in bm.items():
            if k not in am:
                am[k] = y
        a.cond = tot
        return a

    def switch(self, s, v, t, push, inst, b, iters, symiters):
        bdd = self.bdd
        self.stats["switches"] += 1
        if type(v) is PtrInt or type(v) is Ptr:
            raise Unsupported("switch on pointer")
        if type(v) is Bd:
            outs = []
            rest = 1
            for val, tgt in t[2]:
                c = v.r if val else bdd.NOT(v.r)
                outs.append((c, tgt))
                rest = bdd.AND(rest, bdd.NOT(c))
            outs.append((rest, t[3]))
        elif type(v) is int:
            T = self.P.types[t[4]]
            for val, tgt in t[2]:
                if (self.wrap(val, T) if T["k"] == "int" else val) == v:
                    push(tgt, s)
                    return
            push(t[3], s)
            return
        elif type(v) is Node:
            T = self.P.types[t[4]]
            outs = []
            rest = 1
            for val, tgt in t[2]:
                val = self.wrap(val, T) if T["k"] == "int" else val
                c = self.D.icmp("eq", v, val)
                c = bdd.AND(c, rest)
                outs.append((c, tgt))
                rest = bdd.AND(rest, bdd.NOT(c))
            outs.append((rest, t[3]))
        else:
            raise Unsupported("switch on %r in %s" % (v, inst["name"]))
        live = [(bdd.AND(s.cond, c), tgt) for c, tgt in outs]
        live = [(c, tgt) for c, tgt in live if c != 0]
        if len(live) > 1 and iters:
            n = symiters.get(b, 0) + 1
            symiters[b] = n
            if n > 40000:
                raise Unsupported("too many undecided branches in loop")
            if iters[-1] > self.SYM_LOOP_LIMIT and self.exits_loop(inst, b):
                self.event("unbounded-loop", s.cond, "loop exit depends on run-time values beyond %d iterations" % self.SYM_LOOP_LIMIT)
                raise Unsupported("loop bound in " + inst["name"])
        for i, (c, tgt) in enumerate(live):
            push(tgt, State(c, s.mem if i == len(live) - 1 else dict(s.mem)))

    def exits_loop(self, inst, b):
        pos, loops = self.P.order(inst)
        h = loops[b][-1]
        return any(h not in loops.get(s, ()) for s in self.P.succs(inst["body"]["blocks"][b]))

    def copy_n(self, st, src, dst, n):
        if type(n) is not int:
            raise Unsupported("copy count")
        if n == 0:
            return
        vals = []
        for i in range(n):
            p = self.offset(src, i)
            vals.append(self.load(st, p.al, p.path))
        for i in range(n):
            p = self.offset(dst, i)
            self.store(st, p.al, p.path, vals[i])

    # ------------------------------------------------------------------ calls
    def callee(self, fr, st, t):
        c = t[1]
        if c[0] == "i":
            return self.P.insts[c[1]]
        if c[0] == "ind":
            v = self.op(fr, st, c[1])
            if type(v) is FnV:
                return self.P.insts[v.inst]
        return None

    def call(self, fr, st, body, t, inst):
        callee = self.callee(fr, st, t)
        self.stats["calls"] += 1
        if callee is None:
            self.event("unknown-call", st.cond, "unresolved call in " + inst["name"])
            raise Unsupported("unresolved call in " + inst["name"])
        args = [self.op(fr, st, a) for a in t[2]]
        if st.cond == 0:
            return
        if callee["local"]:
            self.callers.setdefault(callee["name"], set()).add(inst["name"])
        rv = self.invoke(callee, args, st)
        if st.cond == 0 or rv is None:
            st.cond = 0
            return
        self.wrplace(fr, st, t[3], rv)

    def invoke(self, callee, args, st):
        for h in self.hooks:
            r = h(self, callee, args, st)
            if r is not None:
                return r[0]
        r = self.model(callee, args, st)
        if r is not None:
            return r[0]
        for f in self.stack:
            if f[0] == callee["name"] and callee["local"]:
                self.event("recursion", st.cond, callee["name"])
                raise Unsupported("recursion through " + callee["name"])
        return self.run(callee, args, st)

    def model(self, c, args, st):
        """built-in semantics; returns (value,) or None to analyse the MIR body"""
        D = self.D
        if c["body"] is None and c.get("ctor"):
            ty, vi = c["ctor"]
            return (Enum(vi, {vi: tuple(args)}) if self.P.types[ty]["kind"] == "Enum" else tuple(args),)
        n = c["intrinsic"]
        name = c["name"]
        if n:
            n = {"powf64": "powf", "powif64": "powi", "sqrtf64": "sqrt", "logf64": "log", "expf64": "exp", "fabsf64": "fabs"}.get(n, n)
            if n.endswith("f64"):
                n = n[:-3].rstrip("_")
            n = {"maximum_number_nsz": "maxnum", "minimum_number_nsz": "minnum"}.get(n, n)
            if n in ("powf", "pow"):
                return (D.fbin("pow", args[0], args[1]),)
            if n == "powi":
                return (D.powi(args[0], args[1]),)
            if n == "fabs":
                return (D.fabs(args[0]),)
            if n in FLOAT_FUN1:
                return (D.ffun(n, args[0]),)
            if n in ("fma", "fmuladd"):
                return (D.fbin("add", D.fbin("mul", args[0], args[1]), args[2]),)
            if n in ("minnum", "maxnum", "minimum", "maximum", "copysign"):
                return (D.ffun(n, *args),)
            if n in ("fadd_fast", "fadd_algebraic"):
                return (D.fbin("add", *args),)
            if n in ("cold_path", "assume", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "forget"):
                return ((),)
            if n in ("likely", "unlikely", "black_box"):
                return (args[0],)
            if n == "ctpop":
                r = self.int1(lambda x: bin(x & ((1 << 64) - 1)).count("1"), args[0])
                return (r,)
            if n in ("ptr_offset_from_unsigned", "ptr_offset_from"):
                a, b = self.unptr(args[0]), self.unptr(args[1])
                if type(a) is Ptr and type(b) is Ptr and a.al == b.al and a.path[:-1] == b.path[:-1] and a.path and b.path:
                    return (a.path[-1] - b.path[-1],)
                raise Unsupported("pointer difference")
            if n in ("offset", "arith_offset"):
                return (self.offset(args[0], args[1]),)
            if n in ("size_of", "size_of_val"):
                T = self.P.types[c["targs"][0]]
                return (self.sizeof(c["targs"][0]),)
            if n in ("read_via_copy", "ptr_read", "volatile_load", "unaligned_volatile_load"):
                p = []
                self.ptrs(st, args[0], None, p)
                if len(p) != 1:
                    raise Unsupported("read through choice")
                v = self.load(st, p[0][1], p[0][2])
                return (self.scalar(v, c["targs"][0]) if c["targs"] else v,)
            if n in ("write_via_move", "volatile_store"):
                p = []
                self.ptrs(st, args[0], None, p)
                if len(p) != 1:
                    raise Unsupported("write through choice")
                self.store(st, p[0][1], p[0][2], args[1])
                return ((),)
            if n in ("typed_swap_nonoverlapping",):
                a, b = self.unptr(args[0]), self.unptr(args[1])
                x, y = self.load(st, a.al, a.path), self.load(st, b.al, b.path)
                self.store(st, a.al, a.path, y)
                self.store(st, b.al, b.path, x)
                return ((),)
            if n in ("copy_nonoverlapping", "copy"):
                self.copy_n(st, args[0], args[1], args[2])
                return ((),)
            if n in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
                v, o = self.ibin({"a": "Add", "s": "Sub", "m": "Mul"}[n[0]], args[0], args[1], self.P.types[c["targs"][0]])
                return ((v, D.bd(o)),)
            if n in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul", "unchecked_div", "unchecked_rem", "unchecked_shl", "unchecked_shr", "exact_div"):
                o = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "shl": "Shl", "shr": "Shr"}["div" if n == "exact_div" else n.split("_")[1]]
                return (self.ibin(o, args[0], args[1], self.P.types[c["targs"][0]])[0],)
            if n in ("saturating_sub", "saturating_add"):
                T = self.P.types[c["targs"][0]]
                if type(args[0]) is int and type(args[1]) is int:
                    r = args[0] + args[1] if n.endswith("add") else args[0] - args[1]
                    lo = -(1 << (T["bits"] - 1)) if T["signed"] else 0
                    hi = (1 << (T["bits"] - (1 if T["signed"] else 0))) - 1
                    return (max(lo, min(hi, r)),)
                raise Unsupported("saturating arithmetic on unknown value")
            if n == "discriminant_value":
                p = self.unptr(args[0])
                tid = c["targs"][0]
                return (self.discr(self.load(st, p.al, p.path), tid),)
            if n == "three_way_compare":
                return (self.binop("Cmp", args[0], args[1], c["targs"][0]),)
            if n in ("abort",):
                self.event("abort", st.cond, "")
                st.cond = 0
                return (None,)
            if n == "unreachable":
                st.cond = 0
                return (None,)
            if n in ("ub_checks", "contract_checks", "overflow_checks"):
                return (D.F,)
            if n == "needs_drop":
                return (D.T,)
            if n == "transmute" or n == "transmute_unchecked":
                return (self.cast("Transmute", args[0], c["targs"][0], c["targs"][1]),)
            if n == "select_unpredictable":
                return (D.merge(args[0].r, args[1], args[2]),)
            if n == "is_val_statically_known":
                return (D.F,)
            if n == "const_eval_select":
                return None
            if c["body"] is None:
                raise Unsupported("intrinsic " + n)
        # precondition checks are no-ops for defined executions
        if name.endswith("::precondition_check"):
            return ((),)
        if "fmt::Arguments" in name or "fmt::rt::Argument" in name:
            return (UNDEF,)
        if not c["local"] and c["body"] is not None and self.P.types[c["body"]["locals"][0]]["k"] == "never":
            self.event("panic", st.cond, name)
            st.cond = 0
            return (None,)
        if name.endswith("_mismatch_fail") or name.startswith("core::panicking") or name.startswith("std::rt::panic") or name.startswith("std::rt::begin_panic") or "panic_const" in name or name in ("core::option::unwrap_failed", "core::result::unwrap_failed", "core::option::expect_failed", "std::option::unwrap_failed", "std::result::unwrap_failed", "std::option::expect_failed", "core::slice::index::slice_index_fail", "std::alloc::handle_alloc_error", "std::process::abort", "std::process::exit"):
            self.event("panic", st.cond, name)
            st.cond = 0
            return (None,)
        if name.startswith("<std::boxed::Box<") and name.endswith(" as std::default::Default>::default"):
            self.boxed = self.P.types[c["body"]["locals"][0]]["targs"][0]
        if name == "std::boxed::box_new_uninit" or name.startswith("std::boxed::Box::<") and name.endswith(("::new", "::new_uninit")):
            if name.endswith("::box_new_uninit"):
                ty, args = self.boxed, [UNDEF]
            else:
                ty = c["targs"][0]
            if not args:
                args = [UNDEF]
            k = self.newkey(ty)
            self.heap[k] = ty
            st.mem[k] = args[0]
            self.event("alloc", st.cond, (k, self.P.tname(ty)))
            ret = c["body"]["locals"][0]
            return (self.wrapptr(Ptr(k, (), None), ret),)
        if name.startswith("std::ptr::drop_in_place") or name.startswith("core::ptr::drop_in_place"):
            pass
        if c["body"] is None:
            if c.get("foreign") or "libm" in name:
                base = name.split("::")[-1]
                if base in LIBM and all(type(a) is Node and a.k == "f" for a in args):
                    return (D.ffun(base, *args),)
            if c["kind"] == "unreached":
                raise Unsupported("call to unextracted " + name)
            # never-returning library functions are failures
            self.event("unknown-call", st.cond, name)
            raise Unsupported("call to " + name)
        return None

    def sizeof(self, t):
        T = self.P.types[t]
        k = T["k"]
        if k == "adt" and T.get("layout"):
            return T["layout"]["size"]
        if k == "int":
            return T["bits"] // 8
        if k == "float":
            return 8 if T["name"] == "F64" else 4
        if k == "bool":
            return 1
        if k == "array":
            return self.sizeof(T["elem"]) * T["len"]
        if k == "tuple" and T.get("layout"):
            return T["layout"]["size"]
        raise Unsupported("size of " + self.P.tname(t))

    def drop(self, fr, st, body, t):
        if t[3] is None:
            return
        T = self.P.types[t[4]]
        v = self.rdplace(fr, st, t[1])
        self.dropval(st, v, t[4])

    def dropval(self, st, v, ty):
        T = self.P.types[ty]
        if v is UNDEF:
            return
        if T["k"] == "adt" and T["box"]:
            p = []
            self.ptrs(st, v, None, p)
            for g, al, path, meta in p:
                self.event("free", st.cond if g is None else g, (al, self.P.tname(T["targs"][0]), path))
            return
        if T["k"] == "adt" and T["kind"] == "Struct":
            if T["name"].endswith("ManuallyDrop"):
                return
            for i, f in enumerate(T["variants"][0]["fields"]):
                if type(v) is tuple:
                    self.dropval(st, v[i], f[1])
            return
        if T["k"] == "adt" and T["kind"] == "Enum":
            for vi, V in enumerate(T["variants"]):
                pv = v.p.get(vi) if type(v) is Enum else None
                if pv is not None:
                    c = self.D.icmp("eq", v.d, vi)
                    s2 = State(self.bdd.AND(st.cond, c), st.mem)
                    if s2.cond:
                        for i, f in enumerate(V["fields"]):
                            self.dropval(s2, pv[i], f[1])
            return
        if T["k"] in ("tuple", "closure"):
            for i, f in enumerate(T["fields"]):
                self.dropval(st, v[i], f)
            return
        if T["k"] == "array" and type(v) is tuple:
            for x in v:
                self.dropval(st, x, T["elem"])
