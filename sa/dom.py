"""Abstract domain: hash-consed value graph (gated value numbers) and BDD path conditions."""
import math, struct


class BDD:
    """Reduced ordered BDDs over atom indices.  0 = false, 1 = true."""

    def __init__(self):
        self.var = [1 << 60, 1 << 60]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.memo = {}
        self.rmemo = {}
        self.fmemo = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.var)
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = r
        return r

    def atom(self, v):
        return self.mk(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        var = self.var
        v = min(var[f], var[g], var[h])
        f0, f1 = (self.lo[f], self.hi[f]) if var[f] == v else (f, f)
        g0, g1 = (self.lo[g], self.hi[g]) if var[g] == v else (g, g)
        h0, h1 = (self.lo[h], self.hi[h]) if var[h] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def NOT(self, f):
        return self.ite(f, 0, 1)

    def AND(self, f, g):
        return self.ite(f, g, 0)

    def OR(self, f, g):
        return self.ite(f, 1, g)

    def imp(self, f, g):
        return self.AND(f, self.NOT(g)) == 0

    def support(self, f):
        s = set()
        seen = set()
        st = [f]
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            s.add(self.var[x])
            st.append(self.lo[x])
            st.append(self.hi[x])
        return s

    def restrict(self, f, c):
        """Coudert-Madre restrict: a simpler function equal to f wherever c holds."""
        if c == 1 or f < 2:
            return f
        if c == 0:
            return 0
        if f == c:
            return 1
        k = (f, c)
        r = self.rmemo.get(k)
        if r is not None:
            return r
        var = self.var
        vf, vc = var[f], var[c]
        if vc < vf:
            r = self.restrict(f, self.OR(self.lo[c], self.hi[c]))
        else:
            if vc == vf:
                c0, c1 = self.lo[c], self.hi[c]
            else:
                c0 = c1 = c
            if c0 == 0:
                r = self.restrict(self.hi[f], c1)
            elif c1 == 0:
                r = self.restrict(self.lo[f], c0)
            else:
                r = self.mk(vf, self.restrict(self.lo[f], c0), self.restrict(self.hi[f], c1))
        self.rmemo[k] = r
        return r

    def small(self, f, n):
        """at most n nodes"""
        seen = {f}
        st = [f]
        while st:
            x = st.pop()
            if x < 2:
                continue
            for y in (self.lo[x], self.hi[x]):
                if y not in seen:
                    if len(seen) > n:
                        return False
                    seen.add(y)
                    st.append(y)
        return True

    def fewer(self, f, c):
        """a function equal to f wherever c holds that tests as few variables as possible (greedy)"""
        r = self.restrict(f, c)
        if r < 2 or (self.lo[r] < 2 and self.hi[r] < 2):
            return r
        k = (f, c)
        v = self.fmemo.get(k)
        if v is not None:
            return v
        sup = sorted(self.support(r))
        if len(sup) <= 40 and self.small(c, 60) and self.small(f, 60):
            lo = self.AND(f, c)
            up = self.OR(f, self.NOT(c))
            n = 0
            for x in sorted(self.support(lo) | self.support(up)):
                a0, a1 = self.cof(lo, {x: 0}), self.cof(lo, {x: 1})
                l2 = self.OR(a0, a1)
                u2 = self.AND(self.cof(up, {x: 0}), self.cof(up, {x: 1}))
                if self.imp(l2, u2):
                    lo, up = l2, u2
                    n += 1
            g = self.restrict(lo, self.OR(lo, self.NOT(up)))
            if len(self.support(g)) < len(sup):
                r = g
        self.fmemo[k] = r
        return r

    def cof(self, f, assign):
        """cofactor by {var: bool}"""
        m = {}

        def go(x):
            if x < 2:
                return x
            r = m.get(x)
            if r is None:
                v = self.var[x]
                a = assign.get(v)
                if a is None:
                    r = self.mk(v, go(self.lo[x]), go(self.hi[x]))
                else:
                    r = go(self.hi[x] if a else self.lo[x])
                m[x] = r
            return r

        return go(f)

    def subst(self, f, fn):
        """replace atom v by the BDD fn(v)"""
        m = {}

        def go(x):
            if x < 2:
                return x
            r = m.get(x)
            if r is None:
                r = self.ite(fn(self.var[x]), go(self.hi[x]), go(self.lo[x]))
                m[x] = r
            return r

        return go(f)

    def cubes(self, f, limit=64):
        out = []

        def go(x, acc):
            if len(out) >= limit or x == 0:
                return
            if x == 1:
                out.append(dict(acc))
                return
            v = self.var[x]
            acc[v] = False
            go(self.lo[x], acc)
            acc[v] = True
            go(self.hi[x], acc)
            del acc[v]

        go(f, {})
        return out


class Node:
    __slots__ = ("op", "a", "id", "k", "sup")

    def __repr__(self):
        return show(self)


def fbits(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def bitsof(f):
    return struct.unpack("<Q", struct.pack("<d", f))[0]


class Bd:
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Enum:
    __slots__ = ("d", "p")

    def __init__(self, d, p):
        self.d = d  # variant index: int or Node
        self.p = p  # variant -> tuple

    def __repr__(self):
        return "Enum(%r,%r)" % (self.d, self.p)

    def __eq__(self, o):
        return self is o or type(o) is Enum and self.d == o.d and self.p == o.p

    def __hash__(self):
        return hash((self.d, tuple(sorted(self.p))))


class Ptr:
    __slots__ = ("al", "path", "meta")

    def __init__(self, al, path, meta=None):
        self.al = al
        self.path = path
        self.meta = meta

    def __eq__(self, o):
        return type(o) is Ptr and self.al == o.al and self.path == o.path and self.meta == o.meta

    def __hash__(self):
        return hash((self.al, self.path, self.meta))

    def __repr__(self):
        return "Ptr(%r,%r,%r)" % (self.al, self.path, self.meta)


class Addr:
    __slots__ = ("v", "meta")

    def __init__(self, v, meta=None):
        self.v = v
        self.meta = meta

    def __eq__(self, o):
        return type(o) is Addr and self.v == o.v and self.meta == o.meta

    def __hash__(self):
        return hash((self.v, self.meta))

    def __repr__(self):
        return "Addr(%r)" % self.v


class IteV:
    """choice between non-scalar values"""
    __slots__ = ("c", "x", "y")

    def __init__(self, c, x, y):
        self.c = c
        self.x = x
        self.y = y

    def __repr__(self):
        return "IteV(%d,%r,%r)" % (self.c, self.x, self.y)


class PtrInt:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class FnV:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst

    def __eq__(self, o):
        return type(o) is FnV and self.inst == o.inst

    def __hash__(self):
        return hash(self.inst)


class StrV:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return type(o) is StrV and self.s == o.s

    def __hash__(self):
        return hash(self.s)


def cpow(x, y):
    try:
        r = math.pow(x, y)
        return r
    except OverflowError:
        return math.inf
    except ValueError:
        return math.nan


def cfun(name, x):
    try:
        if name == "exp":
            return math.exp(x)
        if name == "log":
            if x == 0:
                return -math.inf
            return math.log(x)
        if name == "sqrt":
            return math.sqrt(x)
        if name in ("sin", "cos", "tan", "sinh", "cosh", "tanh", "log10", "log2", "expm1", "log1p", "cbrt", "exp2"):
            return getattr(math, name)(x)
        if name == "floor":
            return float(math.floor(x))
        if name == "ceil":
            return float(math.ceil(x))
    except OverflowError:
        return math.inf
    except ValueError:
        return math.nan
    return None


class Dom:
    def __init__(self):
        self.bdd = BDD()
        self.nodes = {}
        self.list = []
        self.atoms = []  # atom index -> Node (bool-valued)
        self.atomidx = {}
        self.bds = {0: Bd(0), 1: Bd(1)}
        self.F = self.bds[0]
        self.T = self.bds[1]
        self.cmpmemo = {}
        self.imaps = {}
        self.numbers = frozenset()  # symbols assumed not to be NaN

    # ---------- nodes
    def mk(self, op, args, k="f"):
        key = (op, args)
        n = self.nodes.get(key)
        if n is None:
            n = Node()
            n.op = op
            n.a = args
            n.k = k
            n.id = len(self.list)
            n.sup = None
            self.nodes[key] = n
            self.list.append(n)
        return n

    def const(self, f):
        b = bitsof(f)
        n = self.nodes.get(("c", b))
        if n is None:
            n = Node()
            n.op = "c"
            n.a = f
            n.k = "f"
            n.id = len(self.list)
            n.sup = None
            self.nodes[("c", b)] = n
            self.list.append(n)
        return n

    def sym(self, name, k="f"):
        return self.mk("sym", (name,), k)

    def bd(self, r):
        b = self.bds.get(r)
        if b is None:
            b = self.bds[r] = Bd(r)
        return b

    def atom(self, node):
        i = self.atomidx.get(node)
        if i is None:
            i = len(self.atoms)
            self.atomidx[node] = i
            self.atoms.append(node)
        return self.bdd.atom(i)

    # ---------- float ops
    def fbin(self, op, x, y):
        if x.op == "c" and y.op == "c":
            a, b = x.a, y.a
            if op == "add":
                return self.const(a + b)
            if op == "sub":
                return self.const(a - b)
            if op == "mul":
                return self.const(a * b)
            if op == "div":
                if b == 0:
                    if a == 0 or a != a:
                        return self.const(math.nan)
                    s = math.copysign(1, a) * math.copysign(1, b)
                    return self.const(s * math.inf)
                return self.const(a / b)
            if op == "rem":
                try:
                    return self.const(math.fmod(a, b))
                except ValueError:
                    return self.const(math.nan)
            if op == "pow":
                return self.const(cpow(a, b))
        return self.mk(op, (x, y))

    def fneg(self, x):
        if x.op == "c":
            return self.const(-x.a)
        return self.mk("neg", (x,))

    def fabs(self, x):
        if x.op == "c":
            return self.const(abs(x.a))
        return self.mk("abs", (x,))

    def powi(self, x, n):
        if x.op == "c" and isinstance(n, int):
            return self.const(cpow(x.a, float(n)))
        return self.mk("powi", (x, n))

    def ffun(self, name, *xs):
        if len(xs) == 1 and xs[0].op == "c":
            r = cfun(name, xs[0].a)
            if r is not None:
                return self.const(r)
        return self.mk(name, tuple(xs))

    # ---------- ite / merge
    def ite(self, c, a, b):
        """scalar ite (Node or int)"""
        if c == 1:
            return a
        if c == 0:
            return b
        if a is b or (type(a) is int and type(b) is int and a == b):
            return a
        ta, tb = type(a), type(b)
        k = a.k if ta is Node else (b.k if tb is Node else "i")
        bdd = self.bdd
        if k == "i":
            r = self.iite(c, a, b)
            if r is not None:
                return r
        # drop decided inner choices
        for _ in range(4):
            if type(a) is Node and a.op == "ite":
                r = bdd.restrict(a.a[0], c) if bdd.AND(c, a.a[0]) == 0 or bdd.imp(c, a.a[0]) else None
                if r == 1:
                    a = a.a[1]
                    continue
                if r == 0:
                    a = a.a[2]
                    continue
            break
        nc = bdd.NOT(c)
        for _ in range(4):
            if type(b) is Node and b.op == "ite":
                if bdd.AND(nc, b.a[0]) == 0:
                    b = b.a[2]
                    continue
                if bdd.imp(nc, b.a[0]):
                    b = b.a[1]
                    continue
            break
        if a is b or (type(a) is int and type(b) is int and a == b):
            return a
        # ite(c, v, ite(d, v, w)) = ite(c|d, v, w);  ite(c, ite(d, v, w), w) = ite(c&d, v, w)
        if type(b) is Node and b.op == "ite" and (b.a[1] is a or (type(a) is int and b.a[1] == a and type(b.a[1]) is int)):
            return self.ite(bdd.OR(c, b.a[0]), a, b.a[2])
        if type(b) is Node and b.op == "ite" and (b.a[2] is a or (type(a) is int and b.a[2] == a and type(b.a[2]) is int)):
            return self.ite(bdd.AND(nc, b.a[0]), b.a[1], a)
        if type(a) is Node and a.op == "ite" and (a.a[2] is b or (type(b) is int and a.a[2] == b and type(a.a[2]) is int)):
            return self.ite(bdd.AND(c, a.a[0]), a.a[1], b)
        if type(a) is Node and a.op == "ite" and (a.a[1] is b or (type(b) is int and a.a[1] == b and type(a.a[1]) is int)):
            return self.ite(bdd.AND(c, bdd.NOT(a.a[0])), a.a[2], b)
        # canonical polarity
        if bdd.lo[c] == 1:
            return self.mk("ite", (nc, b, a), k)
        return self.mk("ite", (c, a, b), k)

    def imap(self, n):
        """{int: condition} of a choice between few int constants (conditions disjoint, covering), else None"""
        if type(n) is int:
            return {n: 1}
        if n.op != "ite":
            return None
        r = self.imaps.get(n, 0)
        if r == 0:
            x, y = self.imap(n.a[1]), self.imap(n.a[2])
            r = None if x is None or y is None else self.imerge(n.a[0], x, y)
            self.imaps[n] = r
        return r

    def imerge(self, c, x, y):
        bdd = self.bdd
        nc = bdd.NOT(c)
        d = {}
        for v, cc in x.items():
            g = bdd.AND(c, cc)
            if g:
                d[v] = g
        for v, cc in y.items():
            g = bdd.AND(nc, cc)
            if g:
                d[v] = bdd.OR(d.get(v, 0), g)
        return d

    def iite(self, c, a, b):
        """integer choices are kept as one decision list over their values, in increasing order"""
        x, y = self.imap(a), self.imap(b)
        if x is None or y is None:
            return None
        d = self.imerge(c, x, y)
        if len(d) > 64:
            return None
        vs = sorted(d, reverse=True)
        n = vs[0]
        for v in vs[1:]:
            n = self.mk("ite", (d[v], v, n), "i")
        if type(n) is Node:
            self.imaps[n] = d
        return n

    def merge(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if c == 1:
            return a
        if c == 0:
            return b
        ta, tb = type(a), type(b)
        if ta is tuple and tb is tuple and len(a) == len(b):
            out = None
            for i in range(len(a)):
                x = a[i]
                y = b[i]
                if x is not y:
                    m = self.merge(c, x, y)
                    if m is not x:
                        if out is None:
                            out = list(a)
                        out[i] = m
            return a if out is None else tuple(out)
        if (ta is Node or ta is int) and (tb is Node or tb is int):
            return self.ite(c, a, b)
        if ta is Bd and tb is Bd:
            return self.bd(self.bdd.ite(c, a.r, b.r))
        if ta is Enum and tb is Enum:
            if a.p is b.p:
                p = a.p
            else:
                p = {}
                for v in set(a.p) | set(b.p):
                    if v in a.p and v in b.p:
                        p[v] = self.merge(c, a.p[v], b.p[v])
                    else:
                        p[v] = a.p.get(v, b.p.get(v))
            return Enum(self.ite(c, a.d, b.d), p)
        if ta is tb and ta in (Ptr, Addr, FnV, StrV) and a == b:
            return a
        return IteV(c, a, b)

    # ---------- int helpers
    def ileaves(self, n, cond=1):
        """[(bdd, int)] if n is a choice between int constants, else None"""
        if type(n) is int:
            return [(cond, n)]
        m = self.imap(n)
        if m is not None:
            l = [(self.bdd.AND(cond, c), v) for v, c in m.items()]
            return [(c, v) for c, v in l if c]
        if n.op == "ite":
            c, x, y = n.a
            a = self.ileaves(x, self.bdd.AND(cond, c))
            if a is None:
                return None
            b = self.ileaves(y, self.bdd.AND(cond, self.bdd.NOT(c)))
            if b is None:
                return None
            d = {}
            for cc, v in a + b:
                if cc != 0:
                    d[v] = self.bdd.OR(d.get(v, 0), cc)
            return [(cc, v) for v, cc in d.items()]
        return None

    def icmp(self, op, a, b):
        """-> bdd ref; op in eq, lt, le"""
        if type(a) is int and type(b) is int:
            r = a == b if op == "eq" else (a < b if op == "lt" else a <= b)
            return 1 if r else 0
        x, y = self.imap(a), self.imap(b)
        if x is not None and y is not None:
            r = 0
            for v, c in x.items():
                for w, e in y.items():
                    if v == w if op == "eq" else v < w if op == "lt" else v <= w:
                        r = self.bdd.OR(r, self.bdd.AND(c, e))
            return r
        if type(a) is Node and a.op == "ite":
            return self.bdd.ite(a.a[0], self.icmp(op, a.a[1], b), self.icmp(op, a.a[2], b))
        if type(b) is Node and b.op == "ite":
            return self.bdd.ite(b.a[0], self.icmp(op, a, b.a[1]), self.icmp(op, a, b.a[2]))
        if a is b:
            return 1 if op in ("eq", "le") else 0
        if op == "eq":
            if type(a) is int or (type(b) is Node and b.id < a.id):
                a, b = b, a
            return self.atom(self.mk("ieq", (a, b), "b"))
        if op == "le":  # a<=b  <=>  not b<a
            return self.bdd.NOT(self.icmp("lt", b, a))
        # normalise a<k to integer thresholds on the symbolic side
        return self.atom(self.mk("ilt", (a, b), "b"))

    # ---------- float compare (IEEE: false when unordered)
    def fcmp(self, op, a, b):
        if a.op == "c" and b.op == "c":
            x, y = a.a, b.a
            r = x == y if op == "eq" else (x < y if op == "lt" else x <= y)
            return 1 if r else 0
        if a is b and op == "lt":
            return 0
        if (a.op == "c" and a.a != a.a) or (b.op == "c" and b.a != b.a):
            return 0
        key = (op, a, b)
        m = self.cmpmemo.get(key)
        if m is not None:
            return m
        r = None
        if a.op == "ite" and self._small(a):
            r = self.bdd.ite(a.a[0], self.fcmp(op, a.a[1], b), self.fcmp(op, a.a[2], b))
        elif b.op == "ite" and self._small(b):
            r = self.bdd.ite(b.a[0], self.fcmp(op, a, b.a[1]), self.fcmp(op, a, b.a[2]))
        elif a.op == "abs" and b.op == "c" and op in ("lt", "le") and (b.a < 0 or (op == "lt" and b.a == 0)):
            r = 0
        elif op == "le" and self.numbers and self._number(a) and self._number(b):
            r = self.bdd.NOT(self.fcmp("lt", b, a))
        else:
            if op == "eq" and b.id < a.id:
                a, b = b, a
            r = self.atom(self.mk("f" + op, (a, b), "b"))
        self.cmpmemo[key] = r
        return r

    def _number(self, n):
        """is the value known not to be NaN"""
        return n.op == "c" or n.op == "sym" and n.a[0] in self.numbers or n.op in ("abs", "neg") and self._number(n.a[0])

    def _small(self, n, lim=6):
        cnt = [0]

        def go(x):
            if x.op == "ite":
                go(x.a[1])
                go(x.a[2])
            else:
                cnt[0] += 1
        go(n) if self._depth(n) < 6 else cnt.__setitem__(0, 99)
        return cnt[0] <= lim

    def _depth(self, n):
        d = 0
        while n.op == "ite" and d < 10:
            d += 1
            n = n.a[2] if type(n.a[2]) is Node and n.a[2].op == "ite" else n.a[1]
            if type(n) is not Node:
                break
        return d

    # ---------- support (set of symbol names)
    def support(self, n):
        if type(n) is not Node:
            return frozenset()
        if n.sup is not None:
            return n.sup
        st = [n]
        while st:
            x = st[-1]
            if x.sup is not None:
                st.pop()
                continue
            if x.op == "c":
                x.sup = frozenset()
                st.pop()
                continue
            if x.op == "sym":
                x.sup = frozenset(x.a[:1])
                st.pop()
                continue
            kids = [y for y in x.a if type(y) is Node]
            if x.op == "ite":
                kids += [self.atoms[v] for v in self.bdd.support(x.a[0])]
            todo = [y for y in kids if y.sup is None]
            if todo:
                st.extend(todo)
                continue
            s = frozenset()
            for y in kids:
                s = s | y.sup
            x.sup = s
            st.pop()
        return n.sup

    def bsupport(self, r):
        s = frozenset()
        for v in self.bdd.support(r):
            s |= self.support(self.atoms[v])
        return s

    def vsupport(self, v):
        """support of any value"""
        t = type(v)
        if t is Node:
            return self.support(v)
        if t is Bd:
            return self.bsupport(v.r)
        if t is tuple:
            s = frozenset()
            for x in v:
                s |= self.vsupport(x)
            return s
        if t is Enum:
            s = self.vsupport(v.d)
            for x in v.p.values():
                s |= self.vsupport(x)
            return s
        if t is IteV:
            return self.bsupport(v.c) | self.vsupport(v.x) | self.vsupport(v.y)
        return frozenset()

    # ---------- display
    def bshow(self, r, depth=3):
        if r == 1:
            return "true"
        if r == 0:
            return "false"
        cs = self.bdd.cubes(r, 4)
        parts = []
        for c in cs:
            parts.append(" & ".join(("" if b else "!") + show(self.atoms[v], depth) for v, b in c.items()))
        return " | ".join(parts) + (" ..." if len(cs) >= 4 else "")


OPS = {"add": "+", "sub": "-", "mul": "*", "div": "/", "flt": "<", "fle": "<=", "feq": "==", "ieq": "==", "ilt": "<"}


def show(n, depth=4):
    if type(n) is not Node:
        return repr(n)
    if n.op == "c":
        return repr(n.a)
    if n.op == "sym":
        return str(n.a[0])
    if depth <= 0:
        return "#%d" % n.id
    if n.op == "ite":
        return "ite(b%d,%s,%s)" % (n.a[0], show(n.a[1], depth - 1), show(n.a[2], depth - 1))
    if n.op in OPS:
        return "(%s %s %s)" % (show(n.a[0], depth - 1), OPS[n.op], show(n.a[1], depth - 1))
    return "%s(%s)" % (n.op, ",".join(show(x, depth - 1) for x in n.a))


def under(D, n, c, memo=None):
    """rewrite a value for executions on which path condition c holds"""
    bdd = D.bdd
    if memo is None:
        memo = {}

    def go(x):
        if type(x) is not Node:
            if type(x) is tuple:
                return tuple(go(y) for y in x)
            if type(x) is Bd:
                return D.bd(bdd.restrict(x.r, c))
            if type(x) is Enum:
                return Enum(go(x.d), {k: tuple(go(y) for y in v) for k, v in x.p.items()})
            if type(x) is IteV:
                if bdd.AND(c, x.c) == 0:
                    return go(x.y)
                if bdd.imp(c, x.c):
                    return go(x.x)
                return IteV(bdd.restrict(x.c, c), go(x.x), go(x.y))
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ("c", "sym"):
            r = x
        elif x.op == "ite":
            g = x.a[0]
            if bdd.AND(c, g) == 0:
                r = go(x.a[2])
            elif bdd.imp(c, g):
                r = go(x.a[1])
            else:
                r = D.ite(bdd.restrict(g, c), go(x.a[1]), go(x.a[2]))
                while type(r) is Node and r.op == "ite":
                    if bdd.AND(c, r.a[0]) == 0:
                        r = r.a[2]
                    elif bdd.imp(c, r.a[0]):
                        r = r.a[1]
                    else:
                        break
        else:
            kids = tuple(go(y) if type(y) is Node else y for y in x.a)
            r = x if kids == x.a else rebuild(D, x, kids)
        memo[x] = r
        return r

    return go(n)


def rebuild(D, x, kids):
    op = x.op
    if op in ("add", "sub", "mul", "div", "rem", "pow"):
        return D.fbin(op, kids[0], kids[1])
    if op == "neg":
        return D.fneg(kids[0])
    if op == "abs":
        return D.fabs(kids[0])
    if op == "powi":
        return D.powi(kids[0], kids[1])
    if op in ("exp", "log", "sqrt", "sinh", "cosh", "tanh", "floor", "ceil", "exp2", "log2", "log10", "cbrt", "expm1", "log1p"):
        return D.ffun(op, kids[0])
    return D.mk(op, kids, x.k)


def substitute(D, v, fn, bmemo=None, memo=None):
    """replace symbols: fn(sym node) -> node or None; conditions are rebuilt as well"""
    bdd = D.bdd
    memo = {} if memo is None else memo
    bmemo = {} if bmemo is None else bmemo

    def atomfn(var):
        r = bmemo.get(var)
        if r is None:
            n = D.atoms[var]
            kids = tuple(go(y) if type(y) is Node else y for y in n.a)
            if n.op in ("flt", "fle", "feq"):
                r = D.fcmp(n.op[1:], kids[0], kids[1])
            elif n.op in ("ieq", "ilt"):
                r = D.icmp(n.op[1:], kids[0], kids[1])
            elif n.op == "sym":
                s = fn(n)
                r = D.bdd.atom(D.atomidx[n]) if s is None else (s.r if type(s) is Bd else D.atom(s))
            else:
                r = D.atom(D.mk(n.op, kids, n.k))
            bmemo[var] = r
        return r

    def gob(c):
        return bdd.subst(c, atomfn)

    def go(x):
        t = type(x)
        if t is not Node:
            if t is tuple:
                return tuple(go(y) for y in x)
            if t is Bd:
                return D.bd(gob(x.r))
            if t is Enum:
                return Enum(go(x.d), {k: tuple(go(y) for y in v) for k, v in x.p.items()})
            if t is IteV:
                return D.merge(gob(x.c), go(x.x), go(x.y))
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "c":
            r = x
        elif x.op == "sym":
            r = fn(x)
            if r is None:
                r = x
        elif x.op == "ite":
            r = D.ite(gob(x.a[0]), go(x.a[1]), go(x.a[2]))
        else:
            kids = tuple(go(y) if type(y) is Node else y for y in x.a)
            r = x if kids == x.a else rebuild(D, x, kids)
        memo[x] = r
        return r

    return go, gob
