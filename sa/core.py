"""Shared machinery: extraction of the MIR facts, model descriptions, reporting."""
import hashlib, json, math, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from dom import *
from interp import Program, Interp, State, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AGA8_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class Undecided(Exception):
    """the analysis cannot decide (missing anchor, construct outside its reach)"""


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()


def build_driver(force=False):
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(BUILD, "mirdrv")
    os.makedirs(BUILD, exist_ok=True)
    stamp = out + ".sha"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if not force and os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        t = os.path.join(tmp, "mirdrv")
        r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", t], capture_output=True, text=True, cwd=tmp)
        if r.returncode != 0:
            raise Undecided("extraction driver does not build:\n" + r.stderr[-3000:])
        os.replace(t, out)
        open(stamp, "w").write(h)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


# the build configuration analysed; others are analysed too where their code differs (check.py)
DEFAULT = (("extern",), True)
CONFIG = DEFAULT
OTHERS = ((("extern",), False), ((), True), ((), False))


def extract():
    return Program(raw(CONFIG))


def other_configs():
    """build configurations (crate feature off, debug assertions off) whose code differs from the default one's"""
    def differs(c):
        try:
            d = json.loads(raw(c))
        except Undecided:
            return False  # a configuration that does not compile has no behaviour
        names = [f["name"] for f in d["fns"]] + [s[0] for s in d["statics"]]
        return raw(c, names) != raw(DEFAULT, names)

    build_driver()
    with ThreadPoolExecutor(3) as ex:
        return [c for c, d in zip(OTHERS, ex.map(differs, OTHERS)) if d]


def raw(config, only=None):
    """compile /repo's current lib with the driver"""
    features, dbg = config
    drv = build_driver()
    tmp = tempfile.mkdtemp(prefix="mir", dir=BUILD)
    try:
        js = os.path.join(tmp, "mir.json")
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        env["AGA8_MIR_OUT"] = js
        edition = "2021"
        root = os.path.join(REPO, "src", "lib.rs")
        try:
            toml = open(os.path.join(REPO, "Cargo.toml")).read()
            m = re.search(r'^edition\s*=\s*"(\d+)"', toml, re.M)
            if m:
                edition = m.group(1)
            m = re.search(r'^\[lib\][^\[]*?^path\s*=\s*"([^"]+)"', toml, re.M | re.S)
            if m:
                root = os.path.join(REPO, m.group(1))
        except OSError:
            pass
        cmd = [drv, "--crate-name", "aga8", "--crate-type", "lib", "--edition", edition]
        for f in features:
            cmd += ["--cfg", 'feature="%s"' % f]
        if only is not None:
            env["AGA8_ONLY"] = os.path.join(tmp, "only")
            open(env["AGA8_ONLY"], "w").write("\n".join(only))
        cmd += ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Cdebug-assertions=" + ("on" if dbg else "off"), "-Coverflow-checks=on", "-Zub-checks=no", "--cap-lints", "allow", "--out-dir", tmp, root]
        env["CARGO_MANIFEST_DIR"] = REPO
        env["CARGO_PKG_VERSION"] = "0"
        env["CARGO_PKG_NAME"] = "aga8"
        r = subprocess.run(cmd, capture_output=True, text=True, env=env, cwd=REPO)
        if r.returncode != 0 or not os.path.exists(js):
            raise Undecided("the crate does not compile under the extraction driver:\n" + r.stderr[-3000:])
        text = open(js).read()
        if only is not None:
            return re.sub(r'"mangled":"[^"]*",|\bid: \d+', "", text)
        return text
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


COMPONENTS = ["methane", "nitrogen", "carbon_dioxide", "ethane", "propane", "isobutane", "n_butane", "isopentane",
              "n_pentane", "hexane", "heptane", "octane", "nonane", "decane", "hydrogen", "oxygen",
              "carbon_monoxide", "water", "hydrogen_sulfide", "helium", "argon"]


class Model:
    """how the public interface presents one equation of state"""

    def __init__(self, prog, name):
        self.P = prog
        self.name = name
        self.path = {"Detail": "aga8::detail::Detail", "Gerg2008": "aga8::gerg2008::Gerg2008"}[name]
        self.off = 0 if name == "Detail" else 1  # slot of the first component in the public array x
        self.R = 8.31451 if name == "Detail" else 8.314472
        self.ty = None
        new = self.fn("new")
        self.ty = new["body"]["locals"][0]
        T = prog.types[self.ty]
        if T["k"] != "adt" or T["kind"] != "Struct":
            raise Undecided("%s is not a struct" % self.path)
        self.fields = {f[0]: i for i, f in enumerate(T["variants"][0]["fields"])}
        self.ftypes = {f[0]: f[1] for f in T["variants"][0]["fields"]}
        self.nx = prog.types[self.ftypes["x"]]["len"]

    def fn(self, meth):
        return find(self.P, "%s::%s" % (self.path, meth))

    def has(self, meth):
        return any(f["name"] == "%s::%s" % (self.path, meth) for f in self.P.fns)

    def public(self):
        """the field names reachable from outside the crate"""
        T = self.P.types[self.ty]
        return [f[0] for f in T["variants"][0]["fields"] if f[2]]


def find(P, name):
    for f in P.fns:
        if f["name"] == name and f["inst"] is not None:
            i = P.insts[f["inst"]]
            if i["body"] is not None:
                return i
    raise Undecided("public function %s not found" % name)


class Machine:
    """one abstract-interpretation session over a model"""

    def __init__(self, prog, model=None, dom=None):
        self.P = prog
        self.I = Interp(prog, dom)
        self.D = self.I.D
        self.bdd = self.D.bdd
        self.m = model

    def new_state(self):
        """post-state of the public constructor: (value, events)"""
        st = State(1, {})
        v = self.I.run(self.m.fn("new"), [], st)
        return v

    def setf(self, v, **kw):
        l = list(v)
        for k, x in kw.items():
            l[self.m.fields[k]] = x
        return tuple(l)

    def getf(self, v, name):
        return v[self.m.fields[name]]

    def xsyms(self, prefix="x"):
        return [prefix + "_" + c for c in COMPONENTS]

    def xval(self, prefix="x", zero=()):
        """symbolic public composition array"""
        off = self.m.off
        out = [self.D.const(0.0)] * self.m.nx
        for i, c in enumerate(COMPONENTS):
            out[off + i] = self.D.const(0.0) if c in zero else self.D.sym(prefix + "_" + c)
        return tuple(out)

    def call(self, meth, selfval, extra=(), cond=1):
        """run a method on a model value; returns (ret, post value, exit condition)"""
        inst = self.m.fn(meth)
        k = self.I.newkey(self.m.ty)
        st = State(cond, {k: selfval})
        args = [Ptr(k, (), None)] + list(extra)
        rv = self.I.run(inst, args, st)
        return rv, st.mem.get(k), st.cond


def facts(bounds):
    """truth oracle: bounds = {symbol: (lo, lo_open, hi)}: real-valued facts about symbols"""

    def rng(n):
        if n.op == "c":
            return (n.a, False, n.a, False)
        if n.op == "sym":
            return bounds.get(n.a[0])
        if n.op == "abs":
            r = rng(n.a[0])
            if r and r[0] >= 0:
                return r
            return (0.0, False, math.inf, False)
        if n.op == "neg":
            r = rng(n.a[0])
            if r:
                return (-r[2], r[3], -r[0], r[1])
        return None

    def truth(node):
        if node.op not in ("flt", "fle", "feq"):
            return None
        a, b = node.a
        ra, rb = rng(a), rng(b)
        if ra is None or rb is None:
            return None
        al, alo, ah, aho = ra
        bl, blo, bh, bho = rb
        if node.op == "flt":
            if ah < bl or (ah == bl and (aho or blo)):
                return True
            if al >= bh:
                return False
        elif node.op == "fle":
            if ah <= bl:
                return True
            if al > bh or (al == bh and (alo or bho)):
                return False
        else:
            if ah < bl or bh < al or (ah == bl and (aho or blo)) or (bh == al and (bho or alo)):
                return False
            if al == ah == bl == bh:
                return True
        return None

    return truth


def presence(names):
    """indicator -> (symbol, polarity) for tests of one fraction against zero or a negligible threshold"""
    names = set(names)

    def pres(node):
        if node.op not in ("flt", "fle", "feq"):
            return None
        a, b = node.a
        if b.op == "sym" and b.a[0] in names and a.op == "c" and 0 <= a.a <= 1e-12:
            if node.op == "flt" or (node.op == "fle" and a.a > 0):
                return (b.a[0], True)
            if node.op == "feq" and a.a == 0:
                return (b.a[0], False)
        if a.op == "sym" and a.a[0] in names and b.op == "c" and 0 <= b.a <= 1e-12:
            if node.op == "fle" or (node.op == "flt" and b.a > 0):
                return (a.a[0], False)
            if node.op == "feq" and b.a == 0:
                return (a.a[0], False)
        return None

    return pres


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []
        self.cover = {}
        self.assumptions = []
        self.samples = []
        self.obl = 0
        self.done = 0
        self.undecided = []

    def ob(self, ok, what, where="", detail=""):
        """one proof obligation"""
        self.obl += 1
        if ok:
            self.done += 1
            if len(self.samples) < 12:
                self.samples.append(what)
        else:
            self.violations.append({"rule": what, "where": where, "detail": detail})
        return ok

    def undec(self, what):
        self.obl += 1
        self.undecided.append(what)
