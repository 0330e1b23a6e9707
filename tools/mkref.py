"""Freeze the published coefficient tables (run once, on the pinned base commit of royvegard/aga8):
   git -C /repo show <base>:src/{detail,gerg2008}.rs | tools/mkref.py
The checks read only the frozen files in /verif/ref, never this script's input."""
import json, re, subprocess, sys
BASE = sys.argv[1] if len(sys.argv) > 1 else "b82f0cd"
COMP = ["methane", "nitrogen", "carbon_dioxide", "ethane", "propane", "isobutane", "n_butane", "isopentane",
        "n_pentane", "hexane", "heptane", "octane", "nonane", "decane", "hydrogen", "oxygen",
        "carbon_monoxide", "water", "hydrogen_sulfide", "helium", "argon"]


def src(f):
    s = subprocess.run(["git", "-C", "/repo", "show", "%s:src/%s" % (BASE, f)], capture_output=True, text=True, check=True).stdout
    return re.sub(r"//[^\n]*", "", s)


def consts(s):
    out = {}
    for m in re.finditer(r"const (\w+): ([^=]+?) = (\[.*?\]|[^\[;]+);", s, re.S):
        body = m.group(3)
        body = re.sub(r"(?<=\d)_(?=\d)|(?<=\d)_(?=[,\s\]])", "", body)
        body = re.sub(r"(\d)\.(?=[\s,\]])", r"\1.0", body)
        if body.strip()[0] not in "[-0123456789":
            continue
        try:
            out[m.group(1)] = eval(body)
        except Exception as e:
            print("skip", m.group(1), e, file=sys.stderr)
    return out


def assigns(s):
    out = []
    for m in re.finditer(r"self\.(\w+)((?:\[\d+\])+) = (-?[\d_.eE+-]+);", s):
        idx = [int(x) for x in re.findall(r"\d+", m.group(2))]
        out.append((m.group(1), idx, float(m.group(3).replace("_", ""))))
    return out


if __name__ == "__main__":
    s = src("detail.rs")
    k = consts(s)
    a = {}
    for n, i, v in assigns(s[s.index("fn setup"):]):
        a.setdefault(n, {})[",".join(map(str, i))] = v
    print("detail consts", {x: (len(y) if isinstance(y, list) else y) for x, y in k.items()}, {x: len(y) for x, y in a.items()})
    d = {"mm": dict(zip(COMP, k["MMI"])), "consts": k, "assign": a, "components": COMP}
    json.dump(d, open("/verif/ref/detail.json", "w"), indent=0)
    s = src("gerg2008.rs")
    k = consts(s)
    a = {}
    for n, i, v in assigns(s[s.index("fn setup"):]):
        a.setdefault(n, {})[",".join(map(str, i))] = v
    print("gerg consts", {x: (len(y) if isinstance(y, list) else y) for x, y in k.items()}, {x: len(y) for x, y in a.items()})
    # exponents of the two generalised forms are assigned in loops over the components
    short, full = {}, {}
    body = s[s.index("fn setup"):]
    lo = body.index("for i in 1..=MAXFLDS"); hi = body.index("for i in 1..=4")
    end = body.index("self.coik[3][1]")
    for part, dst in ((body[lo:hi], short), (body[hi:end], full)):
        for m in re.finditer(r"self\.(coik|doik|toik)\[i\]\[(\d+)\] = (-?[\d_.eE+-]+);", part):
            dst.setdefault(m.group(1), {})[m.group(2)] = float(m.group(3).replace("_", ""))
    for m in re.finditer(r"\bbijk\[(\d+)\]\[(\d+)\] = (-?[\d_.eE+-]+);", body):
        a.setdefault("bijk", {})["%s,%s" % (m.group(1), m.group(2))] = float(m.group(3).replace("_", ""))
    print({x: len(y) for x, y in short.items()}, {x: len(y) for x, y in full.items()}, len(a["bijk"]))
    a["short"], a["full"] = short, full
    d = {"mm": dict(zip(COMP, k["MMI_GERG"][1:])), "consts": k, "assign": a, "components": COMP}
    json.dump(d, open("/verif/ref/gerg.json", "w"), indent=0)
