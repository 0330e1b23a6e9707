#!/usr/bin/env python3
"""check.py <property id> : decides one property from /repo's current source (static analysis of its MIR)."""
import faulthandler, json, os, sys, threading, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import core, cas, interp
from core import VERIF, Report, Undecided

TECH = {}
ASSUME = {
    "all": ["rustc's MIR (mir-opt-level 0, overflow and debug assertions on) is the meaning of the source",
            "the analyser's transfer functions for MIR, core intrinsics and libm calls are right"],
    "real": ["identities are decided over the real numbers; coefficients are compared to 1e-9 relative to the terms they are built from"],
}


def registry():
    import checks_comp, checks_ffi, checks_safe, checks_hist, checks_root, checks_thermo, checks_eqn, checks_newton, checks_domain, checks_finite
    r = {}
    for m in (checks_comp, checks_ffi, checks_safe, checks_hist, checks_root, checks_thermo, checks_eqn, checks_newton, checks_domain, checks_finite):
        r.update(m.CHECKS)
    return r


def known(pid):
    out = set()
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            if l.startswith("finding: property=%s " % pid):
                out.add(l.split("key=", 1)[1].strip())
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rep = Report(pid)
    err = []
    confs = []

    def go():
        try:
            registry()[pid](rep, tier)
            # the same check on every other build configuration whose code differs
            for c in core.other_configs():
                if pid[0] != "F" or "extern" in c[0]:
                    core.CONFIG = c
                    seen, und = len(rep.violations), len(rep.undecided)
                    registry()[pid](rep, tier)
                    name = " [built with features %s, debug assertions %s]" % (list(c[0]), "on" if c[1] else "off")
                    for v in rep.violations[seen:]:
                        v["where"] = str(v["where"]) + name
                    rep.undecided[und:] = [str(u) + name for u in rep.undecided[und:]]
                    confs.append(name.strip())
        except (Undecided, interp.Unsupported, cas.TooBig, cas.Undiff) as e:
            err.append("%s: %s" % (type(e).__name__, e))
            if os.environ.get("AGA8_TRACE"):
                traceback.print_exc()
        except RecursionError as e:
            err.append("recursion: %s" % e)
        except BaseException as e:
            err.append("internal error: " + traceback.format_exc())

    threading.stack_size(1024 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    wall = time.time() - t0
    kf = known(pid)
    viol = []
    for v in rep.violations:
        key = v["rule"]
        if key in kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, key))
        else:
            viol.append(v)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    level = "other" if pid[0] in "TE" else "proof"
    cov = {"obligations": rep.obl, "discharged": rep.done, "checker_cmd": "/verif/check.sh " + pid,
           "trusted_base": ASSUME["all"] + (ASSUME["real"] if pid[0] in "CTEHR" else []),
           "samples": rep.samples, "rule": rep.__dict__.get("rule", ""),
           "explanation": "every obligation is a fact about the gated value graph computed by abstract interpretation of the current source's MIR; "
                          "an obligation that does not hold is reported with the function and the construct"}
    cov.update(rep.cover)
    cov["configurations"] = ["features ['extern'], debug assertions on; every other combination of the feature and debug assertions has "
                             "the same code" + (" but" if confs else "")] + confs
    if rep.undecided or err:
        cov["undecided"] = rep.undecided + err
    json.dump({"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
               "assumptions": sorted(set(rep.assumptions)), "wall_s": round(wall, 3), "violations": len(viol)},
              open(os.path.join(ev, pid + ".json"), "w"), indent=1, default=str)
    if viol:
        rp = os.path.join(ev, pid + ".violation.json")
        json.dump({"property": pid, "repo": core.REPO, "violations": viol[:50]}, open(rp, "w"), indent=1, default=str)
        for v in viol[:10]:
            print("  %s\n    at %s\n    %s" % (v["rule"], v["where"], str(v["detail"])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.stdout.flush()
        os._exit(1)
    if rep.undecided or err or rep.obl == 0:
        print("UNDECIDED property=%s %s" % (pid, "; ".join(rep.undecided + err) or "no obligation was generated"))
        sys.stdout.flush()
        os._exit(2)
    print("OK property=%s obligations=%d discharged=%d wall=%.1fs" % (pid, rep.obl, rep.done, wall))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
