"""check.py PROPERTY: decide one property (VERIF_TIER, VERIF_SEED from the environment)."""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, props


def known_findings(prop):
    r = []
    p = os.path.join(engine.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                r.append(line.strip())
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    e = engine.Engine(prop, tier, seed)
    try:
        spec = props.PROPS[prop]
        e.known = known_findings(prop)
        spec["run"](e)
        for line in sorted(set(e.kf)):
            print(line)
        rc = e.finish(spec["assumptions"], {"rule": spec["rule"]})
    except engine.Broken as x:
        print("ERROR of the check:", x)
        # what was found before stands
        rc = 1 if e.violations else 2
    except Exception:
        traceback.print_exc()
        rc = 1 if e.violations else 2
    sys.stdout.flush()
    return rc


sys.exit(main())
