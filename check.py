#!/usr/bin/env python3
"""check.py PROPERTY: decide one property for the current tree of /repo."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
import props

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = props.PROPS[pid]
    viol, known, cov = p["run"](tier)
    cov["explanation"] = p["explanation"]
    os.makedirs(os.path.join(common.VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": cov, "assumptions": p["assumptions"],
          "violations": len(viol), "wall_s": round(time.time() - t0, 2)}
    path = os.path.join(common.VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(path + ".tmp", path)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if not viol:
        print("%s: holds on everything analysed (%.1fs)" %
              (pid, time.time() - t0))
        return 0
    rp = os.path.join(common.VERIF, "evidence", pid + ".violations.json")
    with open(rp, "w") as f:
        json.dump(viol, f, indent=1)
    for v in viol[:25]:
        print("%s: %s: %s: %s" % (v["location"], v.get("function", ""),
                                  v["rule"], v["what"]))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1

if __name__ == "__main__":
    try:
        rc = main()
    except common.Broken as e:
        print("analysis broken: %s" % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
