#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decide one property on /repo's current source."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.isfile(p):
        with open(p) as fh:
            for e in json.load(fh)["findings"]:
                if e["property"] == prop:
                    out.append(e)
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    verbose = "-v" in argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    ev_path = os.path.join(ev_dir, prop + ".json")
    vio_path = os.path.join(ev_dir, prop + ".violation.json")
    for p in (ev_path, vio_path):
        if os.path.exists(p):
            os.unlink(p)
    from sa.interp import AnchorMissing, Undecided
    from sa.kit import Kit
    mod = importlib.import_module("sa.props." + prop.lower())
    try:
        known = load_known(prop)
        k = Kit(prop, tier)
        k.known = {e["scenario"] for e in known}
        mod.run(k)
    except AnchorMissing as e:
        print("ANALYSIS-BROKEN property=%s: %s is missing from the source" % (prop, e))
        return 2
    except Undecided as e:
        print("ANALYSIS-BROKEN property=%s: %s (%s)" % (prop, e.why, e.loc))
        return 2
    except RecursionError:
        print("ANALYSIS-BROKEN property=%s: recursion limit" % prop)
        return 2
    used = set()
    bad = []
    for st in k.results:
        for v in st["violations"]:
            hit = None
            for i, e in enumerate(known):
                if e["scenario"] == st["label"] and e["what"] in v["what"]:
                    hit = i
            if hit is not None:
                used.add(hit)
            else:
                bad.append((st["label"], v))
    decided = [s for s in k.results if not s["undecided"] and not s["violations"] and s["proved"]]
    und = [s for s in k.results if s["undecided"]]
    vac = [s for s in k.results if not s["paths"]]
    judged = sum(s["judged"] for s in k.results)
    fn = set()
    consulted = set()
    steps = 0
    for I in k.interps.values():
        fn |= I.functions_seen
        consulted |= I.consulted
    cov = {
        "explanation": mod.METHOD if hasattr(mod, "METHOD") else (mod.__doc__ or "").strip(),
        "rule": getattr(mod, "RULE", ""),
        "scenarios": len(k.results),
        "scenarios_proved": len(decided),
        "scenarios_undecided": [{"label": s["label"], "why": s["undecided"]} for s in und],
        "obligations": judged,
        "partitions_analysed": sum(s["paths"] for s in k.results),
        "functions_analysed": len(fn),
        "functions": sorted("%s:%s %s" % (a, c, b) for a, b, c in fn)[:400],
        "entry_points": sorted(k.entries)[:200],
        "modules_parsed": len(consulted),
        "sites": getattr(k, "sites", []),
        "samples": [s["label"] for s in k.results][:400],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMES", []), "wall_s": round(time.time() - t0, 3),
          "violations": len(bad)}
    with open(ev_path, "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for i in sorted(used):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[i]["text"]))
    print("%s: %d scenarios, %d proved, %d undecided, %d partitions, %d obligations, %d functions, %.1fs" % (
        prop, len(k.results), len(decided), len(und), cov["partitions_analysed"], judged, len(fn), time.time() - t0))
    if verbose:
        for s in und:
            print("  UNDECIDED %s: %s" % (s["label"], s["undecided"]))
        for s in sorted(k.results, key=lambda s: -s.get("s", 0))[:5]:
            if s.get("s", 0) > 3:
                print("  slow %s: %.1fs, %d partitions" % (s["label"], s["s"], s["paths"]))
        for s in vac:
            print("  VACUOUS %s" % s["label"])
    if bad:
        with open(vio_path, "w") as fh:
            json.dump([{"scenario": l, "violation": v["what"], "construct": v["at"], "assumed": [
                "%s is %s [%s]" % f for f in v["facts"]]} for l, v in bad], fh, indent=1, default=str)
        shown = set()
        for l, v in bad:
            if l in shown and not verbose:
                continue
            shown.add(l)
            if len(shown) > 12 and not verbose:
                break
            print("  [%s] %s\n      at %s" % (l, v["what"], v["at"]))
            for f in v["facts"][:8]:
                print("      when %s is %s   (%s)" % f)
        print("VIOLATION property=%s replay=%s" % (prop, vio_path))
        return 1
    floor = getattr(mod, "MIN_SCENARIOS", 1)
    if len(k.results) < floor or vac and len(vac) * 2 > len(k.results):
        print("ANALYSIS-BROKEN property=%s: only %d scenarios (%d vacuous), expected at least %d" % (
            prop, len(k.results), len(vac), floor))
        return 2
    if len(decided) * 2 < len(k.results):
        print("ANALYSIS-BROKEN property=%s: most scenarios undecided" % prop)
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
