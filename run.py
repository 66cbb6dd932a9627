#!/usr/bin/env python3
"""python3 run.py <property id> [--tier quick|thorough]   exit 0: property held on everything decided, 1: violation"""
import sys, os, json, time, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from sa import front, registry
    from sa.check import Ctx
    import sa.checks.all
    try:
        mods, units, missing, key = front.load(None)
    except front.FrontError as e:
        print("cannot analyse: %s" % e); return 2
    if a.setup: print("front end: %d modules parsed" % len(mods)); return 0
    registry.add_specs(mods)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(mods, a.tier, seed)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = {}
    def work():
        import traceback
        for fn in registry.CHECKS[a.prop]:
            try: fn(ctx)
            except Exception as e:
                ctx.und("analysis of %s" % fn.__name__, "-", "internal: " + traceback.format_exc()[-1500:])
    th = threading.Thread(target=work); th.start(); th.join()
    known = json.load(open(os.path.join(HERE, "known-findings.json"))) if os.path.exists(os.path.join(HERE, "known-findings.json")) else {"findings": []}
    kf = [k for k in known["findings"] if k["property"] == a.prop and k.get("status") == "known"]
    viol = []; hit = set()
    for o in ctx.obs:
        if o.status != "refuted": continue
        for n, k in enumerate(kf):
            if o.rule == k["rule"] and k["where"] in o.where and (not k.get("instance") or k["instance"] in (o.instance or "") + (o.detail or "")):
                hit.add(n); break
        else: viol.append(o)
    nd = sum(o.status == "proved" for o in ctx.obs); nu = sum(o.status == "undecided" for o in ctx.obs); nr = sum(o.status == "refuted" for o in ctx.obs)
    meta = registry.META.get(a.prop, {})
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other",
          "coverage": {"explanation": "static analysis: abstract interpretation of the sources; obligations decided in normal form over all inputs",
                       "obligations": len(ctx.obs), "proved": nd, "refuted": nr, "undecided": nu,
                       "functions_analysed": sorted("%s.%s" % f for f in ctx.functions if not f[0].startswith("spec_")), "abstract_paths": ctx.paths, "loops_summarised": ctx.loops,
                       "source_files": sorted(units.values()), "source_digest": key,
                       "details": [o.as_dict() for o in ctx.obs][:400]},
          "wall_s": round(time.time() - t0, 2), "assumptions": meta.get("assumptions", []),
          "violations": [o.as_dict() for o in viol]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evp = os.path.join(HERE, "evidence", a.prop + ".json")
    json.dump(ev, open(evp, "w"), indent=1, default=str)
    for n in sorted(hit): print("KNOWN-FINDING: property=%s %s" % (a.prop, kf[n]["what"]))
    print("%s: %d obligations, %d proved, %d refuted, %d undecided; %d functions, %d paths, %.1fs" % (a.prop, len(ctx.obs), nd, nr, nu, len(ev["coverage"]["functions_analysed"]), ctx.paths, ev["wall_s"]))
    for o in ctx.obs:
        if o.status == "undecided" or a.v: print("  [%s] %s @ %s %s" % (o.status, o.rule, o.where, o.detail[:2000 if a.v else 300]))
    for o in viol:
        print("  refuted: %s\n    at %s\n    %s\n    instance: %s" % (o.rule, o.where, o.detail, o.instance))
        print("VIOLATION property=%s replay=%s" % (a.prop, evp))
    return 1 if viol else 0

if __name__ == "__main__":
    sys.exit(main())
