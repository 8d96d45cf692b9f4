#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] | --replay <file>

Decides one property of properties.jsonl on /repo's working tree.
Exit 0: it held on everything explored. 1: violated (VIOLATION line). 2: the check itself failed.
"""
import json, os, shutil, sys, time, tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mbv import runner, props  # noqa: E402


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return props.replay(args[1])
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    t0 = time.time()
    base = os.path.join(runner.WORK, "%s-%s-%d" % (prop, tier, os.getpid()))
    replays = os.path.join(runner.WORK, "replays", prop)
    shutil.rmtree(replays, ignore_errors=True)
    os.makedirs(base, exist_ok=True)
    try:
        res = props.decide(prop, tier, seed, base, replays)
    except runner.ToolError as e:
        print("CHECK ERROR property=%s\n%s" % (prop, e))
        return 2
    finally:
        if "--keep" not in args:
            shutil.rmtree(base, ignore_errors=True)
    wall = time.time() - t0
    viol = [(w, r) for s in res for w, r in zip(s["violations"], s["replays"])]
    write_evidence(prop, tier, seed, res, wall, len(viol))
    for s in res:
        print("%s: %s %s states=%d transitions=%d behaviours=%d steps=%d comparisons=%d other=%s %.1fs%s" % (
            s["stage"], s["module"], s["mode"], s["states"], s["transitions"], s.get("behaviours", 0), s.get("steps", 0), s.get("comparisons", 0),
            s.get("other", {}), s["wall_s"], " (time limit)" if s["timed_out"] else ""))
        for o in s.get("other_samples", [])[:1]:
            print("  not about %s: %s %s" % (prop, o["props"], o["what"][:2000]))
    known = props.known(prop)
    new = []
    for w, r in viol:
        text = "; ".join(w["what"])[:600] if isinstance(w["what"], list) else str(w["what"])
        hit = [k for k in known if k in text]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
        else:
            new.append((text, r))
    seen = {k[7:] for st in res for k in (st.get("counts") or {}) if k.startswith("known: ")}
    for k in sorted(seen):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for text, r in new[:5]:
        print("  " + text)
        print("VIOLATION property=%s replay=%s" % (prop, r))
    print("property=%s tier=%s seed=%d wall=%.1fs %s" % (prop, tier, seed, wall, "violated" if new else "held on everything explored"))
    return 1 if new else 0


def write_evidence(prop, tier, seed, res, wall, nviol):
    cov = {
        "states": sum(s["states"] for s in res),
        "transitions": sum(s["transitions"] for s in res),
        "traces_validated_against_impl": sum(s.get("behaviours", 0) for s in res),
        "samples": [x for s in res for x in s.get("samples", [])][:3],
        "exhaustive": bool(res) and all(s["mode"] == "exhaustive" and not s["timed_out"] for s in res),
        "steps_executed": sum(s.get("steps", 0) for s in res),
        "comparisons": sum(s.get("comparisons", 0) for s in res),
        "behaviours_cut_short": sum(s.get("inconclusive", 0) for s in res),
        "stages": [{k: s.get(k) for k in ("stage", "module", "mode", "states", "transitions", "behaviours", "steps", "comparisons", "counts", "wall_s",
                                           "timed_out", "other", "extra") if s.get(k) is not None} for s in res],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": props.level(prop), "coverage": cov, "assumptions": props.assumptions(prop),
          "wall_s": round(wall, 2), "violations": nviol}
    d = os.path.join(runner.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
