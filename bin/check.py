#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import json, os, sys, time, random, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import core, checks, timed, writer


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    res = core.Result()
    res.tier = tier
    try:
        checks.CHECKS[prop](res, tier, seed)
    except core.Infra as e:
        print("ERROR property=%s %s" % (prop, e))
        core.cleanup()
        return 2
    except Exception:
        traceback.print_exc()
        core.cleanup()
        return 2
    core.cleanup()
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": dict({"states": res.states, "transitions": res.transitions,
                            "traces_validated_against_impl": res.traces,
                            "samples": res.samples or ["(no sample)"],
                            "events_validated": res.events, "events_by_kind": res.kinds,
                            "models": res.models}, **res.extra),
          "wall_s": round(time.time() - t0, 1),
          "violations": 0 if res.violation is None else 1,
          "assumptions": checks.ASSUMPTIONS.get(prop, [])}
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d models, %d states; %d histories, %d events of the implementation explained; %.0f s"
          % (prop, tier, len(res.models), res.states, res.traces, res.events, time.time() - t0))
    if res.violation is not None:
        p = core.save_replay(prop, res.violation)
        name, script, events, n = res.violation
        bad = events[n] if n < len(events) else None
        print("rejected in %s: %s" % (name, json.dumps(bad)[:1000]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
