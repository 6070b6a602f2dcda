#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] | --replay FILE

Exit 0: held on everything explored; 1: violated; 2: the check itself failed."""
import argparse
import json
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import engine
import plans

if os.environ.get("PYTHONHASHSEED") != "0":
    # the same inputs for the same seed, whatever sets and dictionaries hold
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))

ROOT = engine.ROOT
REPLAYS = os.path.join(engine.WORK, "replay")


def known_findings(prop):
    """identifiers of findings listed for a property"""
    out = []
    with open(os.path.join(ROOT, "KNOWN_FINDINGS.md"), encoding="utf-8") as f:
        for l in f:
            if l.startswith("known: property=%s " % prop):
                out.append(l[len("known: property=%s " % prop):].strip())
    return out


def deep(listed):
    """listed findings which still show; each in a process of its own"""
    for l in listed:
        _, kind, n = l.split(":")[0].split(" ")
        o = engine.run_harness([{"op": "deep", "kind": kind, "n": int(n)}], timeout=100, stack=8, jobs=1)[0]
        if "panic" in o:
            print("KNOWN-FINDING: property=C17 " + l)


def write_replay(prop, n, req, faults):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-%d.json" % (prop, n))
    with open(p, "w", encoding="utf-8") as f:
        json.dump({"property": prop, "faults": sorted(faults), "request": req}, f, indent=1, ensure_ascii=False)
    return p


def judge(prop, reqs):
    obs = engine.run_harness(reqs)
    bad, generated, distinct = engine.conform(prop, reqs, obs)
    wrong = [i for i, fs in bad.items() if any(f.startswith("harness:") for f in fs)]
    if wrong:
        i = wrong[0]
        raise engine.ToolError("generator and specification disagree: %s\n%s" % (bad[i], json.dumps(reqs[i], ensure_ascii=False)[:3000]))
    return obs, bad, generated, distinct


def shown(req, limit=1500):
    return json.loads(json.dumps(req, ensure_ascii=False)) if len(json.dumps(req)) < limit else json.dumps(req, ensure_ascii=False)[:limit]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    engine.build()
    if a.replay:
        with open(a.replay, encoding="utf-8") as f:
            d = json.load(f)
        obs, bad, _, _ = judge(d["property"], [d["request"]])
        print(json.dumps(obs[0], ensure_ascii=False, indent=1)[:6000])
        print("faults:", sorted(bad.get(0, [])))
        return 1 if bad else 0
    if a.prop not in plans.PLANS:
        raise engine.ToolError("no such property: %s" % a.prop)
    t0 = time.time()
    c = plans.Ctx(a.prop, a.tier, a.seed)
    plans.PLANS[a.prop](c)
    t1 = time.time()
    obs, bad, generated, distinct = judge(a.prop, c.reqs)
    t2 = time.time()
    engine.log("%s: models and inputs %.1f s, %d requests replayed in %.1f s" % (a.prop, t1 - t0, len(c.reqs), t2 - t1))
    reports = []
    for i in sorted(bad):
        reports.append((c.reqs[i], bad[i], c.origin[i]))
    if a.prop == "C17":
        deep(known_findings("C17"))
    by = {}
    for o in c.origin:
        by[o] = by.get(o, 0) + 1
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "model_checking",
        "coverage": {
            "states": c.states + distinct, "transitions": c.transitions + generated,
            "traces_validated_against_impl": len(c.reqs),
            "models": c.models, "replay_states": distinct, "inputs_by_origin": by, "texts_screened": c.screened,
            "samples": [shown(c.reqs[i]) for i in c.r.sample(range(len(c.reqs)), min(3, len(c.reqs)))],
        },
        "assumptions": ["TLC and the specification modules in /verif/spec", "the harness reports what it observes through the public interface"],
        "wall_s": round(time.time() - t0, 2), "violations": len(reports),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for n, (req, faults, origin) in enumerate(reports[:5]):
        p = write_replay(a.prop, n, req, faults)
        engine.log("%s: %s" % (origin, "; ".join(sorted(faults))))
        print("VIOLATION property=%s replay=%s" % (a.prop, p))
    print("%s: %s (%d models, %d states; %d traces replayed) in %.1f s" % (
        a.prop, "held" if not reports else "%d violations" % len(reports), len(c.models), c.states + distinct, len(c.reqs), time.time() - t0))
    return 1 if reports else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except engine.ToolError as e:
        engine.log("check failed: %s" % e)
        sys.exit(2)
