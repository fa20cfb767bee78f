#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]   decides a property for the code in /repo
   check.py --replay FILE                               runs a recorded violation again

Exit 0: the property held on everything explored. Exit 1: violation, with a line
VIOLATION property=<id> replay=<path>. Exit 2: the check itself could not be carried out."""
import argparse, json, os, shutil, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import vlib as v
from plans import PLANS, DRIVERS, FINDINGS


def confirm(step, script, n, work):
    """How often the script is rejected when it is run again on its own."""
    drv = DRIVERS[step["spec"]]
    traces, err = v.drive(drv["mode"], [dict(script) for _ in range(n)], work, threads=2 if n < 4 else 4, tag="re")
    if traces is None:
        return n, None, err
    rej, _, _ = v.validate(drv["trace"], traces, work, extra=drv.get("env"))
    first = min(rej) if rej else None
    return len(rej), traces[first] if rej else None, rej.get(first)


def replay_file(prop, step, script, trace, where):
    d = os.path.join(v.BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, f"{prop}-{step['spec']}-{step['profile']}-{script['id']}.json")
    with open(f, "w") as h:
        json.dump({"property": prop, "spec": step["spec"], "rejected_at": where, "script": script, "trace": trace}, h, indent=1)
    return f


def run_traces(prop, step, seed, work, stats):
    """Generates scripts, runs them, validates what was recorded. Returns the replay files of violations."""
    drv = DRIVERS[step["spec"]]
    envs = {"PROFILE": step["profile"], "DEPTH": str(step.get("depth", 14))}
    t = time.time()
    scripts = v.gen(drv["gen"], envs, step["num"], seed, work)
    tg = time.time() - t
    t = time.time()
    traces, err = v.drive(drv["mode"], scripts, work, tag=step["profile"], threads=step.get("threads", v.CPUS))
    td = time.time() - t
    found = []
    if traces is None:
        # the code under test took the harness down: find a script that does it
        some = scripts
        while len(some) > 1 and time.time() - t < 400:
            half = [some[:len(some) // 2], some[len(some) // 2:]]
            some = next((h for h in half if v.drive(drv["mode"], [dict(s) for s in h], work, tag="one", limit=15)[0] is None), None)
            if some is None:
                break
        for s in some or []:
            one, e = v.drive(drv["mode"], [dict(s)], work, tag="one", limit=15)
            if one is None:
                found.append((replay_file(prop, step, s, None, e), e))
                break
        if not found:
            raise v.ToolError(err)
        return found
    t = time.time()
    rej, states, trans = v.validate(drv["trace"], traces, work, extra=drv.get("env"))
    tv = time.time() - t
    stats["states"] += states
    stats["transitions"] += trans
    skipped = sum("skipped" in x for x in traces)
    stats["traces_validated_against_impl"] += len(traces) - len(rej) - skipped
    if skipped:
        stats["skipped"] = stats.get("skipped", 0) + skipped
    stats["runs"].append({"spec": step["spec"], "profile": step["profile"], "scripts": len(scripts), "states": states,
                          "transitions": trans, "rejected": len(rej), "steps": drv["count"](traces),
                          "seconds": [round(x, 1) for x in (tg, td, tv)]})
    if len(stats["samples"]) < 3 and scripts:
        stats["samples"].append({"profile": step["profile"], "script": json.dumps(scripts[len(scripts) // 2])[:1500]})
    racy = step.get("racy", False)
    for n, i in enumerate(sorted(rej)):
        if n >= 4 or found:
            break
        again, trace, where = confirm(step, scripts[i], 10 if racy else 2, work)
        stats["confirmations"] = stats.get("confirmations", 0) + 1
        if again or (racy and len(rej) > 1):
            found.append((replay_file(prop, step, scripts[i], trace or traces[i], where or rej[i]), rej[i]))
    if rej and not found:
        stats["unconfirmed"] = stats.get("unconfirmed", 0) + len(rej)
    return found


def run_model(prop, step, work, stats):
    ok, states, trans, out = v.model(step["module"], step.get("cfg"), step.get("env"), step.get("timeout", 700), work, heap=step.get("heap", "8g"))
    stats["states"] += states
    stats["transitions"] += trans
    stats["models"].append({"module": step["module"], "cfg": step.get("cfg", step["module"]), "env": step.get("env"), "states": states, "transitions": trans, "exhaustive": ok})
    if not ok:
        # the specification does not depend on the code: this is a defect of the specification
        raise v.ToolError(f"model {step['module']} failed:\n" + out[-3000:])


def findings(prop, work):
    """Reports the known findings that are still there."""
    for f in FINDINGS:
        if f["property"] != prop:
            continue
        drv = DRIVERS[f["spec"]]
        traces, err = v.drive(drv["mode"], [dict(f["script"])], work, tag="kf")
        rej, _, _ = v.validate(drv["trace"], traces, work, extra={"STRICT": "1"})
        if rej:
            print(f"KNOWN-FINDING: property={prop} {f['id']}: {f['what']}")


def check(prop, tier, seed):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"vh-{prop}-")
    stats = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "runs": [], "models": []}
    found = []
    try:
        v.build()
        stats["build_s"] = round(time.time() - t0, 1)
        for step in PLANS[prop]["steps"]:
            if step["kind"] == "model":
                if tier == "thorough" and "thorough" in step:
                    step = dict(step, **step["thorough"])
                if step.get("cfg", "") is None:
                    continue
                run_model(prop, step, work, stats)
                continue
            rounds = 1
            if tier == "thorough":
                step = dict(step, **step.get("thorough", {}))
                rounds = step.get("rounds", 4)
            for r in range(rounds):
                found += run_traces(prop, step, seed + 7919 * r, work, stats)
                if found or time.time() - t0 > (650 if tier == "quick" else 3 * 3600):
                    break
            if found or time.time() - t0 > (650 if tier == "quick" else 3 * 3600):
                break
        if not found:
            findings(prop, work)
        cov = {k: x for k, x in stats.items()}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as h:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                       "assumptions": PLANS[prop].get("assumptions", []), "wall_s": round(time.time() - t0, 1),
                       "violations": len(found)}, h, indent=1)
        for f, where in found[:1]:
            print(f"rejected at {where}")
            print(f"VIOLATION property={prop} replay={f}")
        if not found:
            print(f"{prop}: held on {stats['traces_validated_against_impl']} traces, {stats['states']} states ({time.time() - t0:.0f} s)")
        return 1 if found else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    drv = DRIVERS[d["spec"]]
    work = tempfile.mkdtemp(prefix="vh-replay-")
    try:
        v.build()
        traces, err = v.drive(drv["mode"], [dict(d["script"]) for _ in range(5)], work)
        if traces is None:
            print(err)
            return 1
        rej, _, _ = v.validate(drv["trace"], traces, work, extra=drv.get("env"))
        for i, w in rej.items():
            print("run", i, "rejected at", w)
            print(json.dumps(traces[i])[:6000])
        return 1 if rej else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            v.build()
            sys.exit(0)
        if a.replay:
            sys.exit(replay(a.replay))
        if a.property not in PLANS:
            print("unknown property", a.property)
            sys.exit(2)
        sys.exit(check(a.property, a.tier, a.seed))
    except v.ToolError as e:
        print("TOOL ERROR:", e)
        sys.exit(2)


main()
