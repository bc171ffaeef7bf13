#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Decides one property of /repo's current tree with the specification in spec/.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no answer.
"""
import concurrent.futures as cf
import json
import os
import shutil
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import driver  # noqa: E402
import plan  # noqa: E402


def execute(run, steps):
    """Builds first (in parallel, one at a time per kind), then everything else at once"""
    need = sorted({(s["build"], s.get("profile", "release")) for s in steps if "build" in s})
    errors = []

    def guarded(f, *a):
        try:
            return f(*a)
        except driver.ToolError as e:
            with run.lock:
                errors.append(str(e))

    def one_build(k):
        run.bins[k] = run.build(*k)

    models = [s for s in steps if s["do"] == "model"]
    with cf.ThreadPoolExecutor(16) as ex:
        first = [ex.submit(guarded, one_build, k) for k in need] + [ex.submit(guarded, run.tables)]
        for f in first:
            f.result()
        if errors:
            raise driver.ToolError("; ".join(errors))

    jobs = []
    for s in steps:
        if s["do"] == "model":
            jobs.append((s, None))
        else:
            jobs += [(s, k) for k in range(s["shards"])]

    def job(s, k):
        t = time.time()
        if s["do"] == "model":
            run.model(s["module"], s["cfg"], s.get("expect", 0), s.get("workers", 2), s.get("heap", "3g"),
                      env=s.get("env"))
            label = s["cfg"]
        elif s["do"] == "behave":
            binary = run.bins[(s["build"], s.get("profile", "release"))]
            label = s["label"]
            d, n = run.behaviours(k, s["events"])
            if n == 0:
                raise driver.ToolError(f"{label}: no behaviours were generated")
            run.harness(binary, "replay", k, s["shards"], label, beh=d, prop=run.prop)
            with run.lock:
                run.traces += n
                run.behaviours_played += n
            shutil.rmtree(d)
        else:
            binary = run.bins[(s["build"], s.get("profile", "release"))]
            label = s["label"]
            kv = dict(s.get("args", {}))
            base = None
            if s["do"] in ("trace", "pairs", "facts"):
                base = run.name(f"{label.replace(' ', '-')}-{k}")
                kv["out"] = base
                kv.setdefault("events", s["events"])
            clean, _ = run.harness(binary, s["mode"], k, s["shards"], label, env=s.get("env"), **kv)
            if base and os.path.exists(base + ".ev"):
                judge_history(run, s, k, base, clean, kv)
                for f in (base + ".ev", base + ".head"):
                    if os.path.exists(f):
                        os.unlink(f)
        with run.lock:
            run.steps.append((label, k, round(time.time() - t, 1)))

    # (long jobs first)
    jobs.sort(key=lambda j: -j[0].get("weight", 1))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f in [ex.submit(guarded, job, s, k) for s, k in jobs]:
            f.result()
    return errors


def judge_history(run, s, k, base, clean, kv):
    label = s["label"]
    items = sum(1 for _ in open(base + ".ev"))
    if s["do"] == "trace":
        judge = lambda b: run.validate(b, s["aspects"], s.get("areas", "all"))  # noqa: E731
        gen = lambda ev: driver.corruptions(s["aspects"][0], s.get("areas", "all"), ev)  # noqa: E731
    elif s["do"] == "facts":
        judge = run.facts
        gen = driver.fact_corruptions
    else:
        judge = run.relate
        gen = driver.pair_corruptions
    if items == 0:
        if clean:
            raise driver.ToolError(f"{label}: nothing was recorded")
        return
    at = judge(base)
    if at is None:
        with run.lock:
            run.traces += 1
            run.events += items
        if k == 0 and clean:
            driver.try_corruptions(run, base, judge, gen, label)
        return
    with run.lock:
        run.events += at - 1
    with open(base + ".ev") as f:
        bad = next((line for i, line in enumerate(f, 1) if i == at), "")
    try:
        event = json.loads(bad)
    except ValueError:
        event = bad
    what = (f"{label}: event {at} is not a behaviour of the specification" if s["do"] == "trace"
            else f"{label}: fact {at} is not as specified" if s["do"] == "facts"
            else f"{label}: pair {at} differs")
    run.violation(what, {"case": event if len(bad) < 20000 else bad[:20000]},
                  {"step": label, "shard": k, "event": at,
                   "cmd": [s["mode"]] + [f"{a}={v}" for a, v in kv.items() if a != "out"]},
                  files=(base + ".ev", base + ".head"))


def main():
    a = sys.argv[1:]
    prop, tier, replay = None, os.environ.get("VERIF_TIER", "quick"), None
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--replay":
            replay = a.pop(0)
        else:
            prop = x
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if replay:
        r = json.load(open(replay))
        prop, tier, seed = r["property"], r["tier"], r["seed"]
        only = r["repro"]["step"]
    if prop not in plan.PLANS:
        print(f"unknown property {prop}", file=sys.stderr)
        return 2
    run = driver.Run(prop, tier, seed)
    try:
        steps = plan.PLANS[prop](tier)
        if only:
            steps = [s for s in steps if s.get("label") == only]
        errors = execute(run, steps)
    except driver.ToolError as e:
        errors = [str(e)]
    finally:
        shutil.rmtree(run.work, ignore_errors=True)
    wall = round(time.time() - run.started, 1)
    if not replay:
        evidence(run, wall, errors)
    for k in run.known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    for what, path, entry in run.violations:
        print(f"  {what}\n    {driver.head(json.dumps(entry['detail']), 1200)}")
        print(f"VIOLATION property={prop} replay={path}")
    for e in errors:
        print(f"no answer: {e}", file=sys.stderr)
    if run.violations:
        return 1
    if errors:
        return 2
    print(f"{prop} held: {run.evaluations} calls, {run.traces} histories of {run.events} events, "
          f"{run.states} states, {wall} s")
    if os.environ.get("VERIF_STEPS"):
        for s in sorted(run.steps, key=lambda x: -x[2])[:12]:
            print("   ", *s)
    return 0


def evidence(run, wall, errors):
    os.makedirs(os.path.join(driver.VERIF, "evidence"), exist_ok=True)
    cov = {
        "states": run.states,
        "transitions": run.transitions,
        "traces_validated_against_impl": run.traces,
        "events_validated": run.events,
        "samples": run.samples or ["(no sample)"],
        "evaluations": run.evaluations,
        "distinct_nontrivial": run.nontrivial,
        "rule": plan.RULES[run.prop],
        "behaviours_generated_and_played": run.behaviours_played,
        "models": run.models,
        "falsified_histories_rejected": run.rejected_corruptions,
        "wrong_designs_refuted": run.rejected_designs,
        "counts": run.counts,
        "notes": run.notes,
    }
    if errors:
        cov["errors"] = [driver.head(e, 400) for e in errors]
    ev = {"property": run.prop, "tier": run.tier, "seed": run.seed, "level": plan.LEVEL[run.prop],
          "coverage": cov, "assumptions": plan.ASSUMPTIONS, "wall_s": wall, "violations": len(run.violations)}
    path = os.path.join(driver.VERIF, "evidence", f"{run.prop}.json")
    with open(path + ".tmp", "w") as o:
        json.dump(ev, o, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # an error of the check, not an answer
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
