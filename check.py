#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--seconds S]

Runs the simulated batch for one property against /repo's working tree.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: harness error."""
import argparse
import collections
import glob
import hashlib
import json
import os
import subprocess
import sys
import time

if sys.executable != "/opt/venv/bin/python" and os.path.exists("/opt/venv/bin/python") and not os.environ.get("DST_PYTHON_OK"):
    os.environ["DST_PYTHON_OK"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONHASHSEED", "0")
from dst import props, runner, steps, findings  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=min(16, max(2, os.cpu_count() or 8)))
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--digests", help="only print the digests of runs 0..N-1 (self check)")
    a = ap.parse_args()
    prop = props.PROPS[a.property]
    if a.digests:
        idx = [int(v) for v in a.digests.split(",")]
        print(json.dumps({i: runner.run_forked(prop, runner.scenario(prop, a.seed, i, a.tier)).digest for i in idx}))
        return 0
    t0 = time.monotonic()
    thorough = a.tier == "thorough"
    n = a.runs or (prop.thorough_runs if thorough else prop.quick_runs)
    seconds = a.seconds or (780.0 if thorough else 240.0)
    print("check %s seed=%d tier=%s runs=%d" % (prop.id, a.seed, a.tier, n))
    sys.stdout.flush()

    # known findings and regression corpus
    viols = []         # (key, msg, scn, source)
    known_hits = []
    corpus = 0
    known = findings.load(prop.id)
    jobs = []
    for path in sorted(glob.glob(os.path.join(HERE, "corpus", prop.id, "*.json"))):
        with open(path) as f:
            jobs.append((path, json.load(f)["scenario"]))
    for path, scn in jobs:
        out = runner.run_forked(prop, scn)
        corpus += 1
        if out.error:
            print("harness error in corpus run %s:\n%s" % (path, out.error))
            return 2
        for k, m in out.viol:
            f = findings.match(known, scn, k, m)
            if f is not None:
                known_hits.append(f["id"])
            else:
                viols.append((k, m, scn, os.path.basename(path)))

    # self check in a fresh interpreter, other hash seed, run concurrently
    idx = [0, 1, 2, 3, 5, 8][:max(1, min(6, n))]
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "12345"
    env["DST_PYTHON_OK"] = "1"
    selfp = subprocess.Popen([sys.executable, os.path.abspath(__file__), prop.id, "--digests", ",".join(map(str, idx)),
                              "--seed", str(a.seed), "--tier", a.tier], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    res, batch_wall = runner.run_batch(prop, a.seed, a.tier, n, a.workers, seconds,
                                       excused=lambda k, m: any(f["status"] == "known" and k in f["keys"] for f in known))
    errors = [(i, o) for i, o in sorted(res.items()) if o.error]
    timeouts = [i for i, o in res.items() if o.timeout]
    agg = collections.Counter()
    faults = collections.Counter()
    sigs, orders, lines, histories = set(), set(), set(), set()
    sim_time = evals = nsteps = nontriv = switches = 0
    for i, o in sorted(res.items()):
        agg.update(o.stats)
        faults.update(o.faults)
        sim_time += o.sim_time
        evals += o.evals
        nsteps += o.steps
        switches += o.switches
        histories.add(o.digest)
        if o.lines:
            lines |= o.lines
        if o.order:
            orders.add(o.order)
        if o.nontrivial:
            nontriv += 1
            if getattr(o, "sigs", None):
                sigs |= o.sigs
            else:
                sigs.add(o.sig)
        for k, m in o.viol:
            f = findings.match(known, None, k, m, prop=prop, index=(a.seed, i, a.tier))
            if f is not None:
                known_hits.append(f["id"])
            else:
                viols.append((k, m, i, "run %d" % i))
    # determinism
    mism = []
    try:
        so, _ = selfp.communicate(timeout=240)
        dig = json.loads(so.decode().strip().splitlines()[-1])
        for i in idx:
            if i in res and not res[i].timeout and not res[i].error and dig.get(str(i)) != res[i].digest:
                mism.append(i)
    except Exception as e:
        selfp.kill()
        dig = {}
        print("note: determinism self-check did not complete: %r" % e)
    if mism:
        print("note: runs %s have another history under another hash seed" % mism)
        if prop.id == "C19":
            viols.append(("C19:process", "the evaluation history depends on the hash seed of the process", mism[0], "run %d" % mism[0]))

    # report
    code = 0
    reported = []
    if viols:
        code = 1
        bykey = {}
        for v in viols:
            bykey.setdefault(v[0], v)
        budget = 60.0
        for key, (k, m, src, name) in list(bykey.items())[:3]:
            scn = src if isinstance(src, dict) else runner.scenario(prop, a.seed, src, a.tier)
            try:
                rep = report(prop, scn, k, m, a, budget)
            except Exception as e:
                print("  note: minimisation failed (%r); reporting the unminimised run" % e)
                rep = report(prop, scn, k, m, argparse.Namespace(no_min=True), budget)
            budget = max(10.0, budget / 3)
            reported.append(rep)
            print("  %s: %s" % (k, rep["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop.id, rep["path"]))
            sys.stdout.flush()
    for f in known:
        if f["status"] == "known":
            if f["id"] in known_hits:
                print("KNOWN-FINDING: property=%s %s" % (prop.id, f["what"]))
            else:
                print("note: known finding %s did not show up in this run" % f["id"])
    done = len(res)
    if code == 0 and errors:
        print("harness errors in %d runs; first (run %d):\n%s" % (len(errors), errors[0][0], errors[0][1].error))
        code = 2
    if code == 0 and len(timeouts) > max(2, 0.05 * done):
        print("harness: %d of %d runs hit the wall-clock limit" % (len(timeouts), done))
        code = 2
    if code == 0 and not thorough and done < 0.5 * n:
        print("harness: only %d of %d runs finished within %.0f s" % (done, n, seconds))
        code = 2
    wall = time.monotonic() - t0
    samples = []
    for i in sorted(res)[:2]:
        s = runner.scenario(prop, a.seed, i, a.tier)
        t = json.dumps(s)
        samples.append({"run": i, "outcome": res[i].sig, "digest": res[i].digest,
                        "scenario": s if len(t) < 4000 else t[:4000] + "..."})
    hours = max(batch_wall, 1e-9) / 3600.0
    ev = {
        "property": prop.id, "tier": "thorough" if thorough else "quick", "seed": a.seed, "level": prop.level,
        "coverage": {
            "evaluations": done, "distinct_nontrivial": len(sigs), "rule": prop.rule, "samples": samples,
            "nontrivial_runs": nontriv, "simulated_runs_per_hour": int(done / hours), "seeds_per_hour": int(done / hours),
            "runs_requested": n, "simulated_time_units": round(sim_time, 1), "blackbox_evaluations": evals,
            "dfols_loop_steps": nsteps, "faults_fired": dict(sorted(faults.items())),
            "oracle_counters": dict(sorted(agg.items())),
            "distinct_histories": len(histories), "distinct_schedules": len(orders), "context_switches": switches,
            "lines_reached": len(lines), "lines_instrumented": steps.STATE.get("all_lines"),
            "runs_hit_wall_limit": len(timeouts), "harness_errors": len(errors), "corpus_replays": corpus,
            "determinism_selfcheck": {"runs": len(idx), "mismatches": len(mism), "how": "fresh interpreter, other PYTHONHASHSEED, serial"},
            "components": prop.components,
        },
        "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": len(reported),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs, %d evaluations of black boxes, %d distinct non-trivial outcomes, %.1f s, exit %d"
          % (prop.id, done, evals, len(sigs), wall, code))
    return code


def report(prop, scn, key, msg, a, budget):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    tag = hashlib.blake2b((key + json.dumps(scn, sort_keys=True)).encode(), digest_size=4).hexdigest()
    path = os.path.join(d, "%s-%s-%s.json" % (prop.id, "".join(ch if ch.isalnum() else "_" for ch in key), tag))

    def write(s, out):
        m = next((mm for kk, mm in out.viol if kk == key), msg)
        with open(path, "w") as f:
            json.dump({"property": prop.id, "key": key, "message": m, "digest": out.digest, "scenario": s}, f, indent=1)
        return m
    first = runner.run_forked(prop, scn)
    lit = getattr(first, "repro", {}).get(key)
    if lit is not None:
        lit = json.loads(json.dumps(lit))
        lit["prop"] = prop.id
        if any(k == key for k, _ in runner.run_forked(prop, lit).viol):
            scn = lit
    small, tried = (scn, 0)
    if not a.no_min:
        small, tried = runner.minimise(prop, scn, key, seconds=budget)
    for cand in ([small, scn] if small is not scn else [scn]):
        out = runner.run_forked(prop, cand)
        if not any(k == key for k, _ in out.viol):
            continue
        m = write(cand, out)
        again = runner.replay_fresh(path, hashseed="777")
        if key in again["keys"] and again["digest"] == out.digest:
            return {"path": path, "msg": m, "confirmed": True, "tried": tried}
        if key in again["keys"]:
            print("  note: the replay reproduces %s with another history digest" % key)
            return {"path": path, "msg": m, "confirmed": False, "tried": tried}
    print("  note: %s did not reproduce in a fresh process (seed=%s)" % (key, scn.get("seed")))
    with open(path, "w") as f:
        json.dump({"property": prop.id, "key": key, "message": msg, "digest": None, "scenario": scn}, f, indent=1)
    return {"path": path, "msg": msg, "confirmed": False, "tried": tried}


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
