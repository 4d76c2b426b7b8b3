#!/usr/bin/env python3-vt
"""check.py Cxx  -- decides one property on /repo's current source.

1. every proof unit of the property (proofs/Cxx.py) is run by the deductive
   verifier in pydv/ on the modules of /repo/src, read and transformed now;
2. the property's run-time contract checker (oracle/Cxx.py) executes the real
   code: it replays the counterexamples of failed obligations, looks for failing
   inputs, and stands in (bounded) for the obligations left undecided.
"""
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYDV_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VENV = "/opt/venv/bin/python"


def unit_list(prop):
    try:
        return importlib.import_module(f"proofs.{prop}").UNITS
    except ModuleNotFoundError as ex:
        if ex.name == f"proofs.{prop}":
            return []
        raise


# ------------------------------------------------------------------ one unit (sub-process)
def run_unit(prop, idx, out, budget, verbose=False):
    import gc
    gc.set_threshold(200000, 20, 20)
    sys.setrecursionlimit(20000)
    from pydv.engine import Engine, Budget
    from pydv.values import Unsupported
    from pydv.loader import loader
    u = unit_list(prop)[idx]
    res = {"unit": u.name, "status": "error", "detail": "", "obligations": [], "functions": [],
           "bounded": u.bounded, "requires": u.requires, "trusts": u.trusts, "replay": u.replay}
    t0 = time.time()
    E = Engine(u.name, budget_s=budget, log=print if verbose else None, **u.opts)
    seen = set()

    def entered(c, offset):
        if not c.co_filename.startswith(SRC):
            return sys.monitoring.DISABLE
        if E.final:
            seen.add((os.path.relpath(c.co_filename, SRC), c.co_qualname))
            return sys.monitoring.DISABLE
    mon = sys.monitoring
    mon.use_tool_id(mon.PROFILER_ID, "pydv")
    mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, entered)
    try:
        mon.set_events(mon.PROFILER_ID, mon.events.PY_START)
        E.explore(u.fn, loader(SRC, u.modules))
        mon.set_events(mon.PROFILER_ID, 0)
        res["status"] = "ok"
    except (Unsupported, Budget) as ex:
        mon.set_events(mon.PROFILER_ID, 0)
        res["status"] = "undecided"
        res["detail"] = f"{type(ex).__name__}: {ex}"[-3000:]
        if verbose:
            traceback.print_exc()
    except Exception:
        mon.set_events(mon.PROFILER_ID, 0)
        res["status"] = "undecided"
        res["detail"] = "engine: " + traceback.format_exc()[-3000:]
        if verbose:
            traceback.print_exc()
    by = {}
    if res["status"] == "ok" or E.obligations:
        for o in E.obligations:
            if o.status == "failed" and not o.exact and E.unknowns:
                # an invariant may have been dropped because a query gave no answer
                o.status = "undecided"
            d = by.setdefault(o.label, {"label": o.label, "paths": 0, "discharged": 0, "failed": 0,
                                        "undecided": 0, "info": None, "model": None, "exact": True})
            d["paths"] += 1
            d[o.status] += 1
            if o.status != "discharged" and d["info"] is None:
                d["info"], d["model"], d["exact"] = o.info, o.model, o.exact
    res["obligations"] = list(by.values())
    res.update(exits=E.exits, exc_exits=E.exc_exits, reached=sorted(E.reached), solver_s=round(E.solver_time, 3),
               queries=E.queries, rounds=E.rounds, paths=E.paths, unknown_queries=E.unknowns, loop_vcs=E.loop_vcs,
               wall_s=round(time.time() - t0, 2), functions=sorted(f"{f}:{q}" for f, q in seen),
               loops=len(E.loops), rep_notes=E.notes[:20])
    if res["status"] == "ok":
        missing = [c for c in u.must_cover if c not in E.reached]
        if E.exits == 0 or not by or missing:
            res["status"] = "undecided"
            res["detail"] = f"vacuous: exits={E.exits} obligations={len(by)} not reached={missing}"
    with open(out, "w") as f:
        json.dump(res, f, default=str)


# ------------------------------------------------------------------ driver
def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def oracle_env():
    env = dict(os.environ)
    env["PYTHONPATH"] = SRC + ":" + os.path.join(HERE, "oracle")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["OMP_NUM_THREADS"] = "1"
    env["OPENBLAS_NUM_THREADS"] = "1"
    return env


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evid_dir = os.path.join(HERE, "evidence")
    work = os.path.join(evid_dir, "work", prop)
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(work):
        os.unlink(os.path.join(work, f))
    t0 = time.time()
    us = unit_list(prop)
    unit_budget = 240 if tier == "quick" else 420
    hard = unit_budget + 60
    oracle_s = 150 if tier == "quick" else 420
    total = 780
    have_oracle = os.path.exists(os.path.join(HERE, "oracle", prop + ".py"))
    shards = 3 if us else 6
    jobs = []
    if have_oracle:
        for k in range(shards):
            out = os.path.join(work, f"oracle{k}.json")
            jobs.append(("oracle", k, [VENV, os.path.join(HERE, "oracle", "run.py"), prop, "--tier", tier, "--seed",
                                       str(seed), "--shard", f"{k}/{shards}", "--deadline", str(oracle_s), "--out", out],
                         out, oracle_s + 120))
    for i, u in enumerate(us):
        out = os.path.join(work, f"unit{i}.json")
        jobs.append(("unit", i, [sys.executable, os.path.abspath(__file__), "--unit", prop, str(i), out, str(unit_budget)],
                     out, hard))
    running, queue, done = [], list(jobs), {}
    env = oracle_env()
    penv = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    while queue or running:
        while queue and len(running) < 8:
            j = queue.pop(0)
            log = open(j[3] + ".log", "w")
            p = subprocess.Popen(j[2], stdout=log, stderr=subprocess.STDOUT, cwd=HERE if j[0] == "unit" else work,
                                 env=penv if j[0] == "unit" else env, preexec_fn=limit, start_new_session=True)
            running.append((j, p, time.time(), log))
        time.sleep(0.05)
        for r in list(running):
            j, p, t, log = r
            rc = p.poll()
            if rc is None and (time.time() - t > j[4] or time.time() - t0 > total):
                p.kill()
                p.wait()
                rc = -9
            if rc is not None:
                running.remove(r)
                log.close()
                res = None
                if os.path.exists(j[3]):
                    try:
                        res = json.load(open(j[3]))
                    except ValueError:
                        res = None
                if res is None:
                    tail = open(j[3] + ".log").read()[-1500:]
                    res = {"status": "undecided", "detail": f"process ended rc={rc}: {tail}", "obligations": [],
                           "unit": us[j[1]].name if j[0] == "unit" else f"oracle{j[1]}"}
                done[(j[0], j[1])] = res
    units = [done[("unit", i)] for i in range(len(us))]
    oracles = [done[("oracle", k)] for k in range(shards)] if have_oracle else []
    sys.exit(decide(prop, tier, seed, t0, us, units, oracles, work, env))


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                rest = line.split(" ", 2)[2]
                key, _, desc = rest.partition(" ")
                out.append((key.removeprefix("key="), desc))
    return out


def decide(prop, tier, seed, t0, us, units, oracles, work, env):
    known = known_findings(prop)
    violations, notes = [], []
    # ---- concrete violations
    conc = [v for o in oracles for v in o.get("violations", [])]
    known_hit = {}
    for v in conc:
        k = next((k for k, d in known if k == v["key"]), None)
        if k is not None:
            known_hit[k] = v
        else:
            violations.append({"kind": "failing input", **v})
    failed = []
    for u, r in zip(us, units):
        for o in r.get("obligations", []):
            if o["failed"]:
                failed.append((u, r, o))
    # ---- replay of verifier counterexamples
    if failed and not violations:
        for u, r, o in failed[:6]:
            if not u.replay or not o.get("model"):
                continue
            spec = json.dumps({"case": u.replay, "model": o["model"]})
            out = os.path.join(work, "replay.json")
            if os.path.exists(out):
                os.unlink(out)
            try:
                subprocess.run([VENV, os.path.join(HERE, "oracle", "run.py"), prop, "--model", spec, "--out", out],
                               env=env, cwd=work, timeout=90, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                rr = json.load(open(out))
            except Exception:
                continue
            for v in rr.get("violations", []):
                if not any(k == v["key"] for k, d in known):
                    violations.append({"kind": "replayed counterexample", "obligation": o["label"],
                                       "unit": u.name, **v})
    rc = 0
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)

    def write_replay(obj):
        h = hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(rdir, f"{prop}-{h}.json")
        json.dump(obj, open(p, "w"), indent=1, default=str)
        return p
    nviol = 0
    if violations:
        seen = set()
        for v in violations:
            if v["key"] in seen or len(seen) >= 5:
                continue
            seen.add(v["key"])
            nviol += 1
            p = write_replay({"property": prop, "how": f"{VENV} oracle/run.py {prop} --case '<case json below>' "
                              "(PYTHONPATH=/repo/src:oracle)", **v,
                              "failed_obligations": [(u.name, o["label"]) for u, r, o in failed]})
            print(f"# {v['case']}: {v['message']}"[:400])
            print(f"VIOLATION property={prop} replay={p}")
        rc = 1
    elif failed:
        for u, r, o in failed[:1]:
            nviol += 1
            p = write_replay({"property": prop, "kind": "failed obligation", "unit": u.name,
                              "obligation": o["label"], "exact": o["exact"], "verifier": o["info"],
                              "model": o["model"], "all_failed": [(u.name, o["label"]) for u, r, o in failed]})
            print(f"# obligation failed: {u.name}: {o['label']}")
            print(f"VIOLATION property={prop} replay={p} no-failing-input-found")
        rc = 1
    for k, d in known:
        if k in known_hit:
            print(f"KNOWN-FINDING: property={prop} {d}")
    # ---- evidence
    total = sum(o["paths"] for r in units for o in r.get("obligations", []) if not r.get("bounded"))
    disch = sum(o["discharged"] for r in units for o in r.get("obligations", []) if not r.get("bounded"))
    bnd = {r["unit"]: {"bound": r["bounded"], "obligations": sum(o["paths"] for o in r.get("obligations", [])),
                       "discharged": sum(o["discharged"] for o in r.get("obligations", []))}
           for r in units if r.get("bounded")}
    undec = [(u.name, r["detail"][:600]) for u, r in zip(us, units) if r["status"] != "ok"]
    undec += [(u.name, "undecided: " + o["label"]) for u, r in zip(us, units) if r["status"] == "ok"
              for o in r["obligations"] if o["undecided"]]
    proved = bool(us) and not undec and not failed and total > 0
    fl = sum(r.get("loop_vcs", 0) for r in units)
    cov = {
        "obligations": total, "discharged": disch,
        "checker_cmd": f"python3-vt /verif/check.py {prop}",
        "trusted_base": TRUSTED + sorted({t for r in units for t in r.get("trusts", [])}),
        "back_end": "z3 " + z3_version(),
        "loop_invariant_queries": fl,
        "solver_s": round(sum(r.get("solver_s", 0) for r in units), 2),
        "functions_under_contract": sorted({f for r in units for f in r.get("functions", [])}),
        "units": [{"unit": r["unit"], "status": r["status"], "bounded": r.get("bounded"),
                   "paths": r.get("paths"), "rounds": r.get("rounds"), "loops": r.get("loops"),
                   "normal_exits": r.get("exits"), "exception_exits": r.get("exc_exits"),
                   "requires": r.get("requires"), "reached": r.get("reached"),
                   "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"),
                   "obligations": {o["label"]: f"{o['discharged']}/{o['paths']}" for o in r.get("obligations", [])},
                   "detail": r.get("detail", "")[:600]} for r in units],
        "undecided": undec,
        "bounded_units": bnd,
        "bounded_checker": {
            "evaluations": sum(o.get("evaluations", 0) for o in oracles),
            "distinct_nontrivial": sum(o.get("distinct", 0) for o in oracles),
            "not_run_for_time": sum(o.get("skipped", 0) for o in oracles),
            "status": [o.get("detail") for o in oracles if o.get("status") not in ("ok", None)],
        },
    }
    nt = sum(o.get("distinct", 0) for o in oracles)
    level = "proof" if proved or (rc == 1 and total) else "exploration"
    if any(r["status"] == "ok" for r in units) and not proved and rc == 0:
        level = "exploration"
    cov.update({"evaluations": sum(o.get("evaluations", 0) for o in oracles),
                "distinct_nontrivial": nt,
                "rule": next((o["rule"] for o in oracles if o.get("rule")), "no run-time checker"),
                "samples": [s for o in oracles for s in o.get("samples", [])][:6]
                or [u["unit"] for u in cov["units"]][:3]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": sorted({t for r in units for t in r.get("requires", []) + r.get("trusts", [])}) + ASSUME,
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print(f"{prop}: obligations {disch}/{total} discharged, {len(undec)} undecided; run-time contract checks: "
          f"{cov['evaluations']} cases; {'violation' if rc else 'no violation'}; {ev['wall_s']} s")
    for n, d in undec:
        print(f"  undecided: {n}: {d.splitlines()[-1][:200] if d else ''}")
    # an oracle that could not run at all and nothing proved: no answer
    if rc == 0 and not proved and (not oracles or all(o.get("status") != "ok" for o in oracles)):
        print(f"{prop}: no answer: {[o.get('detail') for o in oracles][:1]}")
        return 3
    return rc


def z3_version():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


TRUSTED = ["pydv (AST transformation, symbolic run-time, loop summaries) in /verif/pydv",
           "z3", "CPython 3.12 executing the transformed functions"]
ASSUME = ["floating-point numbers are mathematical reals in the proofs",
          "cadquery/OCP, numpy, math are represented by the contracts of /verif/pydv/stubs.py"]

if __name__ == "__main__":
    if sys.argv[1] == "--unit":
        run_unit(sys.argv[2], int(sys.argv[3]), sys.argv[4], float(sys.argv[5]), "-v" in sys.argv)
    else:
        main()
