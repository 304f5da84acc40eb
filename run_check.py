#!/opt/venv/bin/python
"""Decide one property: run every scenario of its module, write the evidence file.

usage: run_check.py ID [--tier quick|thorough] [--only NAME] [--jobs N] [--replay FILE]
"""

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

os.environ.update(
    JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
    TF_CPP_MIN_LOG_LEVEL="3",
    XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 "
    "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true",
    OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
EVID = os.environ.get("JAXSMT_EVID", os.path.join(HERE, "evidence"))
LIMIT = {"quick": 600, "thorough": 840}


def load(pid, tier):
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.INFO)
    import coreax

    root = os.environ.get("JAXSMT_SCRATCH_ROOT", "/repo")  # set only while trying changes in a scratch copy
    if not os.path.abspath(coreax.__file__).startswith(root + "/"):
        raise RuntimeError(f"coreax is imported from {coreax.__file__}, not from {root}")
    mod = importlib.import_module(f"checks.{pid.lower()}")
    scens = [s for s in mod.scenarios() if tier == "thorough" or s.tier == "quick"]
    names = [s.name for s in scens]
    assert len(set(names)) == len(names), "duplicate scenario names"
    return mod, scens


_W = {}


def work(task):
    pid, tier, name, seed, budget = task
    from jaxsmt.harness import run_scenario

    if (pid, tier) not in _W:
        _W.clear()
        _W[pid, tier] = {s.name: s for s in load(pid, tier)[1]}
    return run_scenario(_W[pid, tier][name], tier, seed, budget)


def listing(q, pid, tier):
    try:
        mod, scens = load(pid, tier)
        q.put(("ok", {"doc": mod.__doc__ or "", "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
                      "scens": [(s.name, s.bounds, list(s.funcs), s.opts.get("weight", 1), s.opts.get("known"))
                                for s in scens]}))
    except BaseException as e:  # reported by the parent
        import traceback

        q.put(("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"))


def known_findings(pid):
    p = os.path.join(HERE, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


def replay(pid, path):
    from jaxsmt.ctx import PathAbort
    from jaxsmt.harness import CodeRaised, ConcB, Failed

    with open(path) as f:
        r = json.load(f)
    _, scens = load(pid, "thorough")
    s = {s.name: s for s in scens}[r["scenario"]]
    try:
        s.fn(ConcB(s, r["values"], r["picks"], r["seed"]))
    except (Failed, CodeRaised) as e:
        print(f"REPRODUCED {pid} {r['scenario']}: {e}")
        return 1
    except PathAbort as e:
        print(f"input rejected: {e}")
        return 0
    print("the property holds on this input")
    return 0


def selftest():
    """The tools are present, a true claim is proved and a false one refuted."""
    import z3

    from jaxsmt.harness import Scenario, run_scenario

    def scen(bad):
        def f(B):
            x = B.reals("x", 3)
            y = B.run(lambda x: (x - x.mean()).sum() + bad * x[0], x)
            B.eq("sum of deviations", y, B.const(0))

        return run_scenario(Scenario("selftest", f))["status"]

    load("C09", "quick")
    a, b = scen(0.0), scen(0.5)
    print(f"selftest: z3 {z3.get_version_string()}, true claim {a}, false claim {b}")
    return 0 if (a, b) == ("holds", "violated") else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.property
    if a.selftest:
        return selftest()
    if a.replay:
        return replay(pid, a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    ctx = mp.get_context("spawn")
    q = ctx.Queue()
    lp = ctx.Process(target=listing, args=(q, pid, a.tier), daemon=True)
    lp.start()
    try:
        kind, info = q.get(timeout=180)
    except Exception:
        kind, info = "err", "no answer while importing the code"
    lp.join(5)
    if kind == "err":
        # the package or the harness cannot be imported: nothing was decided
        print(f"ERROR property={pid} {info}")
        return 2
    scens = [s for s in info["scens"] if not a.only or a.only in s[0]]
    scens.sort(key=lambda s: -s[3])
    limit = LIMIT[a.tier]
    per = limit - 60
    results = []
    known = known_findings(pid)
    jobs = max(1, min(a.jobs, len(scens)))
    with ctx.Pool(jobs) as pool:
        pend = [(s, pool.apply_async(work, ((pid, a.tier, s[0], seed, per),))) for s in scens]
        for s, h in pend:
            left = max(1.0, limit - (time.time() - t0))
            try:
                r = h.get(timeout=left)
            except mp.TimeoutError:
                r = {"scenario": s[0], "status": "inconclusive", "violations": [], "validated": 0, "samples": [],
                     "asserts": 0, "mismatch": [], "inconclusive": ["time limit of the check"], "stats": {},
                     "bounds": s[1], "functions": s[2], "wall_s": 0}
            except Exception as e:
                r = {"scenario": s[0], "status": "inconclusive", "violations": [], "validated": 0, "samples": [],
                     "asserts": 0, "mismatch": [], "inconclusive": [f"worker failed: {type(e).__name__}: {e}"],
                     "stats": {}, "bounds": s[1], "functions": s[2], "wall_s": 0}
            results.append(r)
            if any(not any(k["scenario"] == r["scenario"] and k["failure"] in v["failed"] for k in known)
                   for v in r["violations"]) and not a.v:
                # the verdict is settled: give the rest a little time to report theirs
                limit = min(limit, time.time() - t0 + 30)
            if a.v:
                st = r["stats"]
                print(f"  {r['scenario']:<60} {r['status']:<12} {r['wall_s']:6.1f}s paths={st.get('paths')} "
                      f"queries={st.get('queries')} solver={st.get('solver_s', 0):.1f}s val={r['validated']}",
                      *[x[:500] for x in r["inconclusive"] + r["mismatch"]], sep="\n      ", flush=True)
        pool.terminate()
    viol, kf, incon = [], [], []
    for r in results:
        for v in r["violations"]:
            k = next((k for k in known if k["scenario"] == r["scenario"] and k["failure"] in v["failed"]), None)
            if k:
                kf.append((k, v))
            else:
                viol.append(v)
        if r["status"] == "inconclusive":
            incon.append(r)
    holds = [r for r in results if r["status"] == "holds"]
    for k, _ in kf:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for r in incon:
        print(f"INCONCLUSIVE property={pid} scenario={r['scenario']}: {'; '.join(r['inconclusive'] + r['mismatch'])[:250]}")
    write_evidence(pid, a.tier, seed, info, results, holds, viol, kf, incon, time.time() - t0)
    if viol:
        for v in viol:
            h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(EVID, f"{pid}-{h}.replay.json")
            with open(path, "w") as f:
                json.dump({"property": pid, **v}, f, indent=1, default=str)
            print(f"  {v['scenario']}: {v['label']} -> {v['failed']}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid}: {len(holds)} scenarios hold, {len(kf)} known findings, {len(incon)} inconclusive, "
          f"{sum(r['stats'].get('paths', 0) for r in results)} paths, "
          f"{sum(r['stats'].get('queries', 0) for r in results)} queries, {time.time() - t0:.1f}s")
    if not holds:
        print(f"ERROR property={pid}: no scenario was decided")
        return 2
    return 0


def write_evidence(pid, tier, seed, info, results, holds, viol, kf, incon, wall):
    tot = lambda k: sum(r["stats"].get(k, 0) or 0 for r in results)  # noqa: E731
    stubs, assumes = {}, list(info["assumptions"])
    for r in results:
        for k, n in (r["stats"].get("stubs") or {}).items():
            stubs[k] = stubs.get(k, 0) + n
        for t in r["stats"].get("assumes") or []:
            if t and t not in assumes:
                assumes.append(t)
    samples = []
    for r in results:
        samples += r.get("samples", [])[:1]
    if not samples:
        samples = [{"scenario": r["scenario"], "status": r["status"], "paths": r["stats"].get("paths"),
                    "bounds": r["bounds"]} for r in results[:3]]
    funcs = sorted({f for r in results for f in r["functions"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot("paths") + tot("decisions")),
            "transitions": int(tot("symbolic_steps")),
            "traces_validated_against_impl": int(sum(r["validated"] for r in results)),
            "samples": samples[:6],
            "paths": int(tot("paths")),
            "functions_encoded": funcs,
            "queries_discharged": int(tot("queries")),
            "assertions": int(sum(r["asserts"] for r in results)),
            "assertions_solver_decided": int(tot("proved")),
            "solver_s": round(tot("solver_s"), 3),
            "scenarios": [
                {"name": r["scenario"], "status": r["status"], "bounds": r["bounds"],
                 "paths": r["stats"].get("paths", 0), "queries": r["stats"].get("queries", 0),
                 "solver_s": round(r["stats"].get("solver_s", 0) or 0, 3), "validated": r["validated"],
                 "wall_s": round(r["wall_s"], 2),
                 **({"inconclusive": [x[:500] for x in r["inconclusive"] + r["mismatch"]]}
                    if r["inconclusive"] or r["mismatch"] else {})}
                for r in results],
            "held": len(holds), "inconclusive": len(incon), "known_findings": len(kf),
            "stubs": stubs,
        },
        "assumptions": assumes,
        "violations": len(viol),
        "wall_s": round(wall, 2),
    }
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
