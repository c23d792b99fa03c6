"""Run the solver-based check of one property.

  run.py <PROPERTY> [--tier quick|thorough] [--only HARNESS] [--jobs N]
  run.py --replay FILE         re-run a counterexample on the real code
exit 0: every obligation of every harness that was explored was discharged by the solver (or is a listed known finding)
exit 1: a counterexample reproduced on the real code (VIOLATION line)
Harnesses the solver could not decide (unknown, encoding limits, vacuity, time) are printed as INCONCLUSIVE and listed in the
evidence as not explored; exit 2 when no harness at all could be decided (or with --strict, when one could not).
"""
import argparse
import importlib.util
import json
import os
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ENV = dict(JAX_PLATFORMS="cpu", CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
           PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", HF_HUB_OFFLINE="1", HF_DATASETS_OFFLINE="1", TRANSFORMERS_OFFLINE="1",
           HF_HUB_DISABLE_TELEMETRY="1", LANG="C.UTF-8",
           XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")


def load(prop):
    path = os.path.join(HERE, "checks", prop + ".py")
    spec = importlib.util.spec_from_file_location("check_" + prop, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["check_" + prop] = mod
    spec.loader.exec_module(mod)
    return mod


def worker(prop, name, tier):
    mod = load(prop)
    hs = {h["name"]: h for h in mod.HARNESSES}
    h = hs[name]
    from symx.harness import Explorer

    opts = dict(h["opts"])
    if tier == "thorough":
        opts.update(h.get("thorough_opts", {}))
    ex = Explorer(name, h["body"], **opts)
    try:
        res = ex.run()
    except Exception as e:  # noqa
        import traceback

        res = dict(harness=name, errors=[f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}"], violations=[], unknown=[],
                   paths=0, queries=0, solver_s=0, obligations=0, names={}, functions=[], wall_s=0, twin_runs=0, samples=[])
    print("\n@@RESULT " + json.dumps(res, default=str))


def list_harnesses(prop, tier):
    """names without importing jax: ask a subprocess"""
    mod = load(prop)
    out = []
    for h in mod.HARNESSES:
        if tier == "quick" and not h["quick"]:
            continue
        out.append(dict(name=h["name"], bounds=h["bounds"], finding=h.get("finding"), seconds=h["opts"].get("seconds", 240)))
    print("@@LIST " + json.dumps(dict(harnesses=out, assumptions=getattr(mod, "ASSUMPTIONS", []), stubs=getattr(mod, "STUBS", []),
                                     outside=getattr(mod, "OUTSIDE", ""))))


def limit():
    import resource

    resource.setrlimit(resource.RLIMIT_DATA, (MEM, MEM))


MEM = 6 << 30        # per worker


def call(args, timeout):
    env = dict(os.environ, **ENV)
    cmd = [sys.executable, "-W", "ignore", os.path.join(HERE, "run.py")] + args
    try:
        if timeout <= 1:
            return "", "TIMEOUT", -1
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=HERE, preexec_fn=limit)
        return p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), "TIMEOUT", -1


def pick(out, tag):
    for ln in reversed(out.splitlines()):
        if ln.startswith(tag):
            return json.loads(ln[len(tag):])
    return None


def replay(path):
    d = json.load(open(path))
    mod = load(d["property"])
    h = {x["name"]: x for x in mod.HARNESSES}[d["violation"]["harness"]]
    from fractions import Fraction

    from symx.harness import Explorer

    ex = Explorer(h["name"], h["body"], **h["opts"])
    vals = {}
    for k, v in d["violation"]["inputs"].items():
        conv = {"f": Fraction, "i": int, "b": lambda s: s == "True"}[v["kind"]]
        vals[k] = [conv(s) for s in v["values"]]
    ok, bad, seen = ex.concrete(vals)
    print("inputs:")
    for k, v in d["violation"]["inputs"].items():
        print("  ", k, v["shape"], v["values"])
    if not ok:
        print("the inputs do not satisfy the assumptions of the harness")
        return 0
    for b in bad:
        print("FAILED", *b)
    print("reproduced" if bad else "not reproduced: the property holds on these inputs")
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--worker")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--strict", action="store_true", help="exit 2 as soon as one harness is undecided")
    a = ap.parse_args()
    if a.replay:
        os.environ.update(ENV)
        sys.exit(replay(a.replay))
    if a.worker:
        worker(a.property, a.worker, a.tier)
        return
    if a.list:
        list_harnesses(a.property, a.tier)
        return
    t0 = time.time()
    prop, tier = a.property, a.tier
    budget = 780 if tier == "quick" else 6 * 3600
    out, err, rc = call([prop, "--list", "--tier", tier], 300)
    lst = pick(out, "@@LIST ")
    if lst is None:
        print(err[-3000:])
        print(f"ERROR property={prop} cannot load the check (the code under test does not import?)")
        sys.exit(2)
    hs = [h for h in lst["harnesses"] if not a.only or a.only in h["name"]]
    hs.sort(key=lambda h: -h["seconds"])

    def one(h):
        o, e, rc = call([prop, "--worker", h["name"], "--tier", tier], min(h["seconds"] * 1.5 + 120, budget - (time.time() - t0)))
        r = pick(o, "@@RESULT ")
        if r is None:
            r = dict(harness=h["name"], errors=[f"worker failed rc={rc}: {e[-1500:]}"], violations=[], unknown=[], paths=0, queries=0,
                     solver_s=0, obligations=0, names={}, functions=[], wall_s=0, twin_runs=0, samples=[])
        r["bounds"] = h["bounds"]
        r["finding"] = h.get("finding")
        return r

    with ThreadPoolExecutor(a.jobs) as tp:
        results = list(tp.map(one, hs))
    known = {}
    kf = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(kf):
        for ln in open(kf):
            ln = ln.strip()
            if ln and ln.startswith("{"):
                k = json.loads(ln)
                if k.get("status") == "finding":
                    known[k["property"], k["id"]] = k
    code = undecided = 0
    viols = []
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for r in results:
        if r["violations"]:
            k = known.get((prop, r["finding"])) if r["finding"] else None
            if k is not None:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
                continue
            path = os.path.join(rdir, f"{prop}-{r['harness']}.json")
            v = r["violations"][0]
            json.dump(dict(property=prop, violation=v), open(path, "w"), indent=1, default=str)
            print(f"harness {r['harness']}: {v['kind']}: {v['failed'][:2]}")
            print("  inputs " + "; ".join(f"{n}={x['values']}" for n, x in list(v["inputs"].items())[:8])[:600])
            viols.append((r["harness"], path))
        elif r["errors"] or r["unknown"]:
            undecided += 1
            for e in (r["errors"] + r["unknown"])[:3]:
                lines = str(e).strip().splitlines()
                print(f"INCONCLUSIVE property={prop} harness={r['harness']}: " + "\n    ".join(lines[:1] + lines[1:][-5:]))
    if undecided and (a.strict or a.v or undecided == len(results)):
        code = 2
    for hname, path in viols:
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    fns = sorted({f for r in results for f in r["functions"]})
    ob = sum(r["obligations"] for r in results)
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
        coverage=dict(
            explanation="Symbolic execution of the real functions of /repo (JAX-trace interpreter over exact reals/integers) with the "
                        "stated bounds; every obligation on every feasible path is decided by an SMT solver for all input values.",
            functions_encoded=fns, harnesses=[dict(name=r["harness"], bounds=r["bounds"], paths=r["paths"], queries=r["queries"],
                                                   solver_s=r["solver_s"], obligations_discharged=r["obligations"],
                                                   reachability_twins=r["twin_runs"], wall_s=r["wall_s"],
                                                   obligations=r["names"], witness=r["samples"][:1],
                                                   inconclusive=(r["errors"] + r["unknown"])[:3]) for r in results],
            paths=sum(r["paths"] for r in results), queries=sum(r["queries"] for r in results), obligations_discharged=ob,
            solver_time_s=round(sum(r["solver_s"] for r in results), 2), outside_the_claim=lst["outside"], stubs=lst["stubs"], harnesses_undecided=undecided),
        wall_s=round(time.time() - t0, 2), assumptions=lst["assumptions"], violations=len(viols))
    if not a.only:
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if a.v or a.only:
        for r in results:
            print(f"  {r['harness']:40s} paths={r['paths']} obl={r['obligations']} q={r['queries']} solver={r['solver_s']}s wall={r['wall_s']}s")
    print(f"property={prop} tier={tier} harnesses={len(results)} paths={ev['coverage']['paths']} obligations={ob} "
          f"queries={ev['coverage']['queries']} solver_s={ev['coverage']['solver_time_s']} wall_s={ev['wall_s']} exit={code}")
    sys.exit(code)


if __name__ == "__main__":
    main()
