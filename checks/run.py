"""Decide one property of /repo:  run.py C01 [--replay FILE] [--list]

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: broken.
"""
import os
import sys

sys.dont_write_bytecode = True
for _k in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != "/opt/venv" and "VERIF_REEXEC" not in os.environ:
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(PY, [PY] + sys.argv)
sys.path[:0] = [os.path.join(REPO, "src"), HERE]
sys.path.append(VT)

import argparse  # noqa: E402
import json  # noqa: E402
import time  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter("ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--only", help="substring of the configuration (debugging)")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import torch
    torch.set_num_threads(1)
    import ptwt
    assert os.path.realpath(ptwt.__file__).startswith(os.path.realpath(REPO)), ptwt.__file__
    from symwave import check
    check.start_monitoring(os.path.dirname(ptwt.__file__))
    import harness
    from symwave import shapes
    if any(getattr(harness.HARNESSES[h], "sizes", False) for h, _ in harness.configs(a.prop, a.tier, seed)):
        shapes.preload()
    if a.replay:
        return replay(a, check, harness)
    tasks = harness.configs(a.prop, a.tier, seed)
    if a.only:
        tasks = [t for t in tasks if a.only in json.dumps(t)]
    if a.list:
        for t in tasks:
            print(json.dumps(t))
        return 0
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
             if k["property"] == a.prop]
    budget = float(os.environ.get("VERIF_BUDGET", "600" if a.tier == "quick" else "780"))
    limit = 150 if a.tier == "quick" else 300
    from symwave.pool import run_all
    results, notrun = run_all([(a.prop, h, c, seed, a.tier, limit, known) for h, c in tasks],
                              a.jobs, t0 + budget)
    return report(a, results, notrun, known, tasks, seed, t0)


def report(a, results, notrun, known, tasks, seed, t0):
    out = os.path.join(HERE, "out")
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tot = {}
    ops, funcs, modes, samples = {}, set(), {}, []
    bounds = {}
    status = {"ok": 0, "violation": 0, "inconclusive": 0}
    seen_known = set()
    viol = []
    incon = []
    fallback = []
    for r in results:
        status[r["status"]] += 1
        modes[r["mode"]] = modes.get(r["mode"], 0) + 1
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        if r["stats"].get("sample") and len(samples) < 3:
            samples.append({"harness": r["harness"], "config": r["cfg"], "query": r["stats"]["sample"][:700]})
        for k, v in r["ops"].items():
            ops[k] = ops.get(k, 0) + v
        funcs.update(r["functions"])
        for n, (lo, hi) in r["stats"].get("bounds", {}).items():
            b = bounds.setdefault(r["harness"], {}).setdefault(n, [lo, hi])
            b[:] = [min(b[0], lo), max(b[1], hi)]
        seen_known.update(r["known"])
        if r["status"] == "violation":
            viol.append(r)
        elif r["status"] == "inconclusive":
            incon.append({"harness": r["harness"], "config": r["cfg"], "why": r["label"] + " " + r["detail"]})
        if r["mode"] == "fallback":
            fallback.append({"harness": r["harness"], "config": r["cfg"], "why": r["note"][:300]})
    shown = 0
    for n, r in enumerate(viol):
        path = os.path.join(out, f"{a.prop}-{n}.json")
        json.dump({"property": a.prop, "harness": r["harness"], "cfg": r["cfg"], "label": r["label"],
                   "detail": r["detail"], "values": r["values"]}, open(path, "w"))
        if shown < 5:
            shown += 1
            print(f"VIOLATION property={a.prop} replay={path}")
            print(f"  {r['harness']} {json.dumps(r['cfg'])}: {r['label']}: {r['detail']}"[:600])
    for n in sorted(seen_known):
        print(f"KNOWN-FINDING: property={a.prop} {known[n]['what']}")
    wall = time.time() - t0
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "other", "wall_s": round(wall, 2), "violations": len(viol),
        "assumptions": [
            "arithmetic is over the reals with 160-bit fixed point coefficients and tracked error; "
            "float rounding of the executed arithmetic is outside the claim",
            "data entries range over [-1,1] (all reals by linearity where the assertion is linear)",
            "torch data-movement kernels, pywt filter tables and the solver are trusted",
        ] + (["sizes: torch's own shape functions (fake tensors) give the shapes its kernels give; every explored "
              "path is also run with real tensors at a sample point and must state the same claims",
              "sizes: pywt.dwt_max_level, pywt.swt_max_level and log2 are replaced by integer models compared with "
              "the originals over their range at start-up; the boundary-matrix constructors by their shapes"] if bounds else []),
        "coverage": {
            "explanation": "Symbolic execution of the real ptwt functions on tensors of symbolic reals; every "
                           "assertion is a negated SMT query decided by z3 for all data values, per configuration "
                           "listed in the harness (shapes, wavelets, modes, levels, axes are the bounds)."
                           + (" Configurations in mode symbolic-sizes run the real functions on tensors whose sizes are "
                              "symbolic integers within size_bounds; every branch condition is recorded, z3 decides each "
                              "claim under it for all sizes and a coverage query shows that the paths exhaust the bounds."
                              if bounds else ""),
            "size_bounds": bounds,
            "configurations": len(tasks), "configurations_decided": status["ok"] + status["violation"],
            "configurations_not_run": len(notrun), "inconclusive": incon[:40],
            "execution_modes": modes, "fallback": fallback[:20],
            "paths": tot.get("paths", 0),
            "obligations": tot.get("obligations", 0), "discharged": tot.get("discharged", 0),
            "queries": tot.get("queries", 0), "solver_s": round(tot.get("solver_s", 0), 2),
            "query_terms": tot.get("terms", 0),
            "vacuity_twins_refuted": tot.get("canary", 0),
            "sample_point_validations": tot.get("witness", 0), "second_solver_queries": tot.get("cvc5", 0),
            "functions_encoded": sorted(funcs), "torch_operations": ops, "samples": samples,
            "known_findings_seen": len(seen_known), "harnesses": sorted({r["harness"] for r in results}),
        },
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1, default=str)
    print(f"{a.prop} {a.tier}: {len(tasks)} configurations {status}, {len(notrun)} not run, "
          f"{tot.get('discharged', 0)}/{tot.get('obligations', 0)} obligations, {tot.get('queries', 0)} queries, "
          f"solver {tot.get('solver_s', 0):.1f}s, modes {modes}, wall {wall:.1f}s")
    if os.environ.get("VERIF_TIMES"):
        for r in sorted(results, key=lambda r: -r["wall"]):
            print(f"  {r['wall']:7.1f}s paths {r['stats'].get('paths')} q {r['stats'].get('queries')} {r['status']} {r['harness']} {json.dumps(r['cfg'])}")
    for i in incon[:5]:
        print("  inconclusive:", i["harness"], json.dumps(i["config"]), i["why"][:300])
    for i in fallback[:5]:
        print("  fallback:", i["harness"], json.dumps(i["config"]), i["why"][:300])
    return 1 if viol else 0


def replay(a, check, harness):
    d = json.load(open(a.replay))
    h = harness.HARNESSES[d["harness"]]
    if getattr(h, "sizes", False):
        from symwave import shapes
        bad, _, point = shapes.concrete(h, d["cfg"], d["values"])
        for label, det in bad[:10]:
            print("  ", label, point, det)
        print(f"VIOLATION property={d['property']} replay={a.replay}" if bad else "does not reproduce")
        return 1 if bad else 0
    c, e = check.concrete_run(harness.HARNESSES[d["harness"]], d["cfg"], d["values"], 1)
    bad = c.failures()
    if e is not None:
        print(f"VIOLATION property={d['property']} replay={a.replay}")
        print("  raised", type(e).__name__, e)
        return 1
    for label, idx, det in bad[:10]:
        print("  ", label, idx, det)
    if bad:
        print(f"VIOLATION property={d['property']} replay={a.replay}")
        return 1
    print("does not reproduce")
    return 0


if __name__ == "__main__":
    import tempfile
    sys.pycache_prefix = tempfile.gettempdir() + "/symwave-pyc"
    sys.exit(main())
