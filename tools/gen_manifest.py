"""Write MANIFEST.json from the harness registry."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ["/repo/src", HERE]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import harness
NA = {"C25": "Compiled (scripted, torch.compile) execution, GPU kernels and floating point rounding of torch kernels are outside "
             "any symbolic encoding available here: the compiler/CUDA code is not reachable and float arithmetic of "
             "library kernels cannot be bit-blasted within reach; the checks argue over exact reals."}
NOTE = ("Bounded: for every listed configuration (shape, wavelet, mode, level, axes, dtype) the solver decides the "
        "assertion for all data values; shapes and wavelets are enumerated, not symbolic. Trusts torch's data-movement "
        "kernels, pywt's filter tables, the form arithmetic (validated against real runs at sample points in every "
        "configuration) and z3.")
SIZES = ("symbolic execution of the real torch code on tensors with symbolic sizes; path conditions and claims decided by z3 (LIA/NIA)",
         "Bounded: sizes (and often the filter length) are symbolic within the bounds reported in the evidence (size_bounds); "
         "transforms, modes, levels and axes are enumerated. Real code runs on torch fake tensors; every path is replayed on "
         "real tensors at a sample point; a coverage query shows the paths exhaust the bounds. Models: pywt.dwt_max_level, "
         "swt_max_level, log2 (validated), shapes of the boundary matrices.")
SPECIAL = {"C21": SIZES, "C22": SIZES, "C23": SIZES}
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif p in harness._CONFIGS:
        t, n = SPECIAL.get(p, ("symbolic execution of the real torch code on symbolic data + SMT (z3, linear real arithmetic)", NOTE))
        checks.append({"property": p, "quick_cmd": f"/opt/venv/bin/python checks/run.py {p}",
                       "thorough_cmd": f"/opt/venv/bin/python checks/run.py {p} --tier thorough",
                       "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": p, "reason": "no check yet (under construction)"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python checks/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Each check imports /repo/src directly."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
