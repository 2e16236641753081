"""Check that the tools the checks need are importable; builds nothing."""
import sys
sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import torch, numpy, pywt, z3, cvc5  # noqa: E401,F401,E402
s = z3.Solver()
s.from_string("(declare-const x Real)(assert (> x 1.0))(assert (< x 1.0))")
assert s.check() == z3.unsat
print("torch", torch.__version__, "z3", z3.get_version_string(), "cvc5", cvc5.__version__)
