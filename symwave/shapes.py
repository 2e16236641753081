"""Symbolic tensor sizes: the real code runs on fake tensors whose dimensions are symbolic
integers (torch's FakeTensorMode + ShapeEnv); every comparison of sizes the code makes is
recorded as a path condition, z3 decides the claims on each path for all sizes, and z3 asks
for sizes not covered by any explored path until none are left within the bounds.

Calls into compiled helpers that only accept machine integers (pywt.dwt_max_level,
pywt.swt_max_level, numpy.log2 of a ratio) are replaced by exact models, which are compared
with the originals over a grid before use.
"""
from __future__ import annotations

import fractions
import logging
import operator
import random
import time

import numpy as np
import pywt
import torch
import z3

from . import bits


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Skip(Exception):
    """The sizes do not satisfy the assumptions of the harness."""


# ------------------------------------------------------------------------------------
# sympy -> z3
# ------------------------------------------------------------------------------------
def to_z3(e, env, memo):
    if e in memo:
        return memo[e]
    r = _to_z3(e, env, memo)
    memo[e] = r
    return r


def _fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def _to_z3(e, env, memo):
    import sympy
    name = type(e).__name__
    if e is sympy.true or e is True:
        return z3.BoolVal(True)
    if e is sympy.false or e is False:
        return z3.BoolVal(False)
    if isinstance(e, int):
        return z3.IntVal(e)
    if e.is_Integer:
        return z3.IntVal(int(e))
    if e.is_Rational:
        return z3.Q(int(e.p), int(e.q))
    if e.is_Float:
        return z3.RealVal(repr(float(e)))
    if isinstance(e, sympy.Symbol):
        if e.name not in env:
            raise Unsupported(f"unknown size symbol {e}")
        return env[e.name]
    a = [to_z3(x, env, memo) for x in e.args]
    if name == "Add":
        return z3.Sum(*a) if len(a) > 1 else a[0]
    if name == "Mul":
        return z3.Product(*a) if len(a) > 1 else a[0]
    if name in ("Pow", "PowByNatural"):
        k = e.args[1]
        if k.is_Integer and 0 <= int(k) <= 8:
            return _fold(lambda p, q: p * q, [a[0]] * int(k)) if int(k) else z3.IntVal(1)
        b = e.args[0]
        raise Unsupported(f"power {e} {b}")
    if name in ("FloorDiv", "CleanDiv"):
        if e.args[1].is_Integer and int(e.args[1]) > 0:
            return a[0] / a[1]
        # floor division for any sign of the divisor
        return z3.If(a[1] > 0, a[0] / a[1], (-a[0]) / (-a[1]))
    if name in ("Mod", "PythonMod"):
        if e.args[1].is_Integer and int(e.args[1]) > 0:
            return a[0] % a[1]
        return a[0] - a[1] * z3.If(a[1] > 0, a[0] / a[1], (-a[0]) / (-a[1]))
    if name == "Max":
        return _fold(lambda p, q: z3.If(p >= q, p, q), a)
    if name == "Min":
        return _fold(lambda p, q: z3.If(p <= q, p, q), a)
    if name == "Abs":
        return z3.If(a[0] >= 0, a[0], -a[0])
    if name == "Equality":
        return a[0] == a[1]
    if name == "Unequality":
        return a[0] != a[1]
    if name == "LessThan":
        return a[0] <= a[1]
    if name == "StrictLessThan":
        return a[0] < a[1]
    if name == "GreaterThan":
        return a[0] >= a[1]
    if name == "StrictGreaterThan":
        return a[0] > a[1]
    if name == "And":
        return z3.And(*a)
    if name == "Or":
        return z3.Or(*a)
    if name == "Not":
        return z3.Not(a[0])
    if name in ("IntTrueDiv", "FloatTrueDiv"):
        return z3.ToReal(a[0]) / z3.ToReal(a[1]) if z3.is_int(a[0]) and z3.is_int(a[1]) else a[0] / a[1]
    if name == "ToFloat":
        return z3.ToReal(a[0]) if z3.is_int(a[0]) else a[0]
    if name in ("TruncToInt",):
        return z3.If(a[0] >= 0, z3.ToInt(a[0]), -z3.ToInt(-a[0]))
    if name in ("FloorToInt",):
        return z3.ToInt(a[0])
    if name in ("CeilToInt", "ceiling"):
        return -z3.ToInt(-a[0])
    if name == "Piecewise":
        r = None
        for val, cond in reversed(e.args):
            v, c = to_z3(val, env, memo), to_z3(cond, env, memo)
            r = v if r is None else z3.If(c, v, r)
        return r
    raise Unsupported(f"size expression {name}: {e}")


# ------------------------------------------------------------------------------------
# models of compiled helpers
# ------------------------------------------------------------------------------------
REAL_DWT, REAL_SWT, REAL_LOG2 = pywt.dwt_max_level, pywt.swt_max_level, np.log2


def symbolic(*xs):
    return any(isinstance(x, (torch.SymInt, torch.SymFloat, Log2)) for x in xs)


def dwt_level(n, filter_len):
    """floor(log2(n / (L - 1))), never negative; L < 2 gives 0 (PyWavelets)."""
    if isinstance(filter_len, str):
        filter_len = pywt.Wavelet(filter_len).dec_len
    elif not isinstance(filter_len, (int, torch.SymInt, np.integer)):
        filter_len = filter_len.dec_len
    if filter_len < 2 or n < 1:
        raise ValueError("lengths")
    k = 0
    while (filter_len - 1) * 2 ** (k + 1) <= n:
        k += 1
    return k


def swt_level(n):
    if n < 1:
        return 0
    k = 0
    while n % 2 ** (k + 1) == 0:
        k += 1
    return k


class Log2:
    """log2 of a symbolic ratio; compares and rounds like the real number."""

    def __init__(self, ratio):
        self.ratio = ratio

    def _cmp(self, o, f):
        if isinstance(o, Log2):
            return bool(f(self.ratio, o.ratio))
        v = 2.0 ** float(o)
        q = fractions.Fraction(v).limit_denominator(4096)
        if abs(float(q) - v) < 1e-12 * v:        # the other operand is log2 of this fraction
            return bool(f(self.ratio * q.denominator, float(q.numerator)))
        return bool(f(self.ratio, v))

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __floor__(self):
        k = 0
        if self.ratio >= 1.0:
            while self.ratio >= 2.0 ** (k + 1):
                k += 1
        else:
            k = -1
            while self.ratio < 2.0 ** k:
                k -= 1
        return k

    floor = __floor__

    def __int__(self):
        k = self.__floor__()
        return k if k >= 0 else (k if bool(self.ratio == 2.0 ** k) else k + 1)

    __trunc__ = __int__

    def __ceil__(self):
        k = self.__floor__()
        return k if bool(self.ratio == 2.0 ** k) else k + 1

    def log2(self):
        raise Unsupported("log2 of log2")


def log2(x, *a, **k):
    if isinstance(x, torch.SymInt):
        x = x / 1
    if isinstance(x, torch.SymFloat):
        return Log2(x)
    return REAL_LOG2(x, *a, **k)


def validate_models():
    for n in list(range(1, 140)) + [2 ** k + d for k in range(7, 13) for d in (-1, 0, 1)]:
        assert swt_level(n) == REAL_SWT(n), n
        for m in (2, 3, 4, 5, 6, 8, 10, 16, 20, 38, 62, 102):
            assert dwt_level(n, m) == REAL_DWT(n, m), (n, m)
            assert int(Log2(n / (m - 1))) == int(REAL_LOG2(n / (m - 1))), (n, m)


class _IntType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, k):
        return issubclass(k, int)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            if isinstance(a[0], torch.SymInt):
                return a[0]
            if isinstance(a[0], torch.SymFloat):
                return torch.sym_int(a[0])
            if isinstance(a[0], np.ndarray) and a[0].dtype == object and a[0].ndim == 0:
                return cls(a[0].item())
        return int(*a, **k)


class _Int(metaclass=_IntType):
    """`int` for the modules under test: conversion keeps a symbolic integer symbolic."""


def ptwt_modules():
    import sys
    return [m for n, m in list(sys.modules.items()) if n == "ptwt" or n.startswith("ptwt.")]


def boundary_model(real, two):
    import inspect
    sig = inspect.signature(real)

    def construct(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        n = b.arguments["height"] * b.arguments["width"] if two else b.arguments["length"]
        return torch.empty((n, n), dtype=b.arguments.get("dtype", torch.float64), device=b.arguments.get("device", "cpu"))
    return construct


class Patched:
    def __enter__(self):
        import math
        self.mods = [m for m in ptwt_modules() if "int" not in vars(m)]
        for m in self.mods:
            m.int = _Int
        # boundary matrices of symbolic size: only their shape is known
        self.built = []
        for m in ptwt_modules():
            for name, two in (("construct_boundary_a", 0), ("construct_boundary_s", 0), ("construct_boundary_a2", 1), ("construct_boundary_s2", 1)):
                f = vars(m).get(name)
                if f is not None:
                    self.built.append((m, name, f))
                    setattr(m, name, boundary_model(f, two))
        self.old = (pywt.dwt_max_level, pywt.swt_max_level, np.log2, math.log2, math.floor, np.floor)
        m2, mf, nf = math.log2, math.floor, np.floor
        pywt.dwt_max_level = lambda data_len, filter_len: \
            dwt_level(data_len, filter_len) if symbolic(data_len, filter_len) else REAL_DWT(data_len, filter_len)
        pywt.swt_max_level = lambda n: swt_level(n) if symbolic(n) else REAL_SWT(n)
        np.log2 = log2
        math.log2 = lambda x: log2(x) if symbolic(x) else m2(x)
        np.floor = lambda x, *a, **k: x.__floor__() if isinstance(x, Log2) else nf(x, *a, **k)

    def __exit__(self, *a):
        import math
        for m in self.mods:
            del m.int
        for m, name, f in self.built:
            setattr(m, name, f)
        pywt.dwt_max_level, pywt.swt_max_level, np.log2, math.log2, math.floor, np.floor = self.old


# ------------------------------------------------------------------------------------
# contexts
# ------------------------------------------------------------------------------------
def out_of_memory(e):
    return isinstance(e, MemoryError) or "allocate" in str(e) and "memory" in str(e)


class SizeCtx:
    """Concrete sizes and real tensors; claims are evaluated directly."""

    symbolic = False

    def __init__(self, values):
        self.values = values
        self.sizes = {}
        self.claims = []

    def size(self, name, lo, hi):
        self.sizes[name] = (lo, hi)
        v = int(self.values.get(name, lo))
        return v

    def assume(self, cond):
        if not bool(cond):
            raise Skip

    def tensor(self, shape, dtype=torch.float64, device="cpu"):
        shape = tuple(int(s) for s in shape)
        return torch.ones(shape, dtype=dtype, device=device)

    def attempt(self, fn):
        try:
            return "ok", fn()
        except (Unsupported, Skip, Budget, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ == "ProofTimeout":
                raise
            if out_of_memory(e):
                raise MemoryError(str(e)[:200])
            return "error", e

    def claim(self, label, cond, detail=""):
        self.claims.append((label, bool(cond), str(detail)))

    def fails(self):
        return [(a, d) for a, ok, d in self.claims if not ok]


class SymSizeCtx(SizeCtx):
    symbolic = True

    def __init__(self, values, mode, env):
        super().__init__(values)
        self.mode = mode
        self.env = env
        self.syms = {}
        self.ints = {}

    def size(self, name, lo, hi):
        from torch._dynamo.source import ConstantSource
        from torch.fx.experimental.symbolic_shapes import DimDynamic
        if name in self.ints:
            return self.ints[name]
        self.sizes[name] = (lo, hi)
        h = int(self.values.get(name, lo))
        src = ConstantSource("size_" + name)
        sym = self.env.create_symbol(h, src, dynamic_dim=DimDynamic.DYNAMIC, constraint_dim=None, do_not_specialize_zero_one=True)
        s = self.env.create_symintnode(sym, hint=h, source=src)
        self.syms[name] = s.node._expr.name
        self.ints[name] = s
        return s

    def tensor(self, shape, dtype=torch.float64, device="cpu"):
        return torch.empty(tuple(shape), dtype=dtype, device=device)

    def claim(self, label, cond, detail=""):
        if isinstance(cond, torch.SymBool):
            cond = cond.node.expr
        else:
            cond = bool(cond)
        self.claims.append((label, cond, str(detail)))


class RealConstants(torch.overrides.TorchFunctionMode):
    """Tensors built from plain numbers stay real until they meet a fake tensor."""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        from torch._subclasses.fake_tensor import FakeTensor, unset_fake_temporarily
        kwargs = kwargs or {}
        flat = torch.utils._pytree.tree_leaves((args, kwargs))
        ts = [t for t in flat if isinstance(t, torch.Tensor)]
        sym = any(isinstance(x, (torch.SymInt, torch.SymFloat, torch.SymBool)) for x in flat)
        if not sym and not any(isinstance(t, FakeTensor) for t in ts) and (ts or func in (torch.tensor, torch.as_tensor)):
            with unset_fake_temporarily():
                return func(*args, **kwargs)
        if func is torch.sparse.mm and any(isinstance(t, FakeTensor) for t in ts):
            return torch.matmul(*args)
        if func in (torch.reshape, torch.Tensor.reshape) and ts and isinstance(ts[0], FakeTensor) and ts[0] is args[0]:
            shape = kwargs.get("shape", args[1:])
            if len(shape) == 1 and not isinstance(shape[0], (int, torch.SymInt)):
                shape = shape[0]
            r = fast_reshape(args[0], list(shape))
            if r is not None:
                return r
        return func(*args, **kwargs)


def fast_reshape(t, shape):
    """Same sizes and errors as reshape, without asking about memory layout."""
    at = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if len(at) > 1 or any(isinstance(s, int) and s < -1 for s in shape):
        return None
    n = 1
    for s in t.shape:
        n = n * s
    m = 1
    for i, s in enumerate(shape):
        if i not in at:
            m = m * s
    if at:
        if not m:
            return None
        q = n // m
        # cancel common factors so that sizes stay simple
        rest = list(t.shape)
        for i, s in enumerate(shape):
            if i not in at:
                k = next((j for j, r in enumerate(rest) if r is s or (isinstance(r, torch.SymInt) and isinstance(s, torch.SymInt)
                          and r.node._expr == s.node._expr) or (isinstance(r, int) and isinstance(s, int) and r == s)), None)
                if k is None:
                    break
                rest.pop(k)
        else:
            q = 1
            for r in rest:
                q = q * r
        shape[at[0]] = q
        m = m * q
    if m != n:
        raise RuntimeError(f"shape '{shape}' is invalid for input of size {n}")
    return torch.empty(tuple(shape), dtype=t.dtype, device=t.device)


def preload():
    """Import torch's symbolic-shape machinery before the workers are forked."""
    def h(c):
        n = c.size("n", 1, 4)
        t = c.tensor([n, 3], torch.float32)
        torch.nn.functional.conv_transpose1d(torch.nn.functional.pad(t[None], [1, 1]), t[:, None, :2].transpose(0, 0).expand(3, 1, 2))
        torch.stack([t.reshape(-1, 3), t + 1]).split(1)
    try:
        one_path(h, {}, {"n": 3})
    except Exception:  # noqa: BLE001
        pass
    validate_models()


ENV = []


def recording_env():
    """ShapeEnv that answers every comparison from the sample sizes and records it; no
    simplification by torch, the solver judges the recorded conditions."""
    if ENV:
        return ENV[0]
    import sympy
    from torch.fx.experimental.symbolic_shapes import ShapeEnv

    class Env(ShapeEnv):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.recorded = {}

        def _evaluate_expr(self, orig_expr, hint=None, *a, **k):
            e = orig_expr
            if e is sympy.true or e is sympy.false or e.is_number:
                return e
            if e in self.recorded:
                return self.recorded[e]
            v = sympy.sympify(hint) if hint is not None else sympy.sympify(self.guarding_hint_or_throw(e))
            self.recorded[e] = v
            return v
    ENV.append(Env)
    return Env


def one_path(h, cfg, values):
    """Run h on fake tensors; returns (ctx, guards, skipped)."""
    from torch._dispatch.python import enable_python_dispatcher
    from torch._subclasses.fake_tensor import FakeTensorMode
    from torch.fx.experimental.symbolic_shapes import ShapeEnv
    logging.getLogger("torch").setLevel(logging.CRITICAL)
    logging.getLogger("torch._subclasses.fake_tensor").setLevel(logging.CRITICAL)
    env = recording_env()(specialize_zero_one=False, duck_shape=False)
    mode = FakeTensorMode(shape_env=env, static_shapes=False, allow_non_fake_inputs=True)
    mode.cache_enabled = False
    c = SymSizeCtx(values, mode, env)
    skipped = False
    with mode, enable_python_dispatcher(), Patched(), RealConstants():
        try:
            h(c, **cfg)
        except Skip:
            skipped = True
    import sympy
    guards = [e if v is sympy.true else sympy.Not(e, evaluate=False) if v is sympy.false else sympy.Eq(e, v, evaluate=False)
              for e, v in env.recorded.items()]
    guards += [g.expr for g in env.guards]
    guards += [r.expr for rs in env.deferred_runtime_asserts.values() for r in rs]
    return c, guards, skipped


def holds(e, point):
    """Truth of a z3 expression at integer values."""
    return z3.is_true(z3.simplify(z3.substitute(e, *[(z3.Int(n), z3.IntVal(v)) for n, v in point.items()])))


def concrete(h, cfg, values):
    """Real code, real tensors: (failing claims, context, sizes)."""
    real = SizeCtx(values)
    try:
        h(real, **cfg)
    except Skip:
        pass
    except (Unsupported, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001 - behaviour of the real code
        if type(e).__name__ == "ProofTimeout":
            raise
        if out_of_memory(e):
            raise MemoryError(str(e)[:200])
        real.claims.append(("exception", False, f"{type(e).__name__}: {e}"))
    point = {n: int(values.get(n, lo)) for n, (lo, hi) in real.sizes.items()}
    return real.fails(), real, point


def run_points(h, cfg, stats, seed, deadline, count=120):
    """Fallback when sizes cannot be made symbolic (reported as such): concrete sizes only."""
    rng = random.Random(seed)
    values = {}
    for k in range(count):
        if time.time() > deadline:
            break
        bad, real, point = concrete(h, cfg, values)
        if bad:
            return "violation", bad[0][0], f"sizes {point}: {bad[0][1]}", point
        values = {n: rng.choice((lo, hi, rng.randint(lo, hi), rng.randint(lo, min(hi, lo + 8)), rng.randint(lo, min(hi, lo + 20))))
                  for n, (lo, hi) in real.sizes.items()}
    return "inconclusive", "sizes cannot be symbolic", "", None


def run_sizes(h, cfg, stats, seed, deadline, max_paths=400):
    """Decide every claim of h for all sizes within the declared bounds.

    Returns (status, label, detail, values)."""
    validate_models()
    rng = random.Random(seed)
    values = {}
    dom = None
    covered = z3.Solver()
    covered.set("timeout", 10000)
    by_bits = False
    info = {"bounds": {}, "paths": 0, "skipped": 0}
    stats.info = info
    first = True
    while True:
        if time.time() > deadline:
            return "inconclusive", f"path budget after {stats.paths} paths", "", None
        if not first:
            t = time.time()
            r = covered.check() if not by_bits else z3.unknown
            values = None
            if r == z3.unknown:         # the same question over bit-vectors
                by_bits = True
                r, values = bits.solve(covered.assertions(), dom, 60000)
                r = {"sat": z3.sat, "unsat": z3.unsat}.get(r, z3.unknown)
            stats.queries += 1
            stats.solver_s += time.time() - t
            if r == z3.unknown:
                return "inconclusive", "solver unknown (coverage)", "", None
            if r == z3.unsat:
                return "ok", "", "", None
            if values is None:
                m = covered.model()
                values = {}
                for n, (lo, hi) in dom.items():
                    v = m[z3.Int(n)]
                    values[n] = v.as_long() if v is not None else rng.randint(lo, hi)
        if stats.paths + info["skipped"] >= max_paths:
            return "inconclusive", f"more than {max_paths} paths", "", None
        bad, real, point = concrete(h, cfg, values)
        stats.witness += 1
        if bad:
            return "violation", bad[0][0], f"sizes {point}: {bad[0][1]}", point
        try:
            c, guards, skipped = one_path(h, cfg, values)
        except (Unsupported, Budget):
            raise
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ == "ProofTimeout":
                raise
            raise Unsupported(f"symbolic run raised {type(e).__name__}: {e}")
        if dom is None:
            dom = dict(c.sizes)
            for n, (lo, hi) in dom.items():
                covered.add(z3.Int(n) >= lo, z3.Int(n) <= hi)
                if hi - lo <= 64:       # implied; lets z3 split on the value instead of on quotients
                    covered.add(z3.Or([z3.Int(n) == v for v in range(lo, hi + 1)]))
            info["bounds"] = {n: list(b) for n, b in dom.items()}
        elif dom != c.sizes:
            raise Unsupported("size declarations depend on the path")
        first = False
        sym = {c.syms[n]: z3.Int(n) for n in c.syms}
        memo = {}
        pc = [to_z3(g, sym, memo) for g in guards]
        for g, e in zip(guards, pc):
            if not holds(e, point):
                raise Unsupported(f"recorded path condition {g} is false at {point}")
        if skipped:
            info["skipped"] += 1
            covered.add(z3.Not(z3.And(*pc)) if pc else z3.BoolVal(False))
            continue
        stats.paths += 1
        info["paths"] = stats.paths
        # the symbolic run agrees with the real one at the sample point
        if [x[0] for x in real.claims] != [x[0] for x in c.claims]:
            raise Unsupported(f"symbolic and concrete runs state different claims at {point}: "
                              f"{[x for x in c.claims if x[0] not in {y[0] for y in real.claims}][:3]}")
        for label, cond, detail in c.claims:
            e = z3.BoolVal(cond) if isinstance(cond, bool) else to_z3(cond, sym, memo)
            stats.obligations += 1
            if not holds(e, point):
                raise Unsupported(f"claim {label} fails only symbolically at {point}")
            s = z3.Solver()
            s.set("timeout", 20000)
            for n, (lo, hi) in dom.items():
                s.add(z3.Int(n) >= lo, z3.Int(n) <= hi)
            s.add(*pc)
            if stats.canary == 0:
                s.push()
                s.add(e)
                t = time.time()
                assert s.check() == z3.sat, "path is infeasible"
                stats.queries += 1
                stats.solver_s += time.time() - t
                stats.canary += 1
                s.pop()
            s.add(z3.Not(e))
            t = time.time()
            r = s.check()
            v = None
            if r == z3.unknown:
                r, v = bits.solve(s.assertions(), dom, 60000)
                r = {"sat": z3.sat, "unsat": z3.unsat}.get(r, z3.unknown)
            stats.queries += 1
            stats.solver_s += time.time() - t
            stats.terms += len(pc)
            if stats.sample is None and r == z3.unsat and not isinstance(cond, bool):
                stats.sample = f"{' & '.join(map(str, guards[:6]))} => {cond} : valid"
            if r == z3.unsat:
                stats.discharged += 1
                continue
            if r == z3.unknown:
                return "inconclusive", f"solver unknown at {label}", "", None
            if v is None:
                m = s.model()
                v = {n: (m[z3.Int(n)].as_long() if m[z3.Int(n)] is not None else point[n]) for n in dom}
            bad, _, v = concrete(h, cfg, v)
            if bad:
                return "violation", bad[0][0], f"sizes {v}: {bad[0][1]}", v
            raise Unsupported(f"counterexample {v} of {label} does not replay")
        covered.add(z3.Not(z3.And(*pc)) if pc else z3.BoolVal(False))
