"""Contexts, solver queries, replay and evidence for the checks.

A *harness* is a function h(ctx, **cfg) that calls the real code on tensors obtained from
ctx.inp and states assertions with ctx.equal / ctx.check.  The same harness runs

* under SymCtx: tensors hold symbols, assertions become solver queries over all values;
* under ConcCtx: tensors hold floats, used to replay counterexamples against the real code
  under plain torch and to validate the symbolic run at a sample point.
"""
from __future__ import annotations

import json
import math
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import torch
import z3

from . import forms as F
from . import symtensor as S
from .forms import ONE, SH, Form

PTWT_DIR = None
MONITORED: set[str] = set()


class ProofTimeout(Exception):
    pass


# ------------------------------------------------------------------------------------
# execution monitoring: which functions of the real code were executed
# ------------------------------------------------------------------------------------
def start_monitoring(directory):
    global PTWT_DIR
    PTWT_DIR = os.path.realpath(directory)
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "symwave")
    except ValueError:
        return

    def on_start(code, off):
        fn = code.co_filename
        if PTWT_DIR and fn.startswith(PTWT_DIR):
            MONITORED.add(os.path.basename(fn) + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)


def reset_monitoring():
    MONITORED.clear()
    try:
        sys.monitoring.restart_events()
    except Exception:
        pass


# ------------------------------------------------------------------------------------
# contexts
# ------------------------------------------------------------------------------------
TOL = {torch.float64: 1e-9, torch.complex128: 1e-9, torch.float32: 1e-4, torch.complex64: 1e-4}


QUERY_STATS = None
SCALE = 1.0         # inputs range over [-SCALE, SCALE]; tolerances scale along (a power of two)
SCALES = (2.0 ** 40, 2.0 ** -40)


class Failed(Exception):
    """A concrete (data independent) assertion failed."""


class Ctx:
    symbolic = False

    def __init__(self):
        self.obs = []          # (label, got Form, want Form, tol)
        self.facts = []        # (label, bool, detail)
        self.inputs = {}       # name -> (shape, dtype)

    # -- assertions --------------------------------------------------------------
    def check(self, label, cond, detail=""):
        """A fact that does not depend on the data."""
        self.facts.append((label, bool(cond), str(detail)))
        return bool(cond)

    def equal(self, label, got, want, tol=None, crop=None):
        """got (tensor) equals want (array of forms/numbers or tensor), entry by entry."""
        if tol is None:
            tol = TOL.get(got.dtype, 1e-9) if isinstance(got, torch.Tensor) else 1e-9
        g = self.forms(got)
        w = self.forms(want)
        gs, ws = (g[0].shape, w[0].shape)
        if not self.check(label + ":shape", tuple(gs) == tuple(ws), f"{tuple(gs)} expected {tuple(ws)}"):
            return False
        zero = F.ZERO
        for part in range(2):
            gp, wp = g[part], w[part]
            if gp is None and wp is None:
                continue
            for idx in np.ndindex(*gs):
                a = zero if gp is None else gp[idx]
                b = zero if wp is None else wp[idx]
                self.obs.append((label, idx, a, b, tol * SCALE))
        return True

    def forms(self, x):
        """(real, imag) object arrays of forms."""
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], np.ndarray):
            return x
        if isinstance(x, torch.Tensor):
            if getattr(x, "is_sparse", False):
                x = x.to_dense()
            if S.is_sym(x):
                if x.dtype.is_complex:
                    re, im = S.split_ids(x.ids)
                    return S.engine().arr(re), S.engine().arr(im)
                return S.engine().arr(x.ids), None
            x = x.detach().resolve_conj().cpu()
            if x.is_complex():
                return num(x.real), num(x.imag)
            return num(x), None
        x = np.asarray(x)
        if x.dtype != object:
            if np.iscomplexobj(x):
                return num(x.real), num(x.imag)
            return num(x), None
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = F.const(x[i])
        return out, None

    def arr(self, x):
        """object array of forms of a real tensor."""
        return self.forms(x)[0]

    def valid(self, label, negation, show=None, timeout=120000):
        """No model satisfies the negated claim (a list of z3 expressions)."""
        t = time.time()
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*negation)
        r = s.check()
        if QUERY_STATS is not None and self.symbolic:
            QUERY_STATS.queries += 1
            QUERY_STATS.solver_s += time.time() - t
        if r == z3.unknown:
            raise ProofTimeout(f"solver unknown at {label}")
        detail = "" if r == z3.unsat else f"counterexample {s.model()}" if show is None else show(s.model())
        return self.check(label, r == z3.unsat, detail)

    def raises(self, label, fn, exc=Exception):
        try:
            r = fn()
        except (S.Unsupported, S.NeedFactories):
            raise
        except exc as e:
            self.check(label, True)
            return e
        except Exception as e:
            self.check(label, False, f"raised {type(e).__name__}: {e} instead of {exc}")
            return e
        self.check(label, False, f"no error; returned {type(r).__name__}")
        return None


def num(x):
    x = np.asarray(x.tolist() if isinstance(x, torch.Tensor) else x, dtype=object)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        v = x[i]
        if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
            v = 1e30
        out[i] = F.const(v)
    return out


class SymCtx(Ctx):
    symbolic = True

    def inp(self, name, shape, dtype=torch.float64, requires_grad=False):
        E = S.engine()
        shape = tuple(int(s) for s in shape)
        n = int(np.prod(shape)) if shape else 1
        k = int(Fraction(SCALE) * ONE)
        ids = [float(E.new(F.lincomb([(k, F.symbol(f"{name}_{i}"))]))) for i in range(n)]
        first = None if not n else next(iter(E.terms[int(ids[0])].c))
        self.inputs[name] = (shape, dtype, first)
        return S.wrap(torch.tensor(ids, dtype=torch.float64).reshape(shape), dtype)


class ConcCtx(Ctx):
    """values: name -> flat list of floats (missing names are drawn from rng)."""

    def __init__(self, values=None, rng=None):
        super().__init__()
        F.reset()
        self.values = values or {}
        self.rng = rng or random.Random(0)
        self.used = {}

    def inp(self, name, shape, dtype=torch.float64, requires_grad=False):
        shape = tuple(int(s) for s in shape)
        n = int(np.prod(shape)) if shape else 1
        v = self.values.get(name)
        if v is None:
            v = [SCALE * self.rng.uniform(-1, 1) for _ in range(n)]
        v = list(v)
        t = torch.tensor(v, dtype=torch.float64).reshape(shape).to(dtype)
        self.inputs[name] = (shape, dtype, None)
        self.used[name] = [float(q) for q in t.to(torch.float64).flatten().tolist()]
        return t

    def failures(self):
        """Failing facts and assertions of this concrete run."""
        out = [(lb, None, d) for lb, ok, d in self.facts if not ok]
        for label, idx, g, w, tol in self.obs:
            d = abs(g.to_float() - w.to_float())
            if not d <= tol * 0.999:
                out.append((label, idx, f"got {g.to_float()!r} want {w.to_float()!r} (tolerance {tol:g})"))
        return out


# ------------------------------------------------------------------------------------
# solver
# ------------------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.paths = 0
        self.witness = 0
        self.canary = 0
        self.unknown = 0
        self.nonlinear = 0
        self.terms = 0
        self.cvc5 = 0
        self.sample = None


def emit(form, tol_int, used, k):
    """SMT terms of a form in units of 2**-k (nearest); the rounding goes to err."""
    box = F.SPACE.box
    err = form.err
    terms = []
    n = len(form.c)
    small = tol_int // (8 * n) if n else 0
    drop = SH - k
    half = 1 << (drop - 1)
    for m, v in form.c.items():
        b = ONE if m == 0 else box.get(m, ONE)
        if m:
            mass = (abs(v) * b >> SH) + 1
            if mass < small:
                err += mass
                continue
        q = (v + half) >> drop
        r = abs(v - (q << drop))
        if r:
            err += r if b == ONE else (r * b >> SH) + 1
        if not q:
            continue
        if m == 0:
            terms.append(str(q) if q >= 0 else f"(- {-q})")
        else:
            used.add(m)
            terms.append(f"(* {q} v{m})" if q >= 0 else f"(* (- {-q}) v{m})")
    return terms, err


def unit_bits(obs):
    n = max(len(o[2].c) + len(o[3].c) for o in obs) + 1
    t = min(o[4] for o in obs)
    return min(120, max(8, math.ceil(math.log2(16 * n / t))))


def sum_(terms):
    return "0" if not terms else terms[0] if len(terms) == 1 else "(+ " + " ".join(terms) + ")"


def real(n):
    """SMT real constant n * 2**-SH."""
    return S.smt_num(n)


def declare(used, extra, nonlinear=False):
    """declarations and bounds for monomials `used` (closure over side constraints)."""
    sp = F.SPACE
    lines = []
    need = set(used)
    for txt in extra:
        for tok in txt.replace("(", " ").replace(")", " ").split():
            if tok[0] == "v" and tok[1:].isdigit():
                need.add(int(tok[1:]))
    if nonlinear:
        for m in list(need):
            need.update(sp.factors[m])
    defs = []
    for m in sorted(need):
        lines.append(f"(declare-const v{m} Real)")
        if nonlinear and sp.deg[m] > 1:
            defs.append(f"(assert (= v{m} (* " + " ".join(f"v{f}" for f in sp.factors[m]) + ")))")
        else:
            b = real(sp.box.get(m, ONE))
            lines.append(f"(assert (<= (- {b}) v{m}))(assert (<= v{m} {b}))")
    return lines + defs


def side_closure(txts):
    """All side constraints (they are few; include them all when any extra symbol may matter)."""
    return list(F.SPACE.side)


def z3_solve(text, stats, timeout=60000):
    t = time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    s.from_string(text)
    r = s.check()
    stats.queries += 1
    stats.solver_s += time.time() - t
    if r == z3.sat:
        m = s.model()
        vals = {}
        for d in m.decls():
            nm = d.name()
            if nm[0] == "v" and nm[1:].isdigit():
                v = m[d]
                try:
                    vals[int(nm[1:])] = float(v.as_fraction())
                except Exception:
                    try:
                        vals[int(nm[1:])] = float(v.approx(20).as_fraction())
                    except Exception:
                        pass
        return "sat", vals
    if r == z3.unsat:
        return "unsat", None
    stats.unknown += 1
    return "unknown", None


def cvc5_solve(text, stats):
    import cvc5
    t = time.time()
    tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
    slv = cvc5.Solver(tm) if tm else cvc5.Solver()
    slv.setOption("tlimit-per", "60000")
    parser = cvc5.InputParser(slv)
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic QF_LRA)\n" + text + "\n(check-sat)\n", "q")
    sm = parser.getSymbolManager()
    res = ""
    while True:
        cmd = parser.nextCommand()
        if cmd.isNull():
            break
        res = str(cmd.invoke(slv, sm)).strip() or res
    stats.cvc5 += 1
    stats.solver_s += time.time() - t
    return res


def query_text(obs, pc, scale=1.0, nonlinear=False, perturb=None):
    """Negated assertions: some obligation deviates by more than scale * tol."""
    used = set()
    disj = []
    rnd = []
    k = unit_bits(obs)
    for n, (label, idx, g, w, tol) in enumerate(obs):
        ti = int(Fraction(tol) * ONE)
        gt, ge = emit(g, ti, used, k)
        wt, we = emit(w, ti, used, k)
        e = ((ge + we) >> (SH - k)) + 1          # in units of 2**-k, rounded up
        rnd.append(f"(declare-const r{n} Real)(assert (<= (- {e}) r{n}))(assert (<= r{n} {e}))")
        t = int(Fraction(tol) * Fraction(scale) * (1 << k))
        diff = f"(+ (- {sum_(gt)} {sum_(wt)}) r{n})"
        disj.append(f"(> {diff} {t})")
        disj.append(f"(< {diff} (- {t}))")
    extra = list(pc) + side_closure(None)
    lines = declare(used, extra, nonlinear)
    lines += rnd
    lines += [f"(assert {c})" for c in extra]
    lines.append("(assert (or " + " ".join(disj) + "))")
    return "\n".join(lines)


def chunks(obs, limit=6000):
    cur, n = [], 0
    if any(o[4] > 1e-8 for o in obs):
        limit = 1200        # coefficients differ by rounding: keep the linear programs small
    for o in obs:
        k = len(o[2].c) + len(o[3].c) + 4
        if cur and n + k > limit:
            yield cur
            cur, n = [], 0
        cur.append(o)
        n += k
    if cur:
        yield cur


# ------------------------------------------------------------------------------------
# one task
# ------------------------------------------------------------------------------------
class Outcome:
    def __init__(self, status, label="", detail="", values=None):
        self.status = status        # ok | violation | inconclusive
        self.label = label
        self.detail = detail
        self.values = values


def path_values(model, ctx, rng):
    """name -> floats from a model (unconstrained symbols random)."""
    vals = {}
    for name, (shape, dtype, first) in ctx.inputs.items():
        n = int(np.prod(shape)) if shape else 1
        if first is None:
            vals[name] = [0.0] * n
            continue
        vals[name] = [SCALE * (min(1.0, max(-1.0, model[first + i])) if (first + i) in model else rng.uniform(-1, 1))
                      for i in range(n)]
    return vals


def concrete_run(h, cfg, values=None, seed=0):
    if values and "__scale__" in values:            # replay of a counterexample found at another scale
        with scaled(values["__scale__"]):
            return concrete_run(h, cfg, {n: v for n, v in values.items() if n != "__scale__"}, seed)
    saved = F.SPACE
    eng = S.ENGINE
    try:
        S.ENGINE = None
        c = ConcCtx(values, random.Random(seed))
        h(c, **cfg)
        return c, None
    except Exception as e:  # noqa: BLE001 - behaviour of the real code
        return c, e
    finally:
        F.SPACE = saved
        S.ENGINE = eng


def run_symbolic(h, cfg, stats, seed, factories, detail, deadline, suppress=(), tier="quick"):
    """Explore all paths of h symbolically and decide every assertion."""
    rng = random.Random(seed)
    stack = [[]]
    known = []
    while stack:
        if time.time() > deadline:
            raise ProofTimeout("path budget")
        dec = stack.pop()
        E = S.ENGINE = S.Engine(factories=factories, decisions=dec)
        ctx = SymCtx()
        exc = None
        try:
            with S.SymMode():
                h(ctx, **cfg)
        except (S.Unsupported, S.NeedFactories):
            raise
        except Exception as e:  # noqa: BLE001
            exc = e
            tb = traceback.format_exc()
        taken = E.taken
        for i in range(len(dec), len(taken)):
            stack.append([v for _, v in taken[:i]] + [not taken[i][1]])
        pc = [t if v else f"(not {t})" for t, v in taken]
        for k, v in E.ops.items():
            detail["ops"][k] = detail["ops"].get(k, 0) + v
        # reachability of this path (vacuity witness)
        if pc or F.SPACE.side:
            extra = pc + F.SPACE.side
            txt = "\n".join(declare(set(), extra) + [f"(assert {c})" for c in extra])
            r, model = z3_solve(txt, stats)
            if r == "unsat":
                continue
        else:
            model = {}
        stats.paths += 1
        if exc is not None:
            vals = path_values(model or {}, ctx, rng)
            c, e2 = concrete_run(h, cfg, vals, seed)
            if e2 is not None:
                return Outcome("violation", "exception", f"{type(e2).__name__}: {e2}", c.used), known
            raise S.Unsupported(f"symbolic run raised {type(exc).__name__}: {exc}\n{tb[-800:]}")
        # validation of the symbolic run at a sample point of this path
        if not pc:
            vals = path_values({}, ctx, rng)
            space = F.SPACE
            c, e2 = concrete_run(h, cfg, vals, seed)
            F.SPACE = space
            if e2 is not None:
                return Outcome("violation", "exception", f"{type(e2).__name__}: {e2}", c.used), known
            if [o[:2] for o in c.obs] != [o[:2] for o in ctx.obs] or \
               [f[:2] for f in c.facts] != [f[:2] for f in ctx.facts]:
                raise S.Unsupported("symbolic and concrete runs state different assertions")
            if not space.side and not space.uninit:
                values = {}
                for name, (shape, dtype, first) in ctx.inputs.items():
                    for i, q in enumerate(c.used[name]):
                        values[first + i] = q / SCALE
                for o, oc in zip(ctx.obs, c.obs):
                    g = o[2].evaluate(values)
                    r_ = oc[2].to_float()
                    slack = max(o[4], 1e-9 * SCALE, 4 * float(Fraction(o[2].err, ONE)))
                    if not abs(g - r_) <= slack * (1 + abs(r_) / SCALE):
                        raise S.Unsupported(f"symbolic result {g} differs from the real result {r_} at {o[0]}{o[1]}")
                stats.witness += 1
        # data independent facts
        for label, ok, d in ctx.facts:
            stats.obligations += 1
            if ok:
                stats.discharged += 1
                continue
            hit = suppressed(suppress, cfg, label)
            vals = path_values(model or {}, ctx, rng)
            c, e2 = concrete_run(h, cfg, vals, seed)
            if e2 is not None or any(lb == label and not k for lb, k, _ in c.facts):
                if hit is not None:
                    known.append(hit)
                    stats.obligations -= 1
                    continue
                return Outcome("violation", label, d if e2 is None else f"{type(e2).__name__}: {e2}", c.used), known
            raise S.Unsupported(f"fact {label} fails only symbolically: {d}")
        obs = [o for o in ctx.obs]
        if E.compared or taken:
            detail["compared"] = True
        if SCALE != 1 and any(F.SPACE.deg[m] > 1 or (m == 0 and SCALE < 1) for o in obs for f in (o[2], o[3]) for m in f.c):
            raise S.Unsupported("not linear in the data")
        stats.obligations += len(obs)
        sup = [o for o in obs if suppressed(suppress, cfg, o[0]) is not None]
        if sup:
            obs = [o for o in obs if suppressed(suppress, cfg, o[0]) is None]
            r, _ = z3_solve(query_text(sup, pc), stats)
            if r == "sat":
                known.append(suppressed(suppress, cfg, sup[0][0]))
                stats.obligations -= len(sup)
            elif r == "unsat":
                stats.discharged += len(sup)
        if obs and stats.canary == 0:
            # twin: the same assertion against a shifted spec must be refuted
            o = next((o for o in obs if any(m for m in o[3].c)), obs[0])
            bad = (o[0], o[1], o[2], o[3] + F.const(max(0.125 * SCALE, 8 * o[4])), o[4])
            r, _ = z3_solve(query_text([bad], pc), stats)
            if r != "sat":
                raise S.Unsupported("vacuity twin was not refuted")
            stats.canary += 1
        for ch in chunks(obs):
            if time.time() > deadline:
                raise ProofTimeout("query budget")
            txt = query_text(ch, pc)
            stats.terms += sum(len(o[2].c) + len(o[3].c) for o in ch)
            r, model = z3_solve(txt, stats)
            if r == "unsat" and (tier == "thorough") and stats.cvc5 < 3:
                if cvc5_solve(txt, stats) == "sat":
                    raise S.Unsupported("solvers disagree")
            if r == "unsat":
                stats.discharged += len(ch)
                if stats.sample is None and any(len(o[2].c) > 1 for o in ch):
                    stats.sample = sample_of(ch)
                continue
            if r == "unknown":
                raise ProofTimeout("solver unknown")
            out = refine(h, cfg, ctx, ch, pc, model, stats, seed, rng)
            if out is None:
                stats.discharged += len(ch)
                stats.nonlinear += 1
                continue
            return out, known
    return Outcome("ok"), known


def suppressed(suppress, cfg, label):
    for n, k in enumerate(suppress):
        if all(cfg.get(a) == b for a, b in k.get("config", {}).items()) and label.startswith(k.get("label", "")):
            return n
    return None


def sample_of(ch):
    o = next(o for o in ch if len(o[2].c) > 1)
    return f"not(|{o[2]!r} - {o[3]!r}| <= {o[4]:g}) at {o[0]}{list(o[1])}: unsat"


def refine(h, cfg, ctx, ch, pc, model, stats, seed, rng):
    """A sat answer: find a model that replays on the real code, or refute it."""
    nonlin = any(F.SPACE.deg[m] > 1 for o in ch for f in (o[2], o[3]) for m in f.c)
    cands = []
    for scale in (1e9, 1e7, 1e5, 1e3, 30, 3):
        r, m = z3_solve(query_text(ch, pc, scale=scale), stats, 20000)
        if r == "sat":
            cands.append(m)
            break
    cands.append(model)
    for m in cands:
        vals = path_values(m, ctx, rng)
        c, e = concrete_run(h, cfg, vals, seed)
        if e is not None:
            return Outcome("violation", "exception", f"{type(e).__name__}: {e}", c.used)
        f = c.failures()
        if f:
            return Outcome("violation", f[0][0], f"index {f[0][1]}: {f[0][2]}", c.used)
    # models of the relaxation need not be exact: generic points of the box
    for k in range(6):
        vals = {}
        for name, (shape, dtype, first) in ctx.inputs.items():
            n = int(np.prod(shape)) if shape else 1
            vals[name] = [SCALE * rng.choice((-1.0, 1.0)) * rng.uniform(0.3, 1) for _ in range(n)] if k < 3 else \
                [SCALE * rng.choice((-1.0, 0.0, 1.0)) for _ in range(n)]
        c, e = concrete_run(h, cfg, vals, seed)
        if e is not None:
            return Outcome("violation", "exception", f"{type(e).__name__}: {e}", c.used)
        f = c.failures()
        if f:
            return Outcome("violation", f[0][0], f"index {f[0][1]}: {f[0][2]}", c.used)
    if nonlin:
        for o in ch:
            r, m = z3_solve(query_text([o], pc, nonlinear=True), stats, 30000)
            if r == "sat":
                c, e = concrete_run(h, cfg, path_values(m, ctx, rng), seed)
                if e is not None or c.failures():
                    return Outcome("violation", o[0], "nonlinear model", c.used)
                raise S.Unsupported(f"counterexample at {o[0]} does not replay")
            if r == "unknown":
                raise ProofTimeout("solver unknown (nonlinear)")
        return None
    raise S.Unsupported(f"counterexample at {ch[0][0]} does not replay on the real code")


class scaled:
    """Inputs over [-k, k] instead of [-1, 1]."""

    def __init__(self, k):
        self.k = k

    def __enter__(self):
        global SCALE
        self.old, SCALE = SCALE, self.k

    def __exit__(self, *e):
        global SCALE
        SCALE = self.old


def special_points(sizes, seed):
    """Data an operation outside the encoding may single out: constant, palindromic, alternating,
    rising, sparse; large and small."""
    rng = random.Random(seed)
    half = {n: [rng.uniform(-1, 1) for _ in range((k + 1) // 2)] for n, k in sizes.items()}
    kinds = [lambda n, k: [0.75] * k, lambda n, k: (half[n] + half[n][:k // 2][::-1])[:k], lambda n, k: [(-1.0) ** i for i in range(k)],
             lambda n, k: [i / k for i in range(k)], lambda n, k: [rng.choice((0.0, 0.0, 1.0, -1.0)) for _ in range(k)],
             lambda n, k: [rng.uniform(-1, 1) for _ in range(k)]]
    for s in (1.0, *SCALES):
        for f in kinds:
            yield s, {n: [s * v for v in f(n, k)] for n, k in sizes.items()}


def run_probe(h, cfg, stats, seed, deadline, suppress=()):
    """Fallback when an operation cannot be encoded: recover the affine map of the assertions
    from the real code (value at 0 and at every unit point), confirm affinity at random points,
    then let the solver decide.  Reported separately in the evidence (`fallback`)."""
    known = []
    c0, e = concrete_run(h, cfg, None, seed)
    if e is not None:
        return Outcome("violation", "exception", f"{type(e).__name__}: {e}", c0.used), known
    f = [x for x in c0.failures() if suppressed(suppress, cfg, x[0]) is None]
    if f:
        return Outcome("violation", f[0][0], f"index {f[0][1]}: {f[0][2]}", c0.used), known
    sizes = {n: len(v) for n, v in c0.used.items()}
    zero = {n: [0.0] * k for n, k in sizes.items()}
    cz, e = concrete_run(h, cfg, zero, seed)
    if e is not None:
        return Outcome("violation", "exception", f"{type(e).__name__}: {e}", cz.used), known

    def failing(c):
        f = [x for x in c.failures() if suppressed(suppress, cfg, x[0]) is None]
        return Outcome("violation", f[0][0], f"index {f[0][1]}: {f[0][2]}", c.used) if f else None
    if bad := failing(cz):
        return bad, known
    base = [(o[2].to_float(), o[3].to_float()) for o in cz.obs]
    if [o[:2] for o in cz.obs] != [o[:2] for o in c0.obs]:
        return Outcome("inconclusive", "assertions depend on the data"), known
    F.reset()
    space = F.SPACE
    gf = [{0: F.const_int(b[0])[0]} for b in base]
    wf = [{0: F.const_int(b[1])[0]} for b in base]
    ids = {}
    for n, k in sizes.items():
        for i in range(k):
            if time.time() > deadline:
                raise ProofTimeout("probe budget")
            ids[n, i] = F.SPACE.symbol(f"{n}_{i}")
            v = {a: list(b) for a, b in zero.items()}
            v[n][i] = 1.0
            ci, e = concrete_run(h, cfg, v, seed)
            F.SPACE = space
            if e is not None:
                return Outcome("violation", "exception", f"{type(e).__name__}: {e}", ci.used), known
            if bad := failing(ci):
                return bad, known
            for j, o in enumerate(ci.obs):
                for q, fl, b in ((o[2], gf, base[j][0]), (o[3], wf, base[j][1])):
                    d = q.to_float() - b
                    if d:
                        fl[j][ids[n, i]] = F.const_int(d)[0]
    pts = {m: c0.used[n][i] for (n, i), m in ids.items()}
    ctx = Ctx()
    ctx.inputs = {n: ((k,), None, ids[n, 0] if k else None) for n, k in sizes.items()}
    for j, o in enumerate(c0.obs):
        g, w = Form({m: v for m, v in gf[j].items() if v}), Form({m: v for m, v in wf[j].items() if v})
        if abs(g.evaluate(pts) - o[2].to_float()) > max(o[4], 1e-9) or abs(w.evaluate(pts) - o[3].to_float()) > max(o[4], 1e-9):
            return Outcome("inconclusive", f"{o[0]} is not affine in the data"), known
        ctx.obs.append((o[0], o[1], g, w, o[4]))
    if all(b == w == 0 for b, w in base):
        for scale, v in special_points(sizes, seed):
            with scaled(scale):
                ci, e = concrete_run(h, cfg, v, seed)
                F.SPACE = space
                if e is not None:
                    return Outcome("violation", "exception", f"{type(e).__name__}: {e}", dict(ci.used, __scale__=scale)), known
                if bad := failing(ci):
                    bad.values = dict(bad.values, __scale__=scale)
                    return bad, known
    stats.obligations += len(ctx.obs) + len(c0.facts)
    stats.discharged += len(c0.facts)
    rng = random.Random(seed)
    obs = [o for o in ctx.obs if suppressed(suppress, cfg, o[0]) is None]
    for ch in chunks(obs):
        r, m = z3_solve(query_text(ch, []), stats)
        if r == "unsat":
            stats.discharged += len(ch)
            continue
        if r == "unknown":
            raise ProofTimeout("solver unknown")
        try:
            return refine(h, cfg, ctx, ch, [], m, stats, seed, rng) or Outcome("ok"), known
        except S.Unsupported as e:
            return Outcome("inconclusive", str(e)), known
    return Outcome("ok"), known


def run_task(task):
    """Worker entry: decide one harness configuration."""
    prop, hname, cfg, seed, tier, limit, suppress = task
    from harness import HARNESSES
    h = HARNESSES[hname]
    if getattr(h, "sizes", False):
        return run_size_task(h, hname, cfg, seed, tier, limit, suppress)
    stats = Stats()
    global QUERY_STATS
    QUERY_STATS = stats
    detail = {"ops": {}}
    reset_monitoring()
    t0 = time.time()
    deadline = t0 + limit
    mode = "symbolic"
    note = ""

    def onalarm(sig, frame):
        raise ProofTimeout("task time limit")
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit) + 20)
    known = []
    try:
        out = None
        last = ""
        for factories in (False, True):
            try:
                out, known = run_symbolic(h, cfg, stats, seed, factories, detail, deadline, suppress, tier)
                mode = "symbolic" + ("+factories" if factories else "")
                break
            except S.NeedFactories as e:
                last = f"NeedFactories {e}"
                continue
            except S.Unsupported as e:
                last = str(e)
                if factories:
                    break
                # symbolic buffers often resolve an unsupported mixed operation
                continue
        if out is not None and out.status == "ok" and detail.get("compared"):
            # the code looks at the data: the same question for much larger and much smaller values
            for k in SCALES:
                try:
                    with scaled(k):
                        far, more = run_symbolic(h, cfg, stats, seed, mode.endswith("factories"), detail, deadline, suppress, tier)
                except (S.NeedFactories, S.Unsupported):
                    continue
                if far.status == "violation":
                    far.values = dict(far.values, __scale__=k)
                    out = far
                    break
        if out is None:
            note = last[:600]
            mode = "fallback"
            stats2 = Stats()
            stats2.queries, stats2.solver_s = stats.queries, stats.solver_s
            stats = stats2
            S.ENGINE = None
            out, known = run_probe(h, cfg, stats, seed, deadline, suppress)
    except ProofTimeout as e:
        out = Outcome("inconclusive", str(e))
    except S.Unsupported as e:
        out = Outcome("inconclusive", str(e)[:600])
    except RecursionError:
        out = Outcome("inconclusive", "recursion")
    except MemoryError:
        out = Outcome("inconclusive", "memory")
    finally:
        signal.alarm(0)
    return dict(harness=hname, cfg=cfg, status=out.status, label=out.label, detail=out.detail,
                values=out.values, mode=mode, note=note, ops=detail["ops"],
                functions=sorted(MONITORED), wall=time.time() - t0,
                known=known, stats={k: v for k, v in vars(stats).items()})


def run_size_task(h, hname, cfg, seed, tier, limit, suppress=()):
    """Decide one configuration whose tensor sizes are symbolic."""
    from . import shapes
    stats = Stats()
    reset_monitoring()
    t0 = time.time()
    mode, note, known = "symbolic-sizes", "", []

    def onalarm(sig, frame):
        raise ProofTimeout("task time limit")
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit) + 20)
    try:
        try:
            out = Outcome(*shapes.run_sizes(h, cfg, stats, seed, t0 + limit, 1000))
        except (shapes.Unsupported, z3.Z3Exception, KeyError) as e:
            # the sizes cannot be symbolic here: report what concrete sizes show
            mode, note = "fallback", f"{type(e).__name__}: {e}"[:400]
            out = Outcome(*shapes.run_points(h, cfg, stats, seed, t0 + limit))
    except ProofTimeout as e:
        out = Outcome("inconclusive", str(e))
    except (RecursionError, MemoryError) as e:
        out = Outcome("inconclusive", type(e).__name__)
    finally:
        signal.alarm(0)
    if out.status == "violation" and (n := suppressed(suppress, cfg, out.label)) is not None:
        known, out = [n], Outcome("ok")
    st = {k: v for k, v in vars(stats).items()}
    st["bounds"] = st.pop("info", {}).get("bounds", {})
    return dict(harness=hname, cfg=cfg, status=out.status, label=out.label, detail=out.detail,
                values=out.values, mode=mode, note=note, ops={}, functions=sorted(MONITORED),
                wall=time.time() - t0, known=known, stats=st)
