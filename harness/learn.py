"""C19: losses of learnable filter banks."""
import numpy as np
import ptwt
import pywt
import torch
import z3
from ptwt.wavelets_learnable import ProductFilter, SoftOrthogonalWavelet, WaveletFilter

from symwave import forms as F

from . import harness, plan
from .common import DT

NAMES = ("dec_lo", "dec_hi", "rec_lo", "rec_hi")


class Bank(WaveletFilter):
    """Smallest concrete subclass: the inherited losses only."""

    def __init__(self, fs):
        self.fs = fs

    @property
    def filter_bank(self):
        return ptwt.WaveletTensorTuple(*self.fs)

    def wavelet_loss(self):
        return super().wavelet_loss()

    def __len__(self):
        return len(self.fs[0])


def make(ctx, kind, fs):
    if kind == "Bank":
        return Bank(fs)
    cls = {"ProductFilter": ProductFilter, "SoftOrthogonalWavelet": SoftOrthogonalWavelet}[kind]
    if not ctx.symbolic:
        return cls(*fs)
    n = len(fs[0])
    obj = cls(*[torch.zeros(n, dtype=fs[0].dtype) for _ in fs])
    for k, v in zip(NAMES, fs):
        if k not in obj._parameters:
            from symwave.symtensor import Unsupported
            raise Unsupported("filters are not stored as parameters")
        obj._parameters[k] = v
    return obj


def poly(a, b):
    out = [F.ZERO] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = out[i + j] + x * y
    return out


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def squares(v):
    s = F.ZERO
    for x in v:
        s = s + x * x
    return s


def scalar(ctx, label, got, want, tol):
    got = got.reshape(()) if got.numel() == 1 else got
    ctx.equal(label, got, np.array(want, dtype=object), tol)


def vector(ctx, label, got, want, tol):
    w = np.empty(len(want), dtype=object)
    w[:] = want
    if ctx.check(label + ":size", got.numel() == len(want), f"{got.numel()}"):
        ctx.equal(label, got.reshape(-1), w, tol)


def alt(f):
    n = len(f)
    return [x if (n - 1 - i) % 2 == 0 else -x for i, x in enumerate(f)]


def terms(h0, h1, f0, f1):
    """The residuals whose squares make up each loss."""
    n = len(h0)
    pr = add(poly(h0, f0), poly(h1, f1))
    target = [F.ZERO] * (2 * n - 1)
    target[n - 1] = F.const(2.0)
    pr_res = [a - b for a, b in zip(pr, target)]
    ac = add(poly(alt(h0), f0), poly(alt(h1), f1))
    pf = [a - b for a, b in zip(f0, alt(h1))], [a + b for a, b in zip(f1, alt(h0))]
    shift = []
    for j in range(n // 2 + 1):
        s = F.const(-1.0) if j == 0 else F.ZERO
        for k in range(n - 2 * j):
            s = s + h0[k] * h0[k + 2 * j]
        shift.append(s)
    rev = [a - b for a, b in zip(h0, f0[::-1])] + [a - b for a, b in zip(h1, f1[::-1])]
    return dict(pr=pr, target=target, pr_res=pr_res, ac=ac, pf=pf, shift=shift, rev=rev)


@harness
def losses(ctx, kind, length, dtype="float64"):
    fs = [ctx.inp(k, (length,), DT[dtype]) for k in NAMES]
    t = terms(*[list(ctx.arr(f)) for f in fs])
    tol = 1e-9 if dtype == "float64" else 2e-3
    m = make(ctx, kind, fs)
    ctx.check("len", len(m) == length, len(m))
    for k, a, b in zip(NAMES, m.filter_bank, fs):
        ctx.equal(f"bank:{k}", a, ctx.arr(b), 1e-13 if dtype == "float64" else 1e-7)
    tot, p, tgt = m.perfect_reconstruction_loss()
    pr = squares(t["pr_res"])
    scalar(ctx, "pr", tot, pr, tol)
    vector(ctx, "pr:product", p, t["pr"], tol)
    vector(ctx, "pr:target", tgt, t["target"], tol)
    tot, p, z = m.alias_cancellation_loss()
    ac = squares(t["ac"])
    scalar(ctx, "ac", tot, ac, tol)
    vector(ctx, "ac:product", p, t["ac"], tol)
    vector(ctx, "ac:zeros", z, [F.ZERO] * (2 * length - 1), tol)
    tot, e1, e2 = m.pf_alias_cancellation_loss()
    scalar(ctx, "pf", tot, squares(t["pf"][0]) + squares(t["pf"][1]), tol)
    vector(ctx, "pf:err1", e1, t["pf"][0], tol)
    vector(ctx, "pf:err2", e2, t["pf"][1], tol)
    want = pr + ac
    if kind != "Bank":
        scalar(ctx, "product", m.product_filter_loss(), want, tol)
    if kind == "SoftOrthogonalWavelet":
        scalar(ctx, "shift", m.rec_lo_orthogonality_loss(), squares(t["shift"]), tol)
        rev = squares(t["rev"])
        scalar(ctx, "rev", m.filt_bank_orthogonality_loss(), rev, tol)
        want = want + rev
    scalar(ctx, "total", m.wavelet_loss(), want, tol)
    for k, a, b in zip(NAMES, m.filter_bank, fs):
        ctx.equal(f"unchanged:{k}", a, ctx.arr(b), 1e-13 if dtype == "float64" else 1e-7)


@harness
def sum_of_squares(ctx, terms):
    """A sum of squares is non-negative and vanishes exactly when all residuals do
    (with `losses` this gives the sign and zero set of every loss)."""
    e = [z3.Real(f"e{i}") for i in range(terms)]
    s = z3.Sum([v * v for v in e])
    ctx.valid("nonnegative", [s < 0])
    for v in e[:6]:
        ctx.valid("zero", [s == 0, v != 0])


@harness
def valid_bank(ctx, wavelet, kind, dtype="float64"):
    """The losses vanish on the filter banks of PyWavelets."""
    w = pywt.Wavelet(wavelet)
    fs = [torch.tensor(f, dtype=DT[dtype]) for f in w.filter_bank]
    m = make(ctx, kind, fs)
    tol = 1e-12 if dtype == "float64" else 1e-8
    for nm in ("perfect_reconstruction_loss", "alias_cancellation_loss"):
        v = float(getattr(m, nm)()[0].detach())
        ctx.check(nm, 0 <= v < tol, v)
    v = float(m.pf_alias_cancellation_loss()[0].detach())
    ctx.check("pf", 0 <= v < tol, v)
    if kind == "SoftOrthogonalWavelet" and w.orthogonal:
        for nm in ("rec_lo_orthogonality_loss", "filt_bank_orthogonality_loss", "wavelet_loss"):
            v = float(getattr(m, nm)().detach())
            ctx.check(nm, 0 <= v < tol, v)


@harness
def trains(ctx, kind, length):
    """Gradients of each loss reach the filters it constrains and equal the polynomial's derivative."""
    import random
    rng = random.Random(length)
    vals = {k: [rng.uniform(-1, 1) for _ in range(length)] for k in NAMES}
    F.reset() if not ctx.symbolic else None
    sy = {k: [F.symbol(f"g{k}{i}") for i in range(length)] for k in NAMES}
    t = terms(*[sy[k] for k in NAMES])
    from symwave import symtensor as S
    with S.no_modes():
        cls = {"ProductFilter": ProductFilter, "SoftOrthogonalWavelet": SoftOrthogonalWavelet}[kind]
        m = cls(*[torch.tensor(vals[k], dtype=torch.float64) for k in NAMES])
        want = {"perfect_reconstruction_loss": squares(t["pr_res"]), "alias_cancellation_loss": squares(t["ac"]),
                "pf_alias_cancellation_loss": squares(t["pf"][0]) + squares(t["pf"][1])}
        if kind == "SoftOrthogonalWavelet":
            want["rec_lo_orthogonality_loss"] = squares(t["shift"])
            want["filt_bank_orthogonality_loss"] = squares(t["rev"])
        point = {next(iter(sy[k][i].c)): vals[k][i] for k in NAMES for i in range(length)}
        for nm, p in want.items():
            m.zero_grad()
            r = getattr(m, nm)()
            r = r[0] if isinstance(r, tuple) else r
            if not ctx.check(nm + ":tracks", r.requires_grad):
                continue
            r.backward()
            for k in NAMES:
                g = getattr(m, k).grad
                for i in range(length):
                    sid = next(iter(sy[k][i].c))
                    d = derivative(p, sid, point)
                    got = 0.0 if g is None else float(g[i])
                    ctx.check(f"{nm}:{k}{i}", abs(got - d) < 1e-9 * (1 + abs(d)), f"gradient {got} expected {d}")


def derivative(p, sid, point):
    s = 0.0
    for m, v in p.c.items():
        fac = list(F.SPACE.factors[m])
        n = fac.count(sid)
        if n:
            fac.remove(sid)
            q = n * v / F.ONE
            for f in fac:
                q *= point[f]
            s += q
    return s


@plan("C19")
def c19(tier, seed):
    for kind in ("Bank", "ProductFilter", "SoftOrthogonalWavelet"):
        for n in (2, 4, 6, 8) if tier == "quick" else (2, 4, 6, 8, 10, 12):
            yield "losses", dict(kind=kind, length=n)
        yield "losses", dict(kind=kind, length=4, dtype="float32")
        for w in [w for w in pywt.wavelist(kind="discrete") if w != "dmey"]:
            yield "valid_bank", dict(wavelet=w, kind=kind)
    for n in (1, 3, 5) if tier == "quick" else (1, 3, 5, 7):
        yield "losses", dict(kind="ProductFilter", length=n)
    for n in (2, 8, 30):
        yield "sum_of_squares", dict(terms=n)
    for kind in ("ProductFilter", "SoftOrthogonalWavelet"):
        for n in (2, 4, 6):
            yield "trains", dict(kind=kind, length=n)
