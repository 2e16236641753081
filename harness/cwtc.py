"""C18: continuous wavelet transform."""
import random

import numpy as np
import ptwt
import pywt
import torch
from ptwt import continuous_transform

from symwave import forms as F
from symwave import specs as sp
from symwave import symtensor as S

from . import harness, plan
from .common import DT

# the differentiable wavelets have no public name; without them those configurations are left out
LEARNABLE = {k: getattr(continuous_transform, n, None) for k, n in (("shan", "_ShannonWavelet"), ("cmor", "_ComplexMorletWavelet"))}


def resample(psi, x, scale, cplx):
    """Reversed, resampled integral of the sampled wavelet."""
    step = x[1] - x[0]
    integral = np.cumsum(psi) * step
    if cplx:
        integral = np.conj(integral)
    j = np.arange(scale * (x[-1] - x[0]) + 1) / (scale * step)
    j = np.floor(j).astype(int)
    j = j[j < integral.size]
    return integral[j][::-1], cplx


def kernel(wavelet, scale, precision):
    """Reversed, resampled integral of the wavelet (numpy), and whether it is complex."""
    if wavelet in pywt.wavelist(kind="continuous") or any(wavelet.startswith(p) for p in ("cmor", "shan", "fbsp")):
        w = pywt.ContinuousWavelet(wavelet)
        psi, x = w.wavefun(precision)
        cplx = w.complex_cwt
    else:
        w = pywt.Wavelet(wavelet)
        _, psi, x = w.wavefun(precision)
        cplx = False
    return resample(psi, x, scale, cplx)


def cwt_rows(h, n, scale):
    """Rows of minus sqrt(scale) times the centred difference of the full convolution with h."""
    m = n + len(h) - 1
    full = np.zeros((m, n), dtype=h.dtype)
    for k, v in enumerate(h):
        for j in range(n):
            full[j + k, j] = v
    d = -np.sqrt(scale) * np.diff(full, axis=0)
    c = d.shape[0] - n
    lo = c // 2
    return d[lo:lo + n] if c > 0 else d


def apply(mat, X):
    rows = [[(int(j), F.const(float(v))) for j, v in enumerate(r) if v] for r in mat]
    return sp.along(rows, X, -1)


def spec(X, wavelet, scales, precision):
    n = X.shape[-1]
    re, im = [], []
    cplx = False
    for s in scales:
        h, cplx = kernel(wavelet, float(s), precision)
        m = cwt_rows(h, n, float(s))
        re.append(apply(m.real, X))
        if cplx:
            im.append(apply(m.imag, X))
    return np.stack(re), (np.stack(im) if cplx else None)


def scale_arg(scales, kind):
    if kind == "list":
        return list(scales)
    if kind == "array":
        return np.array(scales)
    if kind == "tensor":
        return torch.tensor(scales, dtype=torch.int64 if all(isinstance(v, int) for v in scales) else torch.float64)
    if kind == "scalar":
        return scales[0]
    raise ValueError(kind)


@harness
def cwt(ctx, wavelet, scales, shape, kind="array", dtype="float64", precision=None, period=None, form="name", learn=None):
    x = ctx.inp("x", shape, DT[dtype])
    w = wavelet
    if form == "object":
        w = pywt.ContinuousWavelet(wavelet) if wavelet not in pywt.wavelist(kind="discrete") else pywt.Wavelet(wavelet)
    elif form == "learnable":
        w = LEARNABLE[wavelet[:4]](wavelet)
    kw = {}
    if precision is not None:
        kw["precision"] = precision
    if period is not None:
        kw["sampling_period"] = period
    y, f = ptwt.cwt(x, scale_arg(scales, kind), w, **kw)
    prec = precision or 12
    ctx.check("shape", tuple(y.shape) == (len(scales),) + tuple(shape), tuple(y.shape))
    re, im = spec(ctx.arr(x), wavelet, scales, prec)
    g = ctx.forms(y)
    tol = 1e-9 if dtype == "float64" else 2e-5 * float(max(scales)) ** .5
    if form == "learnable":
        tol = max(tol, 1e-8)
    if im is None:
        ctx.check("real", not y.is_complex(), y.dtype)
    elif not ctx.check("complex", y.is_complex(), y.dtype):
        return
    ctx.equal("re", (g[0], None), (re, None), tol)
    if im is not None:
        ctx.equal("im", (g[1], None), (im, None), tol)
    want = np.atleast_1d(pywt.scale2frequency(pywt.DiscreteContinuousWavelet(wavelet), np.asarray(scales, dtype=float), prec)) / (period or 1.0)
    f = np.asarray(f.detach() if isinstance(f, torch.Tensor) else f, dtype=float)
    ctx.check("freq:shape", f.shape == (len(scales),), f.shape)
    ctx.check("freq", f.shape == want.shape and np.allclose(f, want, rtol=1e-6 if form == "learnable" else 1e-10, atol=0), f"{f} expected {want}")


def learnable_psi(kind, b, c, precision, wrt=None):
    """Samples of the learnable wavelet with bandwidth b and center c, or their derivative."""
    pw = pywt.ContinuousWavelet(kind)
    t = np.linspace(pw.lower_bound, pw.upper_bound, 2 ** precision)
    wave = np.exp(2j * np.pi * c * t)
    if kind.startswith("cmor"):
        psi = np.exp(-t ** 2 / b) / np.sqrt(np.pi * b) * wave
        db = psi * (t ** 2 / b ** 2 - 1 / (2 * b))
    else:
        u = np.pi * b * t
        sinc = np.sin(u) / u
        psi = np.sqrt(b) * sinc * wave
        db = (sinc / (2 * np.sqrt(b)) + (np.cos(u) - sinc) / np.sqrt(b)) * wave
    return {None: psi, "b": db, "c": 2j * np.pi * t * psi}[wrt], t


def learnable_spec(X, kind, b, c, scales, precision, wrt=None):
    psi, t = learnable_psi(kind, b, c, precision, wrt)
    ms = [cwt_rows(resample(psi, t, float(s), True)[0], X.shape[-1], float(s)) for s in scales]
    return np.stack([apply(m.real, X) for m in ms]), np.stack([apply(m.imag, X) for m in ms])


def tuned(kind, b, c):
    w = LEARNABLE[kind[:4]](kind)
    with torch.no_grad():
        w.bandwidth_par.copy_(torch.tensor(b, dtype=torch.float64).sqrt())
        w.center_par.copy_(torch.tensor(c, dtype=torch.float64).sqrt())
    return w


@harness
def cwt_tuned(ctx, wavelet, b, c, scales, shape, precision=None):
    """A learnable wavelet whose parameters have moved away from their start values."""
    x = ctx.inp("x", shape)
    y, _ = ptwt.cwt(x, np.array(scales), tuned(wavelet, b, c), **({} if precision is None else {"precision": precision}))
    re, im = learnable_spec(ctx.arr(x), wavelet, b, c, scales, precision or 12)
    if not ctx.check("shape", tuple(y.shape) == (len(scales),) + tuple(shape) and y.is_complex(), f"{tuple(y.shape)} {y.dtype}"):
        return
    g = ctx.forms(y)
    ctx.equal("re", (g[0], None), (re, None), 1e-8)
    ctx.equal("im", (g[1], None), (im, None), 1e-8)


@harness
def cwt_param_grad(ctx, wavelet, b, c, scales, n, precision=8):
    """For every signal x: what autograd sends to the bandwidth and center parameters is the
    derivative of the transform (the transform is linear in x, so basis signals determine it)."""
    x = ctx.inp("x", (n,))
    X = ctx.arr(x)
    got = {"b": [], "c": []}
    with S.no_modes():
        w = tuned(wavelet, b, c)
        y, _ = ptwt.cwt(torch.eye(n, dtype=torch.float64), np.array(scales), w, precision=precision)
        if not ctx.check("tracks", y.requires_grad, "nothing to differentiate"):
            return
        par = [w.bandwidth_par, w.center_par]
        parts = torch.view_as_real(y).permute(0, 2, 3, 1).reshape(-1, n)       # [scale, time, re/im, basis signal]
        G = {"b": np.zeros((parts.shape[0], n)), "c": np.zeros((parts.shape[0], n))}
        for o in range(parts.shape[0]):
            for i in range(n):
                g = torch.autograd.grad(parts[o, i], par, retain_graph=True, allow_unused=True)
                for k, v in zip("bc", g):
                    G[k][o, i] = 0.0 if v is None else float(v)
    for k, p in (("b", b ** .5), ("c", c ** .5)):
        re, im = learnable_spec(X, wavelet, b, c, scales, precision, k)
        want = np.stack([re, im], -1).reshape(-1)
        got = apply(G[k], X)
        chain = np.array([f * F.const(2 * p) for f in want.ravel()], dtype=object)
        ctx.equal(f"grad:{k}", (got, None), (chain, None), 1e-8)


@harness
def too_small(ctx, scales, n):
    """A scale whose resampled wavelet has a single sample is refused (haar has unit support)."""
    x = ctx.inp("x", (2, n))
    ctx.raises("small", lambda: ptwt.cwt(x, np.array(scales), "haar"), ValueError)


CW = ["gaus1", "gaus2", "gaus5", "gaus8", "mexh", "morl", "cgau1", "cgau4", "cgau8", "cmor1.5-1.0", "cmor0.5-2.0", "shan1.0-1.0",
      "shan0.5-0.3", "fbsp1-1.5-1.0", "fbsp2-1.0-0.5"]
DW = ["haar", "db2", "db5", "sym4", "coif1"]


@plan("C18")
def c18(tier, seed):
    rng = random.Random(seed)
    lists = [[1.0, 2.0, 3.0], [3.0, 1.0, 2.0], [2.5, 2.5, 0.7], [4, 1, 4, 2], [5.3], [0.5, 6.0, 0.9, 3.2], [1, 2, 3, 4, 5, 6, 7, 8], [7.9, 3.1, 7.7, 1.2]]
    for i, w in enumerate(CW):
        for k, s in enumerate(lists):
            if max(s) > 4 and w[:4] in ("shan", "fbsp") and tier == "quick" and k % 2:
                continue
            n = (5, 16, 17, 12, 8, 33, 20, 9)[(i + k) % 8]
            yield "cwt", dict(wavelet=w, scales=s, shape=[n] if (i + k) % 3 == 0 else [2, n] if (i + k) % 3 == 1 else [1, 2, n],
                              kind=("list", "array", "tensor")[k % 3])
        yield "cwt", dict(wavelet=w, scales=[2.0], shape=[2, 10], kind="scalar")
        yield "cwt", dict(wavelet=w, scales=[3, 1.5], shape=[12], precision=8, period=0.25, form="object")
        yield "cwt", dict(wavelet=w, scales=[1.3, 2.6], shape=[2, 12], precision=10, period=2.0)
        yield "cwt", dict(wavelet=w, scales=[1.3, 2.7], shape=[2, 12], dtype="float32")
        yield "cwt", dict(wavelet=w, scales=[1.0, 4.0], shape=[1], kind="list")
        yield "cwt", dict(wavelet=w, scales=[0.3, 1.0], shape=[2, 3], kind="list")
    # different scales with equally many samples, nearly equal scales, scales equal after rounding
    close = [[2.0, 2.02, 1.99], [3.01, 3.0, 3.02], [1.25, 1.2, 1.21, 1.25], [2.4, 2.6, 2.49, 2.51, 2.5], [1.001, 1.0, 0.999]]
    for i, w in enumerate(["gaus2", "mexh", "cmor1.5-1.0", "cgau1", "db2", "sym4", "morl"]):
        for k, s in enumerate(close):
            if (i + k) % 2 == 0 or tier == "thorough":
                yield "cwt", dict(wavelet=w, scales=s, shape=[2, 9] if k % 2 else [10], kind=("array", "list", "tensor")[k % 3])
    for w in DW:
        for s in lists[:4]:
            if w == "haar" and min(s) < 1:
                continue
            yield "cwt", dict(wavelet=w, scales=s, shape=[2, 11], kind="array")
        yield "cwt", dict(wavelet=w, scales=[2.0, 5.0], shape=[14], kind="array", form="object", precision=8, period=0.5)
    for w in ("shan1.0-1.0", "shan0.5-0.3", "cmor1.5-1.0", "cmor0.5-2.0"):
        for s in lists[:4] if LEARNABLE[w[:4]] else []:
            yield "cwt", dict(wavelet=w, scales=s, shape=[2, 9], kind="array", form="learnable", precision=10)
    for s in ([0.5], [2.0, 0.7], [0.9, 3.0]):
        yield "too_small", dict(scales=s, n=8)
    if tier == "thorough":
        for _ in range(300):
            w = rng.choice(CW)
            s = [round(rng.uniform(.4, 9), 3) for _ in range(rng.randint(1, 6))]
            yield "cwt", dict(wavelet=w, scales=s, shape=[rng.randint(1, 48)], precision=rng.choice((8, 9, 10, 12)), kind="array")


@plan("C18")
def c18_options(tier, seed):
    # every combination of the options
    forms = ("name", "object", "learnable")
    for w, sc in (("mexh", [1.5, 3.0]), ("cmor1.5-1.0", [2.0, 1.2]), ("db2", [2.0, 3.0]), ("shan1.0-1.0", [1.0])):
        for dtype in ("float64", "float32"):
            for kind in ("list", "array", "tensor", "scalar"):
                for prec in (None, 8):
                    for per in (None, 0.5):
                        for form in forms:
                            if form == "learnable" and not LEARNABLE.get(w[:4]):
                                continue
                            if w[:4] == "shan" and prec is None and tier == "quick":
                                continue
                            yield "cwt", dict(wavelet=w, scales=sc[:1] if kind == "scalar" else sc, shape=[2, 6], kind=kind, dtype=dtype,
                                              precision=prec, period=per, form=form)
    for w, b, c in (("cmor1.5-1.0", 0.7, 1.6), ("cmor1.5-1.0", 2.5, 0.4), ("shan1.0-1.0", 0.8, 1.3), ("shan0.5-0.3", 1.7, 0.6)):
        if LEARNABLE[w[:4]]:
            for sc in ([1.0, 2.0], [2.3], [3.0, 0.8, 1.1]):
                for shape in ([6], [2, 7]):
                    yield "cwt_tuned", dict(wavelet=w, b=b, c=c, scales=sc, shape=shape, precision=10 if len(sc) > 1 else None)


@plan("C27")
def c27_cwt(tier, seed):
    for w, b, c in (("cmor1.5-1.0", 1.5, 1.0), ("cmor1.5-1.0", 0.7, 1.6), ("cmor0.5-2.0", 2.5, 0.4), ("shan1.0-1.0", 1.0, 1.0), ("shan1.0-1.0", 0.8, 1.3)):
        if LEARNABLE[w[:4]]:
            for sc in ([1.0, 2.0], [2.3], [3.0, 0.8]):
                for n in (3, 6) if tier == "quick" else (3, 6, 9, 12):
                    yield "cwt_param_grad", dict(wavelet=w, b=b, c=c, scales=sc, n=n)
