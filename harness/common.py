import itertools

import numpy as np
import ptwt
import pywt
import torch

from symwave import forms as F
from symwave import specs as sp

MODES = ["zero", "constant", "periodic", "reflect", "symmetric"]
DT = {"float64": torch.float64, "float32": torch.float32, "float16": torch.float16}


def wav(ctx, wavelet, dtype="float64", form="name"):
    """(wavelet argument, [dec_lo, dec_hi, rec_lo, rec_hi] taps as forms)."""
    if wavelet.startswith("sym:"):            # arbitrary filters of the given length
        n = int(wavelet[4:])
        fs = [ctx.inp(k, (n,), DT[dtype]) for k in ("dec_lo", "dec_hi", "rec_lo", "rec_hi")]
        return ptwt.WaveletTensorTuple(*fs), [list(ctx.arr(f)) for f in fs]
    fl = [sp.taps(f) for f in sp.filters(wavelet)]
    if form == "name":
        return wavelet, fl
    if form == "object":
        return pywt.Wavelet(wavelet), fl
    if form == "tuple":
        return ptwt.WaveletTensorTuple.from_wavelet(pywt.Wavelet(wavelet), DT[dtype]), fl
    if form == "plaintuple":
        return tuple(torch.tensor(f, dtype=DT[dtype]) for f in sp.filters(wavelet)), fl
    if form in ("duck", "ducktuple"):
        return Duck(wavelet, list if form == "duck" else tuple), fl
    raise ValueError(form)


class Duck:
    """A caller's own implementation of the Wavelet protocol."""

    def __init__(self, name, kind):
        w = pywt.Wavelet(name)
        self.name = name
        self.filter_bank = tuple(kind(float(v) for v in f) for f in w.filter_bank)
        self.dec_lo, self.dec_hi, self.rec_lo, self.rec_hi = self.filter_bank
        self.dec_len, self.rec_len = w.dec_len, w.rec_len

    def __len__(self):
        return self.dec_len


def flen(wavelet):
    return int(wavelet[4:]) if wavelet.startswith("sym:") else len(sp.filters(wavelet)[0])


def tol_of(dtype, wavelet=None, level=1, ndim=1):
    """Tolerance for comparing coefficients with the definition."""
    if dtype == "float64":
        return 1e-10
    g = 1.5 if wavelet is None or wavelet.startswith("sym:") else sp.gain(wavelet)
    return 4e-6 * g ** (ndim * max(level or 1, 1))


def norm_axes(axes, nd):
    return [a % nd for a in axes]


def move_last(arr, axes):
    """Object array with the given axes moved last, in the given order."""
    return np.moveaxis(arr, axes, range(-len(axes), 0))


def crop(t, shape):
    for d, n in enumerate(shape):
        if t.shape[d] > n:
            t = t.narrow(d, 0, n)
    return t


def check_rec(ctx, label, rec, x, axes, level, tol):
    """Reconstruction equals x on its extent; odd transformed axes may have one more sample."""
    nd = x.dim()
    ok = ctx.check(label + ":ndim", rec.dim() == nd, f"{tuple(rec.shape)} for {tuple(x.shape)}")
    if not ok:
        return
    ax = set(norm_axes(axes, nd))
    for d in range(nd):
        n, m = x.shape[d], rec.shape[d]
        extra = 1 if (d in ax and n % 2 and level > 0) else 0
        ok = ctx.check(f"{label}:size{d}", m == n + extra, f"{m} for input size {n}, level {level}") and ok
    if ok:
        ctx.check(label + ":dtype", rec.dtype == x.dtype, f"{rec.dtype} for {x.dtype}")
        ctx.equal(label, crop(rec, x.shape), ctx.arr(x), tol)


def out_sizes(n, fl, level):
    r = []
    for _ in range(level):
        n = sp.out_len(n, fl)
        r.append(n)
    return r


def deep(lst):
    return list(itertools.chain.from_iterable(lst))
