"""Independent specifications over arrays of forms (no ptwt code, no torch)."""
from __future__ import annotations

import itertools
import math
from functools import lru_cache

import numpy as np
import pywt

from . import forms as F
from .forms import Form


# ------------------------------------------------------------------------------------
# linear combinations
# ------------------------------------------------------------------------------------
def dot(pairs):
    """sum of coefficient*value; coefficients are forms (constant or symbolic)."""
    lin, rest = [], F.ZERO
    for k, v in pairs:
        if not k.c and not k.err or not v.c and not v.err:
            continue
        if k.is_const() and not k.err:
            lin.append((k.const(), v))
        elif v.is_const() and not v.err:
            lin.append((v.const(), k))
        else:
            rest = rest + k * v
    r = F.lincomb(lin)
    return r + rest if rest.c or rest.err else r


def taps(seq):
    return [F.const(v) for v in seq]


def along(rows, X, axis):
    """Apply the linear map given by rows (list of [(index, coefficient)]) along an axis."""
    X = np.moveaxis(X, axis, -1)
    out = np.empty(X.shape[:-1] + (len(rows),), dtype=object)
    for b in np.ndindex(*X.shape[:-1]):
        v = X[b]
        for i, r in enumerate(rows):
            out[b + (i,)] = dot([(k, v[j]) for j, k in r])
    return np.moveaxis(out, -1, axis)


# ------------------------------------------------------------------------------------
# boundary extension and one-dimensional transforms
# ------------------------------------------------------------------------------------
def ext(i, n, mode):
    """Index of the sample that extends a length-n signal at position i (None: zero)."""
    if 0 <= i < n:
        return i
    if mode == "zero":
        return None
    if mode == "constant":
        return 0 if i < 0 else n - 1
    if mode == "periodic":
        return i % n
    if mode == "symmetric":
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    if mode == "reflect":
        if n == 1:
            return 0
        p = 2 * n - 2
        i %= p
        return i if i < n else p - i
    raise ValueError(mode)


def out_len(n, flen):
    return (n + flen - 1) // 2


def analysis_rows(n, f, mode):
    rows = []
    for i in range(out_len(n, len(f))):
        r = {}
        for k, c in enumerate(f):
            j = ext(2 * i + 1 - k, n, mode)
            if j is not None:
                r[j] = r[j] + c if j in r else c
        rows.append(list(r.items()))
    return rows


def synthesis_rows(m, g):
    """Full synthesis of m coefficients: 2m - L + 2 samples."""
    flen = len(g)
    rows = []
    for t in range(2 * m - flen + 2):
        r = []
        for i in range(m):
            k = t + flen - 2 - 2 * i
            if 0 <= k < flen:
                r.append((i, g[k]))
        rows.append(r)
    return rows


def swt_rows(n, f, step):
    rows = []
    half = len(f) // 2
    for t in range(n):
        r = {}
        for k, c in enumerate(f):
            j = (t + step * half - step * k) % n
            r[j] = r[j] + c if j in r else c
        rows.append(list(r.items()))
    return rows


def dwt(X, f, mode, axis=-1):
    return along(analysis_rows(X.shape[axis], f, mode), X, axis)


def idwt(A, D, g_lo, g_hi, axis=-1):
    m = A.shape[axis]
    return (along(synthesis_rows(m, g_lo), A, axis) +
            along(synthesis_rows(m, g_hi), D, axis))


def wavedec1(X, lo, hi, mode, level, axis=-1):
    out = []
    a = X
    for _ in range(level):
        out.append(dwt(a, hi, mode, axis))
        a = dwt(a, lo, mode, axis)
    out.append(a)
    return out[::-1]


def waverec1(coeffs, g_lo, g_hi, axis=-1):
    a = coeffs[0]
    for d in coeffs[1:]:
        if a.shape[axis] == d.shape[axis] + 1:
            a = np.moveaxis(np.moveaxis(a, axis, 0)[:-1], 0, axis)
        a = idwt(a, d, g_lo, g_hi, axis)
    return a


def dwtn(X, lo, hi, mode, axes):
    """dict of subbands, the i-th letter naming the filter on axes[i]."""
    bands = {"": X}
    for ax in axes:
        bands = {k + l: dwt(v, f, mode, ax) for k, v in bands.items() for l, f in (("a", lo), ("d", hi))}
    return bands


def idwtn(bands, g_lo, g_hi, axes):
    cur = dict(bands)
    for ax in reversed(axes):
        nxt = {}
        for k in {k[:-1] for k in cur}:
            nxt[k] = idwt(cur[k + "a"], cur[k + "d"], g_lo, g_hi, ax)
        cur = nxt
    return cur[""]


def wavedecn(X, lo, hi, mode, level, axes):
    """[approx, {detail bands} (coarsest), ..., {detail bands} (finest)]."""
    out = []
    a = X
    key = "a" * len(axes)
    for _ in range(level):
        b = dwtn(a, lo, hi, mode, axes)
        a = b.pop(key)
        out.append(b)
    out.append(a)
    return out[::-1]


def swt(X, lo, hi, level, axis=-1):
    out = []
    a = X
    n = X.shape[axis]
    for j in range(level):
        out.append(along(swt_rows(n, hi, 2 ** j), a, axis))
        a = along(swt_rows(n, lo, 2 ** j), a, axis)
    out.append(a)
    return out[::-1]


# ------------------------------------------------------------------------------------
# acceptance: what torch's padding allows
# ------------------------------------------------------------------------------------
def pad_amounts(n, flen):
    p = (2 * flen - 3) // 2
    return p, p + n % 2


def level_ok(n, flen, mode):
    padl, padr = pad_amounts(n, flen)
    if mode == "reflect":
        return max(padl, padr) < n
    if mode == "periodic":
        return max(padl, padr) <= n
    return n >= 1


def accepts(n, flen, mode, level):
    for _ in range(level):
        if not level_ok(n, flen, mode):
            return False
        n = out_len(n, flen)
    return True


# ------------------------------------------------------------------------------------
# wavelets
# ------------------------------------------------------------------------------------
@lru_cache(None)
def filters(name):
    w = pywt.Wavelet(name)
    return tuple(tuple(f) for f in w.filter_bank)


@lru_cache(None)
def pr_defect(name):
    """How far the tabulated filters are from perfect reconstruction (max coefficient)."""
    dl, dh, rl, rh = [np.array(f) for f in filters(name)]
    n = len(dl)
    t = np.convolve(dl, rl) + np.convolve(dh, rh)
    t[n - 1] -= 2
    s = np.convolve(dl * (-1.0) ** np.arange(n), rl) + np.convolve(dh * (-1.0) ** np.arange(n), rh)
    return float(np.abs(t).sum() + np.abs(s).sum())


@lru_cache(None)
def gain(name):
    return float(max(np.abs(f).sum() for f in filters(name)))


def pr_tol(name, level, ndim, dtype):
    base = {"float64": 1e-9, "float32": 2e-5}[dtype]
    u = {"float64": 2.0 ** -52, "float32": 2.0 ** -23}[dtype]
    g = gain(name) ** (2 * ndim)
    d = (pr_defect(name) * 4 + 16 * u * len(filters(name)[0])) * g
    tot = 0.0
    amp = 1.0
    for _ in range(level):
        tot += d * amp
        amp *= gain(name) ** ndim
    return max(base, tot * 2)


def max_level(n, flen):
    if flen < 2 or n < 1:
        return 0
    lv = 0
    while n >= (flen - 1) * 2 ** (lv + 1):
        lv += 1
    return lv


def keys(nd):
    return ["".join(k) for k in itertools.product("ad", repeat=nd)]
