"""C01-C07: padded, separable and stationary transforms."""
import itertools
import random

import numpy as np
import ptwt
import pywt
import torch

from symwave import specs as sp

from . import harness, plan
from .common import (DT, MODES, check_rec, flen, norm_axes, tol_of, wav)


# ------------------------------------------------------------------------------------
# 1-D
# ------------------------------------------------------------------------------------
@harness
def pr1(ctx, wavelet, mode, level, shape, axis=-1, dtype="float64", form="name"):
    w, _ = wav(ctx, wavelet, dtype, form)
    x = ctx.inp("x", shape, DT[dtype])
    kw = {} if mode is None else {"mode": mode}
    co = ptwt.wavedec(x, w, level=level, axis=axis, **kw)
    lv = len(co) - 1
    rec = ptwt.waverec(co, w, axis=axis)
    check_rec(ctx, "rec", rec, x, [axis], lv, sp.pr_tol(wavelet, lv, 1, dtype))


@harness
def def1(ctx, wavelet, mode, level, shape, axis=-1, dtype="float64", form="name"):
    w, (lo, hi, _, _) = wav(ctx, wavelet, dtype, form)
    x = ctx.inp("x", shape, DT[dtype])
    X = ctx.arr(x)
    kw = {} if mode is None else {"mode": mode}
    co = ptwt.wavedec(x, w, level=level, axis=axis, **kw)
    ctx.check("kind", isinstance(co, list), type(co))
    if level is None:
        level = sp.max_level(shape[axis], flen(wavelet))
    ctx.check("len", len(co) == level + 1, f"{len(co)} for level {level}")
    want = sp.wavedec1(X, lo, hi, mode or "reflect", level, axis)
    tol = tol_of(dtype, wavelet, level)
    for i, (c, s) in enumerate(zip(co, want)):
        ctx.check(f"c{i}:dtype", c.dtype == DT[dtype], c.dtype)
        ctx.equal(f"c{i}", c, s, tol)


@harness
def rec1(ctx, wavelet, sizes, batch=(1,), axis=-1, dtype="float64"):
    """waverec of arbitrary coefficients equals the synthesis definition."""
    w, (_, _, glo, ghi) = wav(ctx, wavelet, dtype)
    nd = len(batch) + 1
    co, spec = [], []
    for i, n in enumerate(sizes):
        shp = list(batch)
        shp.insert(axis % nd, n)
        t = ctx.inp(f"c{i}", shp, DT[dtype])
        co.append(t)
        spec.append(ctx.arr(t))
    r = ptwt.waverec(co, w, axis=axis)
    lv = len(sizes) - 1
    ctx.equal("rec", r, sp.waverec1(spec, glo, ghi, axis), tol_of(dtype, wavelet, lv))


W1 = ["haar", "db2", "db3", "db4", "db6", "db10", "bior1.3", "bior2.2", "bior3.1", "bior4.4", "rbio2.4",
      "rbio3.1", "sym4", "sym7", "coif2", "bior6.8", "db20", "dmey", "coif5", "rbio1.5"]


def grid1(tier, seed, wavelets=W1, more=()):
    """Configurations (wavelet, mode, level, N) accepted by the padded transform."""
    rng = random.Random(seed)
    out = []
    for wi, w in enumerate(wavelets):
        L = flen(w)
        p = (2 * L - 3) // 2
        ns = sorted({1, 2, 3, 4, 5, 7, 8, L - 1, L, L + 1, p, p + 1, p + 2, 2 * L - 1, 2 * L + 1, 13, 16, 17, 3 * L + 2})
        if tier == "thorough":
            ns = sorted(set(ns) | set(range(1, 30)) | {4 * L + 1, 4 * L + 3})
        cap = 64 if tier == "quick" else 160
        ns = [n for n in ns if 1 <= n <= max(cap, L + 4)]
        for mi, m in enumerate(MODES):
            acc = [(n, lv) for n in ns for lv in (1, 2, 3, 4) if sp.accepts(n, L, m, lv)]
            if tier == "quick":
                # every level, odd and even lengths, extremes of the accepted range
                keep = []
                for lv in (1, 2, 3, 4):
                    a = [c for c in acc if c[1] == lv]
                    for par in (0, 1):
                        b = [c for c in a if c[0] % 2 == par]
                        if b:
                            keep.append(b[0])
                            if lv < 4:
                                keep.append(b[(wi * 7 + mi * 3 + lv) % len(b)])
                            if lv == 3 and len(b) > 1:
                                keep.append(b[-1])
                acc = keep
            for n, lv in acc:
                out.append((w, m, lv, n))
    seen, res = set(), []
    for c in out:
        if c not in seen:
            seen.add(c)
            res.append(c)
    rng.shuffle(res)
    return res


SHAPES1 = [((5, 2, 3), 0), ((2, 6, 2), 1), ((2, 6, 2), -2), ((2, 2, 7), -1), ((2, 2, 2, 5), 3), ((9, 2), 0),
           ((2, 1, 9, 1, 2), 2), ((7,), 0), ((7,), -1), ((3, 2, 8), -3), ((1, 7), 1), ((3, 1, 2, 6), -2)]


@plan("C01")
def c01(tier, seed):
    for w, m, lv, n in grid1(tier, seed):
        yield "pr1", dict(wavelet=w, mode=m, level=lv, shape=[2, n] if n < 40 else [n])
    for i, (s, a) in enumerate(SHAPES1):
        for w in ("haar", "db2", "bior2.2"):
            m = MODES[(i + len(w)) % 5]
            for lv in (0, 1, 2, None):
                if lv is None or sp.accepts(s[a], flen(w), m, lv):
                    yield "pr1", dict(wavelet=w, mode=m, level=lv, shape=list(s), axis=a)
    for w in ("haar", "db2", "sym5", "bior3.3"):
        for m in MODES:
            for n in (15, 16, 22, 33):
                yield "pr1", dict(wavelet=w, mode=m, level=None, shape=[2, n], dtype="float32")
                yield "pr1", dict(wavelet=w, mode=m, level=None, shape=[n])
    for w in ("db2", "bior2.6"):
        for form in ("object", "tuple"):
            for n in (21, 32):
                yield "pr1", dict(wavelet=w, mode="symmetric", level=3, shape=[2, n], form=form)
                yield "pr1", dict(wavelet=w, mode=None, level=1, shape=[n], form=form)


@plan("C05")
def c05(tier, seed):
    for w, m, lv, n in grid1(tier, seed + 1):
        yield "def1", dict(wavelet=w, mode=m, level=lv, shape=[n])
    for i, (s, a) in enumerate(SHAPES1):
        for w in ("haar", "db2", "bior2.2"):
            m = MODES[(i + len(w)) % 5]
            for lv in (0, 1, 2, None):
                if lv is None or sp.accepts(s[a], flen(w), m, lv):
                    yield "def1", dict(wavelet=w, mode=m, level=lv, shape=list(s), axis=a)
    for w in ("haar", "db2", "sym5", "bior3.3"):
        for m in MODES + [None]:
            yield "def1", dict(wavelet=w, mode=m, level=None, shape=[2, 37], dtype="float32")
            yield "def1", dict(wavelet=w, mode=m, level=None, shape=[34])
    # all filters of a length (filter taps symbolic)
    for L in (2, 4, 6, 8) if tier == "quick" else (2, 4, 6, 8, 10, 12):
        for m in MODES:
            for n in (1, 2, 3, 5, 6, 8, 11, 12):
                for lv in (1, 2):
                    if sp.accepts(n, L, m, lv) and (lv == 1 or L <= 4 and n <= 8):
                        yield "def1", dict(wavelet=f"sym:{L}", mode=m, level=lv, shape=[n])
    for L in (2, 4, 6):
        for sz in ([3, 3], [5, 5], [4, 4, 6], [5, 5, 9], [5, 5, 8]):
            ok = all(2 * a - L + 2 in (b, b + 1) for a, b in zip(sz[1:], sz[2:])) and 2 * sz[0] - L + 2 > 0
            if ok:
                yield "rec1", dict(wavelet=f"sym:{L}", sizes=sz)
    for w in ("haar", "db2", "bior2.2", "rbio3.3", "db5"):
        L = flen(w)
        for n in (9, 16, 23):
            s3 = [sp.out_len(n, L)]
            while len(s3) < 3:
                s3.append(sp.out_len(s3[-1], L))
            yield "rec1", dict(wavelet=w, sizes=[s3[2]] + s3[::-1], batch=[2])
            yield "rec1", dict(wavelet=w, sizes=[s3[1]] + s3[1::-1], batch=[2, 2], axis=1)


# ------------------------------------------------------------------------------------
# 2-D, 3-D and separable
# ------------------------------------------------------------------------------------
DEC = {"wavedec2": (ptwt.wavedec2, ptwt.waverec2, 2), "wavedec3": (ptwt.wavedec3, ptwt.waverec3, 3),
       "fswavedec2": (ptwt.fswavedec2, ptwt.fswaverec2, 2), "fswavedec3": (ptwt.fswavedec3, ptwt.fswaverec3, 3)}


@harness
def prn(ctx, fn, wavelet, mode, level, shape, axes=None, dtype="float64", form="name"):
    dec, rec, nd = DEC[fn]
    w, _ = wav(ctx, wavelet, dtype, form)
    x = ctx.inp("x", shape, DT[dtype])
    kw = {} if mode is None else {"mode": mode}
    if axes is not None:
        kw["axes"] = tuple(axes)
    co = dec(x, w, level=level, **kw)
    lv = len(co) - 1
    r = rec(co, w, **({"axes": tuple(axes)} if axes is not None else {}))
    check_rec(ctx, "rec", r, x, axes or range(-nd, 0), lv, sp.pr_tol(wavelet, lv, nd, dtype))


KEY2 = ["da", "ad", "dd"]


@harness
def defn(ctx, fn, wavelet, mode, level, shape, axes=None, dtype="float64", form="name", inverse=False):
    dec, rec, nd = DEC[fn]
    w, (lo, hi, glo, ghi) = wav(ctx, wavelet, dtype, form)
    x = ctx.inp("x", shape, DT[dtype])
    X = ctx.arr(x)
    kw = {} if mode is None else {"mode": mode}
    if axes is not None:
        kw["axes"] = tuple(axes)
    co = dec(x, w, level=level, **kw)
    ax = norm_axes(axes if axes is not None else range(-nd, 0), len(shape))
    if level is None:
        level = min(sp.max_level(shape[a], flen(wavelet)) for a in ax)
    ctx.check("len", len(co) == level + 1, f"{len(co)} for level {level}")
    ctx.check("kind", isinstance(co, tuple) or level == 0, type(co))
    default = "zero" if fn == "wavedec3" else "reflect"
    want = sp.wavedecn(X, lo, hi, mode or default, level, ax)
    tol = tol_of(dtype, wavelet, level, nd)
    ctx.equal("approx", co[0], want[0], tol)
    for i, (c, s) in enumerate(zip(co[1:], want[1:])):
        if fn == "wavedec2":
            ctx.check(f"kind{i}", isinstance(c, tuple) and len(c) == 3, type(c))
            for k, t, nm in zip(KEY2, c, ("horizontal", "vertical", "diagonal")):
                ctx.equal(f"L{i}:{k}", t, s[k], tol)
                ctx.check(f"L{i}:{nm}", getattr(c, nm) is t)
        else:
            ctx.check(f"keys{i}", isinstance(c, dict) and sorted(c) == sorted(s), list(c))
            for k in s:
                ctx.equal(f"L{i}:{k}", c[k], s[k], tol)


@harness
def recn(ctx, fn, wavelet, sizes, batch=(1,), dtype="float64"):
    """Inverse transform of arbitrary coefficients equals the tensor-product synthesis.

    sizes: per level (coarse to fine) the subband size."""
    _, rec, nd = DEC[fn]
    w, (_, _, glo, ghi) = wav(ctx, wavelet, dtype)
    shp = lambda s: list(batch) + list(s)  # noqa: E731
    a = ctx.inp("a", shp(sizes[0]), DT[dtype])
    co = [a]
    cur = ctx.arr(a)
    axes = list(range(len(batch), len(batch) + nd))
    names = [k for k in sp.keys(nd) if "d" in k]
    for i, s in enumerate(sizes):
        band = {k: ctx.inp(f"b{i}{k}", shp(s), DT[dtype]) for k in names}
        for d in axes:
            if cur.shape[d] == s[d - len(batch)] + 1:
                cur = np.moveaxis(np.moveaxis(cur, d, 0)[:-1], 0, d)
        sb = {k: ctx.arr(v) for k, v in band.items()}
        sb["a" * nd] = cur
        cur = sp.idwtn(sb, glo, ghi, axes)
        co.append(ptwt.constants.WaveletDetailTuple2d(*(band[k] for k in KEY2)) if fn == "wavedec2" else band)
    r = rec(tuple(co), w)
    ctx.equal("rec", r, cur, tol_of(dtype, wavelet, len(sizes), nd))


def grid_nd(tier, seed, nd, wavelets, sizes, cap):
    """(wavelet, mode, level, shape) with mixed parities and non-square sizes."""
    rng = random.Random(seed)
    out = []
    for wi, w in enumerate(wavelets):
        L = flen(w)
        for mi, m in enumerate(MODES):
            for lv in (1, 2, 3):
                acc = [n for n in sizes if sp.accepts(n, L, m, lv)]
                if not acc:
                    continue
                odd = [n for n in acc if n % 2]
                even = [n for n in acc if n % 2 == 0]
                combos = []
                for par in itertools.product((0, 1), repeat=nd):
                    pick = []
                    for d, p in enumerate(par):
                        src = odd if p else even
                        if not src:
                            break
                        pick.append(src[(wi + mi + lv + 2 * d) % len(src)])
                    else:
                        if np.prod(pick) <= cap:
                            combos.append(pick)
                if tier == "quick":
                    rng.shuffle(combos)
                    combos = combos[:2]
                small = [min(acc)] * nd
                if np.prod(small) <= cap and lv > 1:
                    combos.append(small)
                for c in combos:
                    out.append((w, m, lv, c))
    rng.shuffle(out)
    return out


W2 = ["haar", "db2", "db3", "bior1.3", "bior2.2", "rbio3.1", "sym4", "db6", "bior3.1", "coif1"]
W3 = ["haar", "db2", "bior1.3", "rbio2.2", "bior3.1", "db3"]
S2 = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 19]
S3 = [1, 2, 3, 4, 5, 6, 7, 8, 9]

AX2 = [((3, 5, 4), (0, 2)), ((4, 2, 5), (2, 0)), ((4, 2, 5), (-3, -1)), ((2, 3, 4, 5), (1, 2)),
       ((5, 2, 4, 2), (-2, 0)), ((2, 2, 3, 4), (-1, -2)), ((3, 4), (0, 1)), ((3, 4), (1, 0)),
       ((2, 5, 1, 4, 2), (1, 3)), ((2, 1, 2, 5, 4), (-2, -1)), ((1, 5, 4), (1, 2)), ((5, 4, 3), (1, -3))]
AX3 = [((2, 3, 4, 5), (1, 2, 3)), ((2, 3, 4, 5), (3, 1, 2)), ((3, 4, 2, 5), (0, 1, 3)), ((3, 4, 5), (0, 1, 2)),
       ((3, 4, 5), (2, 0, 1)), ((2, 2, 3, 2, 4), (-1, 2, 1)), ((5, 2, 3, 4), (-4, -1, -2)), ((1, 4, 3, 2), (-3, -2, -1))]


def nd_configs(tier, seed, fn, name, sym=True):
    nd = DEC[fn][2]
    ws, sizes, cap = (W2, S2, 150) if nd == 2 else (W3, S3, 150)
    if tier == "thorough":
        cap *= 3
        ws = ws + (["sym7", "db10", "bior6.8"] if nd == 2 else ["sym4", "bior2.2"])
    for w, m, lv, c in grid_nd(tier, seed, nd, ws, sizes, cap):
        big = np.prod(c) > 80
        yield name, dict(fn=fn, wavelet=w, mode=m, level=lv, shape=list(c) if big else [2] + list(c))
    for i, (s, a) in enumerate(AX2 if nd == 2 else AX3):
        for j, w in enumerate(("haar", "db2")):
            for lv in (1, 2, None, 0):
                m = MODES[(i + j) % 5]
                if lv is None or all(sp.accepts(s[d], flen(w), m, lv) for d in a):
                    yield name, dict(fn=fn, wavelet=w, mode=m, level=lv, shape=list(s), axes=list(a))
    for w, s in (("haar", [2, 6, 7, 5]), ("db2", [8, 7, 9]), ("haar", [4, 5, 6])):
        for dt in ("float32", "float64"):
            yield name, dict(fn=fn, wavelet=w, mode=None, level=None, shape=s, dtype=dt)
            yield name, dict(fn=fn, wavelet=w, mode="symmetric", level=2, shape=s, dtype=dt)
    for form in ("object", "tuple"):
        yield name, dict(fn=fn, wavelet="bior1.3", mode="zero", level=2, shape=[5, 4, 6], form=form)


for _p, _fn in (("C02", "wavedec2"), ("C03", "wavedec3"), ("C04", "fswavedec2"), ("C04", "fswavedec3")):
    def _c(tier, seed, fn=_fn):
        yield from nd_configs(tier, seed, fn, "prn")
    plan(_p)(_c)


def sym_nd(tier, fn):
    nd = DEC[fn][2]
    for L in (2, 4) if nd == 2 else (2,):
        for m in MODES:
            for s in ([[1, 1], [2, 3], [3, 4], [5, 4]] if nd == 2 else [[2, 3, 2], [1, 2, 3], [3, 2, 4]]):
                if all(sp.accepts(n, L, m, 1) for n in s):
                    yield "defn", dict(fn=fn, wavelet=f"sym:{L}", mode=m, level=1, shape=s)


def rec_nd(tier, fn):
    nd = DEC[fn][2]
    for w in ("haar", "db2", "bior2.2" if nd == 2 else "rbio3.1", "sym:2"):
        L = flen(w)
        shapes = ([[5, 6], [7, 4], [3, 9]] if nd == 2 else [[3, 4, 5], [5, 2, 3]])
        if w.startswith("sym"):
            shapes = shapes[:1]
        for s in shapes:
            l1 = [sp.out_len(n, L) for n in s]
            l2 = [sp.out_len(n, L) for n in l1]
            if w.startswith("sym"):
                yield "recn", dict(fn=fn, wavelet=w, sizes=[[2] * nd])
                continue
            yield "recn", dict(fn=fn, wavelet=w, sizes=[l1], batch=[2])
            yield "recn", dict(fn=fn, wavelet=w, sizes=[l2, l1], batch=[])


@plan("C04")
def c04(tier, seed):
    for fn in ("fswavedec2", "fswavedec3"):
        yield from nd_configs(tier, seed + 1, fn, "defn")
        yield from sym_nd(tier, fn)
        yield from rec_nd(tier, fn)


@plan("C06")
def c06(tier, seed):
    for fn in ("wavedec2", "wavedec3"):
        yield from nd_configs(tier, seed + 2, fn, "defn")
        yield from sym_nd(tier, fn)
        yield from rec_nd(tier, fn)


# ------------------------------------------------------------------------------------
# stationary
# ------------------------------------------------------------------------------------
def swt_max_level(n):
    lv = 0
    while n > 0 and n % 2 == 0:
        n //= 2
        lv += 1
    return lv


@harness
def swt_def(ctx, wavelet, level, shape, axis=-1, dtype="float64", form="name", default_axis=False):
    w, (lo, hi, _, _) = wav(ctx, wavelet, dtype, form)
    x = ctx.inp("x", shape, DT[dtype])
    X = ctx.arr(x)
    kw = {} if default_axis else {"axis": axis}
    co = ptwt.swt(x, w, level, **kw)
    if level is None:
        level = swt_max_level(shape[axis])
    ctx.check("len", len(co) == level + 1, f"{len(co)} for level {level}")
    ctx.check("kind", isinstance(co, list), type(co))
    want = sp.swt(X, lo, hi, level, axis)
    tol = tol_of(dtype, wavelet, level)
    for i, (c, s) in enumerate(zip(co, want)):
        ctx.check(f"c{i}:dtype", c.dtype == DT[dtype], c.dtype)
        ctx.equal(f"c{i}", c, s, tol)


@harness
def swt_pr(ctx, wavelet, level, shape, axis=-1, dtype="float64", form="name"):
    w, _ = wav(ctx, wavelet, dtype, form)
    x = ctx.inp("x", shape, DT[dtype])
    co = ptwt.swt(x, w, level, axis=axis)
    r = ptwt.iswt(co, w, axis=axis)
    ctx.check("dtype", r.dtype == DT[dtype], r.dtype)
    ctx.equal("rec", r, ctx.arr(x), sp.pr_tol(wavelet, len(co) - 1, 1, dtype))


@plan("C07")
def c07(tier, seed):
    ws = ["haar", "db2", "db3", "db5", "bior2.2", "bior3.1", "rbio2.4", "sym4", "coif2", "bior1.5", "db9", "bior6.8"]
    for w in ws:
        for n in (2, 4, 6, 8, 10, 12, 16, 20, 24, 32) + ((40, 48, 64) if tier == "thorough" else ()):
            for lv in range(0, min(4, swt_max_level(n)) + 1):
                if lv == 0 and w != "haar":
                    continue
                yield "swt_def", dict(wavelet=w, level=lv, shape=[n])
                yield "swt_pr", dict(wavelet=w, level=lv, shape=[2, n] if n < 17 else [n])
        for n in (1, 3, 5, 7, 9, 6, 10, 15):
            for lv in (1, 2, 3):
                yield "swt_def", dict(wavelet=w, level=lv, shape=[n])
                yield "swt_pr", dict(wavelet=w, level=lv, shape=[n])
    for i, (s, a) in enumerate([((4, 2, 3), 0), ((2, 8, 2), 1), ((2, 8, 2), -2), ((2, 2, 2, 4), -1), ((8, 3), 0),
                                ((2, 1, 4, 2), 2), ((3, 8), 1)]):
        for w in ("haar", "db2", "bior1.3"):
            for lv in (1, 2, None):
                yield "swt_def", dict(wavelet=w, level=lv, shape=list(s), axis=a)
                yield "swt_pr", dict(wavelet=w, level=lv, shape=list(s), axis=a)
    for w in ("db2", "sym5"):
        for dt in ("float32", "float64"):
            for form in ("name", "object", "tuple"):
                yield "swt_def", dict(wavelet=w, level=None, shape=[2, 8], dtype=dt, form=form, default_axis=True)
                yield "swt_pr", dict(wavelet=w, level=2, shape=[2, 8], dtype=dt, form=form)
    for L in (2, 4, 6, 8):
        for n in (1, 2, 4, 6, 8):
            yield "swt_def", dict(wavelet=f"sym:{L}", level=1, shape=[n])
            if L <= 4:
                yield "swt_def", dict(wavelet=f"sym:{L}", level=2, shape=[n])


# ------------------------------------------------------------------------------------
# every wavelet a user can name, and deeper or longer signals
# ------------------------------------------------------------------------------------
def all_wavelets(lmax=200):
    return [w for w in pywt.wavelist(kind="discrete") if flen(w) <= lmax]


LONG = [("haar", 128, 7), ("haar", 97, 5), ("haar", 64, 6), ("haar", 100, None), ("db2", 130, 6), ("db2", 90, 5), ("bior2.2", 101, 5),
        ("db4", 120, 5), ("sym5", 110, None), ("haar", 33, 6), ("db2", 5, 6), ("rbio3.1", 75, 5)]


def c01_wide(h):
    def gen(tier, seed):
        for i, w in enumerate(all_wavelets()):
            L = flen(w)
            for n, k in ((L + 1, 0), (L + 6, 1), (max(L // 2, 2), 2)) if L <= 60 or tier != "quick" else ((L + 1, 0),):
                m = MODES[(i + k) % 5]
                for lv in (1, 2):
                    if sp.accepts(n, L, m, lv) and (lv == 1 or L < 30):
                        yield h, dict(wavelet=w, mode=m, level=lv, shape=[n])
        for i, (w, n, lv) in enumerate(LONG):
            for m in MODES:
                if lv is None or sp.accepts(n, flen(w), m, lv):
                    yield h, dict(wavelet=w, mode=m, level=lv, shape=[n])
    return gen


plan("C01")(c01_wide("pr1"))
plan("C05")(c01_wide("def1"))


def nd_wide(fns, h):
    def gen(tier, seed):
        for fn in fns:
            nd = DEC[fn][2]
            for i, w in enumerate(all_wavelets(12 if nd == 2 else 6)):
                s = [[3, 4], [5, 2], [4, 7]][i % 3] if nd == 2 else [[2, 3, 2], [3, 2, 4]][i % 2]
                yield h, dict(fn=fn, wavelet=w, mode=("symmetric", "zero", "constant")[i % 3], level=1, shape=s)
    return gen


plan("C02")(nd_wide(["wavedec2"], "prn"))
plan("C03")(nd_wide(["wavedec3"], "prn"))
plan("C04")(nd_wide(["fswavedec2", "fswavedec3"], "prn"))
plan("C04")(nd_wide(["fswavedec2", "fswavedec3"], "defn"))
plan("C06")(nd_wide(["wavedec2", "wavedec3"], "defn"))


@plan("C07")
def c07_wide(tier, seed):
    for i, w in enumerate(all_wavelets()):
        for n, lv in ((8, 1), (4, 2), (6, 1)):
            if flen(w) <= 40 or tier != "quick" or lv == 1:
                yield "swt_def", dict(wavelet=w, level=lv, shape=[n])
                yield "swt_pr", dict(wavelet=w, level=lv, shape=[n])
    for w, n, lv in (("haar", 32, 5), ("haar", 64, 6), ("haar", 128, 7), ("db2", 64, 5), ("db2", 32, 6), ("bior2.2", 64, None), ("db3", 48, 5), ("haar", 96, None)):
        yield "swt_def", dict(wavelet=w, level=lv, shape=[n])
        yield "swt_pr", dict(wavelet=w, level=lv, shape=[n])
