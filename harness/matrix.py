"""C08-C10: boundary-wavelet (matrix) transforms."""
import itertools
import random

import numpy as np
import ptwt
import torch
from ptwt.matmul_transform import construct_boundary_a, construct_boundary_s
from ptwt.matmul_transform_2 import construct_boundary_a2, construct_boundary_s2

from symwave import forms as F
from symwave import specs as sp

from . import harness, plan
from .common import DT, MODES, crop, flen, norm_axes, wav

ORTH = ["haar", "db2", "db3", "sym4", "coif1", "db5", "db7", "sym6", "coif2", "db10"]


def dense(m):
    m = m.to_dense() if m.layout != torch.strided else m
    return m.detach().to(torch.float64).numpy()


def rows_of(mat):
    """Sparse rows [(index, coefficient form)] of a constant matrix."""
    return [[(int(j), F.const(float(r[j]))) for j in np.nonzero(r)[0]] for r in mat]


_CACHE = {}


def boundary_rows(wavelet, n, orth, dtype, kind="a"):
    """(low rows, high rows) of the one-dimensional boundary analysis matrix."""
    fn = construct_boundary_a if kind == "a" else construct_boundary_s
    m = dense(fn(wavelet, n, orthogonalization=orth, dtype=DT[dtype]))
    return m


def pad_even(X, axis, mode):
    n = X.shape[axis]
    if n % 2 == 0:
        return X
    rows = [[(i, F.const(1.0))] for i in range(n)]
    j = sp.ext(n, n, mode)
    rows.append([] if j is None else [(j, F.const(1.0))])
    return sp.along(rows, X, axis)


def mat_dwt(X, wavelet, orth, dtype, axis):
    n = X.shape[axis]
    m = boundary_rows(wavelet, n, orth, dtype)
    r = rows_of(m)
    return sp.along(r[:n // 2], X, axis), sp.along(r[n // 2:], X, axis)


def mat_wavedec(X, wavelet, orth, dtype, mode, level, axes):
    """[approx, {bands}, ...] (coarse first); stops where the signal is shorter than the filter."""
    L = flen(wavelet)
    out = []
    a = X
    nd = len(axes)
    if nd == 1:
        a = pad_even(a, axes[0], mode)
    for _ in range(level):
        if min(a.shape[d] for d in axes) < L:
            break
        for d in axes:
            a = pad_even(a, d, mode)
        bands = {"": a}
        for d in axes:
            nb = {}
            for k, v in bands.items():
                lo, hi = mat_dwt(v, wavelet, orth, dtype, d)
                nb[k + "a"], nb[k + "d"] = lo, hi
            bands = nb
        a = bands.pop("a" * nd)
        out.append(bands)
    out.append(a)
    return out[::-1]


def same(A, B, tol):
    """Are two arrays of forms numerically the same linear maps?"""
    if A.shape != B.shape:
        return False
    t = int(tol * F.ONE)
    for i in np.ndindex(*A.shape):
        d = A[i] - B[i]
        if any(abs(v) > t for v in d.c.values()):
            return False
    return True


def rec_sizes(ctx, label, rec, x, axes, computed):
    nd = x.dim()
    ok = ctx.check(label + ":ndim", rec.dim() == nd, f"{tuple(rec.shape)} for {tuple(x.shape)}")
    ax = set(norm_axes(axes, nd))
    if not ok:
        return False
    for d in range(nd):
        n, m = x.shape[d], rec.shape[d]
        allowed = {n} if n % 2 == 0 or d not in ax else {n, n + 1}
        ok = ctx.check(f"{label}:size{d}", m in allowed, f"{m} for input size {n}, levels {computed}") and ok
    ctx.check(label + ":dtype", rec.dtype == x.dtype, f"{rec.dtype}")
    return ok


def mtol(wavelet, level, nd, dtype):
    # the boundary rows are computed in the working precision: leave room for its rounding
    t = sp.pr_tol(wavelet, max(level, 1), nd, dtype)
    return max(t, 2e-8 if dtype == "float64" else 2e-3)


def dtol(dtype, level):
    return 1e-10 if dtype == "float64" else 2e-5 * max(level, 1)


MK = {1: (ptwt.MatrixWavedec, ptwt.MatrixWaverec), 2: (ptwt.MatrixWavedec2, ptwt.MatrixWaverec2),
      3: (ptwt.MatrixWavedec3, ptwt.MatrixWaverec3)}


def objects(nd, w, level, axes, orth, mode, separable=None):
    D, R = MK[nd]
    kd, kr = {}, {}
    if axes is not None:
        if nd == 1:
            kd["axis"] = kr["axis"] = axes[0]
        else:
            kd["axes"] = kr["axes"] = tuple(axes)
    if orth is not None:
        kd["orthogonalization"] = kr["orthogonalization"] = orth
    if separable is not None:
        kd["separable"] = kr["separable"] = separable
    if mode is not None:
        kd["odd_coeff_padding_mode"] = mode
    return D(w, level, **kd), R(w, **kr)


def boundary_pieces(nd, co):
    if nd == 1:
        return [co[0]] + [{"d": c} for c in co[1:]]
    return co


@harness
def mat(ctx, nd, wavelet, level, shape, axes=None, orth="qr", mode="zero", dtype="float64", form="name",
        separable=None):
    """Perfect reconstruction, definition by boundary matrices, subband names."""
    w, _ = wav(ctx, wavelet, dtype, form)
    x = ctx.inp("x", shape, DT[dtype])
    X = ctx.arr(x)
    dec, rec = objects(nd, w, level, axes, orth, mode, separable)
    ax = norm_axes(axes if axes is not None else range(-nd, 0), len(shape))
    co = dec(x)
    r = rec(co)
    lv = len(co) - 1
    if rec_sizes(ctx, "rec", r, x, ax, lv):
        ctx.equal("rec", crop(r, x.shape), X, mtol(wavelet, lv, nd, dtype))
    # definition
    L = flen(wavelet)
    if level is None:
        n = min(shape[a] for a in ax)
        level = sp.max_level(n + n % 2 if nd == 1 else n, L)
    if separable is False:
        names(ctx, co, X, wavelet, ax, dtype)
        nlev = len(mat_levels(shape, ax, L, level))
        ctx.check("levels", lv == nlev, f"{lv} expected {nlev}")
        return
    want = mat_wavedec(X, wavelet, orth, dtype, mode or "zero", level, ax)
    if not ctx.check("levels", len(co) == len(want), f"{lv} expected {len(want) - 1}"):
        return
    tol = dtol(dtype, lv)
    ctx.equal("approx", co[0], want[0], tol)
    for i, (c, s) in enumerate(zip(co[1:], want[1:])):
        if nd == 1:
            ctx.equal(f"L{i}:d", c, s["d"], tol)
        elif nd == 3:
            ctx.check(f"L{i}:keys", isinstance(c, dict) and sorted(c) == sorted(s), str(type(c)))
            for k in s:
                ctx.equal(f"L{i}:{k}", c[k], s[k], tol)
        else:
            ctx.check(f"L{i}:kind", isinstance(c, tuple) and len(c) == 3, str(type(c)))
            order = ["da", "ad", "dd"]
            got0 = ctx.arr(c[0])
            if same(got0, s["ad"], 1e-3 * 0 + tol) and not same(got0, s["da"], tol):
                order = ["ad", "da", "dd"]
            ctx.check("names", order[0] == "da", "horizontal details hold the vertical subband")
            for k, t in zip(order, c):
                ctx.equal(f"L{i}:{k}", t, s[k], tol)


def mat_levels(shape, axes, L, level):
    n = [shape[a] for a in axes]
    out = []
    for _ in range(level):
        if min(n) < L:
            break
        n = [v + v % 2 for v in n]
        out.append(tuple(n))
        n = [v // 2 for v in n]
    return out


def names(ctx, co, X, wavelet, axes, dtype):
    """Subbands of the finest level are plain tensor-product correlations in the interior."""
    lo, hi = [sp.taps(f) for f in sp.filters(wavelet)[:2]]
    L = len(lo)
    if len(co) < 2:
        return
    h, v, d = co[-1]
    tol = dtol(dtype, 1)
    bands = {"da": h, "ad": v, "dd": d}
    if len(co) == 2:
        bands["aa"] = co[0]
    for key, t in bands.items():
        T = ctx.arr(t)
        cur = X
        keep = []
        for l, a in zip(key, axes):
            n = X.shape[a]
            idx, rows = interior(n, lo if l == "a" else hi)
            keep.append(idx)
            cur = sp.along(rows, cur, a)
        T = np.moveaxis(T, axes, range(len(axes)))[np.ix_(*keep)]
        want = np.moveaxis(cur, axes, range(len(axes)))
        ctx.equal(f"names:{key}", T, want, tol)


def interior(n, f):
    """Coefficient indices whose filter support lies inside, and their rows."""
    L = len(f)
    idx, rows = [], []
    for i in range((n + n % 2) // 2):
        t = L // 2 + 2 * i
        if t - L + 1 >= 0 and t <= n - 1:
            idx.append(i)
            rows.append([(t - k, f[k]) for k in range(L)])
    return idx, rows


@harness
def mat_op1(ctx, wavelet, level, shape, orth="qr", dtype="float64"):
    """Exposed operators of the 1-D transform (no padding)."""
    x = ctx.inp("x", shape, DT[dtype])
    dec, rec = objects(1, wavelet, level, None, orth, None)
    co = dec(x)
    n = shape[-1]
    flat = x.reshape(-1, n)
    op = dec.sparse_fwt_operator
    ctx.check("op:shape", tuple(op.shape) == (n, n), op.shape)
    y = torch.sparse.mm(op, flat.T).T
    cat = torch.cat([c.reshape(-1, c.shape[-1]) for c in co], -1)
    tol = dtol(dtype, level)
    ctx.equal("op", y, ctx.arr(cat), tol)
    c = ctx.inp("c", (2, n), DT[dtype])
    sizes = [t.shape[-1] for t in co]
    r = rec(list(torch.split(c, sizes, -1)))
    iop = rec.sparse_ifwt_operator
    ctx.check("iop:shape", tuple(iop.shape) == (n, n), iop.shape)
    z = torch.sparse.mm(iop, c.T).T
    ctx.equal("iop", z, ctx.arr(r), tol)
    back = torch.sparse.mm(iop, y.T).T
    ctx.equal("iop.op", back, ctx.arr(flat), mtol(wavelet, level, 1, dtype))


@harness
def op_guard(ctx, nd, wavelet, level, shapes, orth="qr", separable=False):
    """The exposed operators over a history of calls: refused before any call, refused when several levels
    needed padding, otherwise the operator of the last call."""
    dec, rec = objects(nd, wavelet, level, None, orth, "symmetric" if nd == 1 else None, separable if nd == 2 else None)
    get_op, get_iop = (lambda: dec.sparse_fwt_operator), (lambda: rec.sparse_ifwt_operator)
    err = NotImplementedError if separable else ValueError
    ctx.raises("before:op", get_op, err)
    ctx.raises("before:iop", get_iop, err)
    L = flen(wavelet)
    for i, shape in enumerate(shapes):
        x = ctx.inp(f"x{i}_", shape)
        co = dec(x)
        nlev = len(co) - 1
        ext = [list(shape[-nd:])]
        for _ in range(nlev - 1):
            ext.append([(n + 1) // 2 for n in ext[-1]])
        odd = [any(n % 2 for n in e) for e in ext]
        # in 1-D the signal itself is made even before the matrices are created
        padded = any(odd[1:] if nd == 1 else odd)
        col = (lambda t: t.reshape(-1, t.shape[-1])) if nd == 1 else \
            (lambda t: t.reshape((-1,) + tuple(t.shape[-2:])).transpose(-2, -1).reshape(-1, t.shape[-2] * t.shape[-1]))
        fc = fresh_coeffs(ctx, co, f"c{i}_")
        r = rec(fc)
        if separable:
            ctx.raises(f"op{i}", get_op, NotImplementedError)
            ctx.raises(f"iop{i}", get_iop, NotImplementedError)
            continue
        flat = lambda c: torch.cat([col(t) for t in [c[0]] + [t for e in c[1:] for t in ([e] if nd == 1 else e)]], -1)  # noqa: E731
        if nlev > 1 and padded:
            ctx.raises(f"op{i}", get_op, NotImplementedError)
        elif not any(odd):
            ctx.equal(f"op{i}", torch.sparse.mm(get_op(), col(x).T).T, ctx.arr(flat(co)), dtol("float64", level))
        if nlev > 1 and any(odd[1:]):
            ctx.raises(f"iop{i}", get_iop, NotImplementedError)
        elif not any(odd[1:]):
            ctx.equal(f"iop{i}", torch.sparse.mm(get_iop(), flat(fc).T).T, ctx.arr(col(r)), dtol("float64", level))
    ctx.check("filters", L > 0)


def fresh_coeffs(ctx, co, name):
    from .ops import fresh
    return fresh(ctx, co, name)


@plan("C08")
def c08_guard(tier, seed):
    for orth in ("qr", "gramschmidt"):
        for w, lv, hist in (("haar", 2, [[8], [7], [8]]), ("haar", 2, [[6], [8]]), ("haar", 3, [[16], [12], [2, 16], [10]]), ("db2", 2, [[16], [14], [15], [16]]),
                            ("haar", 1, [[7], [8], [3, 5]]), ("db2", 3, [[2, 32], [30], [32]]), ("db3", 2, [[20], [22], [24]]), ("haar", 2, [[5], [4]])):
            yield "op_guard", dict(nd=1, wavelet=w, level=lv, shapes=hist, orth=orth)


@plan("C09")
def c09_guard(tier, seed):
    for w, lv, hist in (("haar", 2, [[4, 8], [6, 8], [8, 4]]), ("haar", 2, [[4, 7], [4, 4]]), ("db2", 1, [[6, 4], [2, 4, 8]]), ("haar", 2, [[8, 6], [3, 4, 4]]),
                        ("db2", 2, [[8, 8], [8, 10]]), ("haar", 1, [[5, 4], [4, 4]])):
        for sep in (False, True):
            yield "op_guard", dict(nd=2, wavelet=w, level=lv, shapes=hist, separable=sep)


@harness
def mat_op2(ctx, wavelet, level, shape, orth="qr", dtype="float64"):
    """Exposed operators of the 2-D non-separable transform on column-wise flattened images."""
    x = ctx.inp("x", shape, DT[dtype])
    dec, rec = objects(2, wavelet, level, None, orth, None, False)
    co = dec(x)
    H, W = shape[-2:]
    col = lambda t: t.reshape((-1,) + tuple(t.shape[-2:])).transpose(-2, -1).reshape(-1, t.shape[-2] * t.shape[-1])  # noqa: E731
    op = dec.sparse_fwt_operator
    y = torch.sparse.mm(op, col(x).T).T
    parts = [co[0]] + [t for lv in co[1:] for t in lv]
    cat = torch.cat([col(t) for t in parts], -1)
    tol = dtol(dtype, level)
    ctx.equal("op", y, ctx.arr(cat), tol)
    rec(co)
    iop = rec.sparse_ifwt_operator
    c = ctx.inp("c", (1, H * W), DT[dtype])
    # coefficients from a flat vector, column-wise per subband
    pieces, pos = [], 0
    for t in parts:
        h, w_ = t.shape[-2:]
        pieces.append(c[:, pos:pos + h * w_].reshape(-1, w_, h).transpose(-2, -1))
        pos += h * w_
    coeffs = [pieces[0]]
    for i in range(1, len(pieces), 3):
        coeffs.append(ptwt.constants.WaveletDetailTuple2d(*pieces[i:i + 3]))
    r = rec(tuple(coeffs))
    z = torch.sparse.mm(iop, c.T).T
    ctx.equal("iop", z, ctx.arr(col(r)), tol)
    back = torch.sparse.mm(iop, y.T).T
    ctx.equal("iop.op", back, ctx.arr(col(x)), mtol(wavelet, level, 2, dtype))


def grid_mat1(tier, seed):
    rng = random.Random(seed)
    for wi, w in enumerate(ORTH):
        L = flen(w)
        base = [1, 2, 3, L - 1, L, L + 1, L + 2, L + 3, 2 * L, 2 * L + 1, 2 * L + 3, 2 * L + 6, 3 * L + 1, 16, 21, 24, 32]
        if tier == "thorough":
            base += list(range(1, 34)) + [4 * L, 4 * L + 1, 40, 47, 48]
        for n in sorted({b for b in base if 1 <= b <= (44 if tier == "quick" else 96)}):
            for orth in ("qr", "gramschmidt"):
                lv = rng.choice((1, 2, 3))
                mode = MODES[(n + wi) % 5]
                for level in ({lv, 1} if tier == "quick" else (1, 2, 3, 4)):
                    yield dict(nd=1, wavelet=w, level=level, shape=[n] if n > 20 else [2, n], orth=orth, mode=mode)


@plan("C08")
def c08(tier, seed):
    for c in grid_mat1(tier, seed):
        # periodic/reflect padding by one sample needs at least one/two samples
        if c["mode"] == "reflect" and min_len(c) < 2:
            c["mode"] = "zero"
        yield "mat", c
    for w in ("haar", "db2", "sym4"):
        L = flen(w)
        for mode in MODES:
            for n in (L + 1, 2 * L + 1, 2 * L + 2, 2 * L + 3, 4 * L - 1, 17, 22):
                for level in (1, 2, 3):
                    if n % 2 or n % 4:
                        yield "mat", dict(nd=1, wavelet=w, level=level, shape=[n], mode=mode)
    for s, a in [((6, 2, 3), 0), ((2, 9, 2), 1), ((2, 8, 2), -2), ((2, 2, 2, 5), 3), ((9, 2), 0), ((2, 1, 9, 1, 2), 2), ((3, 8), -1)]:
        for w in ("haar", "db2"):
            for lv in (1, 2, None):
                yield "mat", dict(nd=1, wavelet=w, level=lv, shape=list(s), axes=[a], orth="gramschmidt" if lv == 2 else "qr")
    for w in ("haar", "db3", "coif1"):
        for n in (12, 17, 24):
            yield "mat", dict(nd=1, wavelet=w, level=None, shape=[2, n], dtype="float32")
            for form in ("object", "tuple"):
                yield "mat", dict(nd=1, wavelet=w, level=None, shape=[n], form=form)
    for w in ORTH[:6]:
        L = flen(w)
        for orth in ("qr", "gramschmidt"):
            for n, lv in ((L + L % 2, 1), (2 * L, 2), (2 * L + 4, 1), (32, 2), (4 * L, 3), (24, 3)):
                if n % 2 ** lv == 0 and n // 2 ** (lv - 1) >= L and n <= 48:
                    yield "mat_op1", dict(wavelet=w, level=lv, shape=[2, n], orth=orth)
    for n in (16, 24):
        yield "mat_op1", dict(wavelet="db2", level=2, shape=[n], orth="qr", dtype="float32")


def min_len(c):
    return min(c["shape"][a] for a in (c.get("axes") or range(-c["nd"], 0)))


def grid_mat2(tier, seed):
    rng = random.Random(seed)
    sizes = {"haar": [(1, 1), (2, 2), (2, 3), (5, 4), (7, 7), (8, 6), (6, 9)],
             "db2": [(3, 3), (4, 4), (4, 7), (6, 9), (8, 5), (8, 8), (9, 11)],
             "db3": [(6, 6), (7, 8), (12, 9)], "sym4": [(8, 8), (9, 10)], "coif1": [(6, 8), (7, 12)]}
    if tier == "thorough":
        sizes["haar"] += [(a, b) for a in range(1, 11) for b in range(1, 11)]
        sizes["db2"] += [(a, b) for a in range(4, 13) for b in range(4, 13)]
        sizes["db3"] += [(12, 12), (13, 7), (11, 14)]
        sizes["db4"] = [(8, 8), (9, 11), (16, 8)]
    for w, ss in sizes.items():
        for i, s in enumerate(ss):
            for sep in (True, False):
                for orth in ("qr", "gramschmidt"):
                    if not sep and orth == "gramschmidt" and s[0] * s[1] > 64:
                        continue
                    for lv in (1, 2, 3):
                        if lv == 3 and (s[0] * s[1] > 64 and tier == "quick"):
                            continue
                        yield dict(nd=2, wavelet=w, level=lv, shape=list(s) if lv != 1 or s[0] * s[1] > 30 else [2] + list(s),
                                   orth=orth, separable=sep, mode=MODES[(i + lv) % 5] if min(s) > 1 else "zero")


@plan("C09")
def c09(tier, seed):
    for c in grid_mat2(tier, seed):
        L = flen(c["wavelet"])
        if c["mode"] == "reflect" and any(min(v) < 2 for v in mat_levels(c["shape"], (-2, -1), L, c["level"])):
            c["mode"] = "symmetric"
        yield "mat", c
    for sep in (True, False):
        for s, a in [((6, 2, 5), [0, 2]), ((4, 2, 6), [2, 0]), ((2, 6, 4, 2), [-3, -2]), ((6, 5), [1, 0]), ((2, 4, 2, 6), [3, 1]),
                     ((4, 6, 2), [0, 1])]:
            for w in ("haar", "db2"):
                yield "mat", dict(nd=2, wavelet=w, level=1 if w == "db2" else 2, shape=list(s), axes=a, separable=sep)
        for w in ("haar", "db2"):
            for mode in MODES:
                yield "mat", dict(nd=2, wavelet=w, level=2, shape=[9, 10], separable=sep, mode=mode)
                yield "mat", dict(nd=2, wavelet=w, level=None, shape=[10, 7], separable=sep, mode=mode)
            yield "mat", dict(nd=2, wavelet=w, level=None, shape=[2, 8, 5], separable=sep, dtype="float32")
            for form in ("object", "tuple"):
                yield "mat", dict(nd=2, wavelet=w, level=None, shape=[8, 9], separable=sep, form=form)
    yield "mat", dict(nd=2, wavelet="haar", level=2, shape=[8, 6])
    for w, s, lv in [("haar", (4, 4), 2), ("haar", (4, 6), 1), ("haar", (8, 4), 2), ("db2", (4, 6), 1), ("db2", (8, 8), 2),
                     ("db3", (6, 8), 1), ("haar", (2, 8), 1), ("db2", (6, 4), 1)]:
        for orth in ("qr", "gramschmidt"):
            if orth == "gramschmidt" and s[0] * s[1] > 48:
                continue
            yield "mat_op2", dict(wavelet=w, level=lv, shape=[2] + list(s) if s[0] * s[1] < 30 else list(s), orth=orth)
    # three dimensions
    S3 = {"haar": [(1, 1, 1), (2, 2, 2), (3, 4, 5), (4, 4, 4), (5, 2, 6)], "db2": [(4, 4, 4), (5, 4, 6), (4, 7, 4), (3, 5, 5)]}
    if tier == "thorough":
        S3["haar"] += [(a, b, c) for a in range(1, 6) for b in range(2, 6) for c in range(2, 6)]
        S3["db2"] += [(5, 5, 5), (6, 6, 5), (8, 4, 4), (8, 8, 8)]
        S3["db3"] = [(6, 6, 6), (7, 6, 7)]
    for w, ss in S3.items():
        for i, s in enumerate(ss):
            for orth in ("qr", "gramschmidt"):
                for lv in (1, 2):
                    yield "mat", dict(nd=3, wavelet=w, level=lv, shape=list(s), orth=orth, mode=MODES[i % 5] if i % 5 != 3 and min(s) > 1 else "zero")
            for lv in (None, 1):
                yield "mat", dict(nd=3, wavelet=w, level=lv, shape=list(s), mode="symmetric")
    for a in ([0, 1, 2], [2, 0, 1], [-1, 1, 0], [3, 1, 0]):
        yield "mat", dict(nd=3, wavelet="haar", level=1, shape=[3, 4, 2, 2], axes=a)
        yield "mat", dict(nd=3, wavelet="haar", level=2, shape=[4, 2, 3, 5], axes=a)
    yield "mat", dict(nd=3, wavelet="haar", level=None, shape=[2, 4, 3, 4], dtype="float32")
    yield "mat", dict(nd=3, wavelet="db2", level=1, shape=[4, 5, 4], form="tuple")


# ------------------------------------------------------------------------------------
# C10
# ------------------------------------------------------------------------------------
@harness
def orth1(ctx, wavelet, n, orth="qr", dtype="float64"):
    dt = DT[dtype]
    A = construct_boundary_a(wavelet, n, orthogonalization=orth, dtype=dt)
    Sy = construct_boundary_s(wavelet, n, orthogonalization=orth, dtype=dt)
    ctx.check("shape", tuple(A.shape) == (n, n) == tuple(Sy.shape), f"{A.shape} {Sy.shape}")
    ctx.check("dtype", A.dtype == dt and Sy.dtype == dt, f"{A.dtype} {Sy.dtype}")
    tol = mtol(wavelet, 1, 1, dtype)
    x = ctx.inp("x", (n, 1), dt)
    X = ctx.arr(x)
    ax = torch.sparse.mm(A, x)
    Sd = Sy.to_dense()
    At = A.to_dense().T.contiguous()
    # synthesis is the transpose, on every vector
    ctx.equal("transpose", torch.mm(Sd, x), ctx.arr(torch.mm(At, x)), tol)
    # inner products of any two vectors: <Ax, Ay> = <x, y>
    if n <= 18:
        y = ctx.inp("y", (n, 1), dt)
        ay = torch.sparse.mm(A, y)
        ctx.equal("inner", (ax * ay).sum(), np.array(dotf(X[:, 0], ctx.arr(y)[:, 0]), dtype=object), tol * n)
    # equivalently A^T A x = x and A A^T x = x
    ctx.equal("AtA", torch.mm(At, ax), X, tol)
    ctx.equal("AAt", torch.sparse.mm(A, torch.mm(At, x)), X, tol)
    # interior rows are the plain filters
    lo, hi = [sp.taps(f) for f in sp.filters(wavelet)[:2]]
    Y = ctx.arr(ax)
    for name, f, off in (("lo", lo, 0), ("hi", hi, n // 2)):
        idx, rows = interior(n, f)
        ctx.equal(f"interior:{name}", Y[[off + i for i in idx]], sp.along(rows, X, 0), dtol(dtype, 1))


def dotf(a, b):
    return sp.dot(list(zip(a, b)))


@harness
def orth2(ctx, wavelet, h, w, orth="qr", dtype="float64"):
    dt = DT[dtype]
    n = h * w
    A = construct_boundary_a2(wavelet, h, w, "cpu", orthogonalization=orth, dtype=dt)
    Sy = construct_boundary_s2(wavelet, h, w, "cpu", orthogonalization=orth, dtype=dt)
    ctx.check("shape", tuple(A.shape) == (n, n) == tuple(Sy.shape), f"{A.shape} {Sy.shape}")
    ctx.check("dtype", A.dtype == dt and Sy.dtype == dt, f"{A.dtype} {Sy.dtype}")
    tol = mtol(wavelet, 1, 2, dtype)
    x = ctx.inp("x", (h, w), dt)
    X = ctx.arr(x)
    col = x.T.reshape(n, 1)
    ax = torch.sparse.mm(A, col)
    Sd = Sy.to_dense()
    At = A.to_dense().T.contiguous()
    C = ctx.arr(col)
    ctx.equal("transpose", torch.mm(Sd, col), ctx.arr(torch.mm(At, col)), tol)
    if n <= 16:
        y = ctx.inp("y", (n, 1), dt)
        ay = torch.sparse.mm(A, y)
        ctx.equal("inner", (ax * ay).sum(), np.array(dotf(C[:, 0], ctx.arr(y)[:, 0]), dtype=object), tol * n)
    ctx.equal("AtA", torch.mm(At, ax), C, tol)
    ctx.equal("AAt", torch.sparse.mm(A, torch.mm(At, col)), C, tol)
    fl = [sp.taps(f) for f in sp.filters(wavelet)[:2]]
    Y = ctx.arr(ax)[:, 0].reshape(4, w // 2, h // 2)
    for q, key in enumerate(("aa", "da", "ad", "dd")):
        i0, r0 = interior(h, fl["ad".index(key[0])])
        i1, r1 = interior(w, fl["ad".index(key[1])])
        want = sp.along(r1, sp.along(r0, X, 0), 1)
        ctx.equal(f"interior:{key}", Y[q].T[np.ix_(i0, i1)], want, dtol(dtype, 1))


@plan("C10")
def c10(tier, seed):
    for w in ORTH + (["db4", "db6", "db8", "sym3", "sym5", "sym8", "coif3"] if tier == "quick" else
                     ["db4", "db6", "db8", "db9", "sym3", "sym5", "sym7", "sym8", "sym10", "coif3", "coif4", "db12", "db15"]):
        L = flen(w)
        ns = sorted({L + L % 2, L + L % 2 + 2, L + L % 2 + 4, 2 * L, 2 * L + 2, 3 * L + (3 * L) % 2, 16, 18, 32})
        for n in ns:
            if L <= n <= (40 if tier == "quick" else 72):
                for orth in ("qr", "gramschmidt"):
                    yield "orth1", dict(wavelet=w, n=n, orth=orth)
        if L <= 12:
            for orth in ("qr", "gramschmidt"):
                yield "orth1", dict(wavelet=w, n=2 * L, orth=orth, dtype="float32")
    for w, ss in {"haar": [(2, 2), (2, 4), (4, 2), (4, 6), (8, 4)], "db2": [(4, 4), (4, 6), (6, 4), (8, 6), (10, 4)],
                  "db3": [(6, 6), (6, 8), (10, 6)], "sym4": [(8, 8), (8, 10)], "coif1": [(6, 8)]}.items():
        for h, v in ss:
            for orth in ("qr", "gramschmidt"):
                if orth == "gramschmidt" and h * v > (48 if tier == "quick" else 100):
                    continue
                yield "orth2", dict(wavelet=w, h=h, w=v, orth=orth)
            yield "orth2", dict(wavelet=w, h=h, w=v, dtype="float32") if h * v < 50 else dict(wavelet=w, h=h, w=v)


# ------------------------------------------------------------------------------------
# every orthogonal wavelet, and deeper transforms
# ------------------------------------------------------------------------------------
def orthogonal_wavelets(lmax):
    import pywt
    return [w for w in pywt.wavelist(kind="discrete") if pywt.Wavelet(w).orthogonal and w != "dmey" and flen(w) <= lmax]


@plan("C08")
def c08_wide(tier, seed):
    for i, w in enumerate(orthogonal_wavelets(24 if tier == "quick" else 40)):
        L = flen(w)
        yield "mat", dict(nd=1, wavelet=w, level=1, shape=[L + L % 2], mode="zero")
        yield "mat", dict(nd=1, wavelet=w, level=1, shape=[L + 1], mode=MODES[i % 5])
        if L <= 12:
            yield "mat", dict(nd=1, wavelet=w, level=2, shape=[2 * L + 1], mode=MODES[(i + 1) % 5])
    for w, n, lv in (("haar", 64, 6), ("haar", 75, 5), ("haar", 33, 6), ("db2", 64, 5), ("db2", 49, None), ("db3", 48, 4), ("haar", 5, 6)):
        for mode in ("zero", "symmetric") if n % 2 else ("zero",):
            yield "mat", dict(nd=1, wavelet=w, level=lv, shape=[n], mode=mode)


@plan("C10")
def c10_wide(tier, seed):
    for w in orthogonal_wavelets(24 if tier == "quick" else 40):
        L = flen(w)
        yield "orth1", dict(wavelet=w, n=L + L % 2, orth="qr")
        if L <= 16:
            yield "orth1", dict(wavelet=w, n=L + L % 2 + 2, orth="gramschmidt")
