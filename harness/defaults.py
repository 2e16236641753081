"""C26: omitted, aliased and unusable options."""
import itertools
import warnings

import numpy as np
import ptwt
import pywt
import torch
from ptwt import matmul_transform as m1
from ptwt import matmul_transform_2 as m2
from ptwt import sparse_math as sm

from . import harness, plan
from .common import DT
from .ops import ND, attempt, compare, fresh, leaves, packet_nodes

TIGHT = 1e-10
LAST = {1: -1, 2: (-2, -1), 3: (-3, -2, -1)}


def ax(nd, v=None):
    return {"axis" if nd == 1 else "axes": LAST[nd] if v is None else v}


# documented defaults of every entry point: name -> (callable kind, {option: default})
DEC = {"wavedec": (ptwt.wavedec, ptwt.waverec, "reflect"), "wavedec2": (ptwt.wavedec2, ptwt.waverec2, "reflect"),
       "wavedec3": (ptwt.wavedec3, ptwt.waverec3, "zero"), "fswavedec2": (ptwt.fswavedec2, ptwt.fswaverec2, "reflect"),
       "fswavedec3": (ptwt.fswavedec3, ptwt.fswaverec3, "reflect"), "swt": (ptwt.swt, ptwt.iswt, None)}
MAT = {"MatrixWavedec": (ptwt.MatrixWavedec, ptwt.MatrixWaverec), "MatrixWavedec2": (ptwt.MatrixWavedec2, ptwt.MatrixWaverec2),
       "MatrixWavedec3": (ptwt.MatrixWavedec3, ptwt.MatrixWaverec3)}
PKT = {"WaveletPacket": ptwt.WaveletPacket, "WaveletPacket2D": ptwt.WaveletPacket2D}


def alternatives(name):
    """{option: (documented default, another legal value)}."""
    nd = ND[name]
    axkey = "axis" if nd == 1 else "axes"
    other = {1: 0, 2: (1, 0), 3: (2, 0, 1)}[nd]
    if name in DEC:
        o = {axkey: (LAST[nd], other)}
        if DEC[name][2]:
            o["mode"] = (DEC[name][2], "symmetric")
        return o, {axkey: o[axkey]}
    if name in MAT:
        o = {axkey: (LAST[nd], other), "orthogonalization": ("qr", "gramschmidt")}
        if nd == 2:
            o["separable"] = (True, False)
        return dict(o, odd_coeff_padding_mode=("zero", "symmetric")), o
    o = {axkey: (LAST[nd], other), "mode": ("reflect", "boundary"), "orthogonalization": ("qr", "gramschmidt")}
    if nd == 2:
        o["separable"] = (False, True)
    return o, {}


def settings(opts):
    """(full, omitted): every subset of options left out, the others at either value."""
    names = sorted(opts)
    for left in itertools.chain.from_iterable(itertools.combinations(names, k) for k in range(1, len(names) + 1)):
        given = [n for n in names if n not in left]
        for pick in sorted({(1,) * len(given), (0,) * len(given)}):
            short = {n: opts[n][p] for n, p in zip(given, pick)}
            full = dict(short, **{n: opts[n][0] for n in left})
            yield left, short, full




@harness
def omitted(ctx, name, wavelet, level, shape, dtype="float64"):
    """Leaving options out equals passing their documented default, forwards and backwards."""
    x = ctx.inp("x", shape, DT[dtype])
    fo, ro = alternatives(name)
    axkey = "axis" if ND[name] == 1 else "axes"
    for left, short, full in settings(fo):
        tag = "+".join(left) + ("*" if any(short[k] == fo[k][1] for k in short) else "")
        if name in DEC:
            a = attempt(lambda: DEC[name][0](x, wavelet, level=level, **short))
            b = attempt(lambda: DEC[name][0](x, wavelet, level=level, **full))
        elif name in MAT:
            a = attempt(lambda: MAT[name][0](wavelet, level, **short)(x))
            b = attempt(lambda: MAT[name][0](wavelet, level, **full)(x))
        else:
            def nodes(kw):
                wp = PKT[name](x, wavelet, maxlevel=level, **kw)
                return {k: wp[k] for k in packet_nodes(name, level)}
            a, b = attempt(lambda: nodes(short)), attempt(lambda: nodes(full))
        if ctx.check(f"fwd:{tag}:outcome", a[0] == b[0], f"{a[0]} vs {b[0]}") and a[0] == "ok":
            compare(ctx, f"fwd:{tag}", a[1], b[1], TIGHT)
    if not ro:
        return
    base = {axkey: fo[axkey][0]}
    y = DEC[name][0](x, wavelet, level=level, **base) if name in DEC else MAT[name][0](wavelet, level)(x)
    z = DEC[name][0](x, wavelet, level=level, **{axkey: fo[axkey][1]}) if name in DEC else \
        MAT[name][0](wavelet, level, **{axkey: fo[axkey][1]})(x)
    cy, cz = fresh(ctx, y, "c"), fresh(ctx, z, "e")
    for left, short, full in settings(ro):
        tag = "+".join(left) + ("*" if any(short[k] == ro[k][1] for k in short) else "")
        co = cz if full[axkey] == ro[axkey][1] else cy
        if name in DEC:
            a = attempt(lambda: DEC[name][1](co, wavelet, **short))
            b = attempt(lambda: DEC[name][1](co, wavelet, **full))
        else:
            a = attempt(lambda: MAT[name][1](wavelet, **short)(co))
            b = attempt(lambda: MAT[name][1](wavelet, **full)(co))
        if ctx.check(f"inv:{tag}:outcome", a[0] == b[0], f"{a[0]} vs {b[0]}") and a[0] == "ok":
            compare(ctx, f"inv:{tag}", a[1], b[1], TIGHT)


@harness
def omitted_none(ctx, name, wavelet, level, shape):
    """None for optional axes (where the signature documents it) means the last axes."""
    x = ctx.inp("x", shape)
    k = "axis" if ND[name] == 1 else "axes"
    if name in MAT:
        D, R = MAT[name]
        y = D(wavelet, level, **{k: None})(x)
        compare(ctx, "fwd", y, D(wavelet, level, **{k: LAST[ND[name]]})(x), TIGHT)
        compare(ctx, "inv", R(wavelet, **{k: None})(y), R(wavelet, **{k: LAST[ND[name]]})(y), TIGHT)
    elif name in PKT:
        def nodes(v):
            wp = PKT[name](x, wavelet, maxlevel=level, **{k: v})
            return {n: wp[n] for n in packet_nodes(name, level)}
        compare(ctx, "fwd", nodes(None), nodes(LAST[ND[name]]), TIGHT)
    else:
        f, r, _ = DEC[name]
        y = f(x, wavelet, level=level)
        compare(ctx, "inv", r(y, wavelet, **{k: None}), r(y, wavelet, **{k: LAST[ND[name]]}), TIGHT)
        if name in ("swt", "fswavedec2", "fswavedec3"):
            compare(ctx, "fwd", f(x, wavelet, level=level, **{k: None}), f(x, wavelet, level=level, **{k: LAST[ND[name]]}), TIGHT)


def warned(ctx, label, fn):
    """Value of fn(), which must emit a DeprecationWarning."""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        r = fn()
    ctx.check(label + ":warns", any(issubclass(w.category, DeprecationWarning) for w in rec), [w.category.__name__ for w in rec])
    return r


@harness
def alias(ctx, name, wavelet, level, shape):
    """The deprecated keyword warns, acts like the new one and may not be combined with it."""
    x = ctx.inp("x", shape)
    for orth in ("qr", "gramschmidt"):
        if name in MAT:
            D, R = MAT[name]
            y = D(wavelet, level, orthogonalization=orth)(x)
            compare(ctx, f"fwd:{orth}", warned(ctx, f"fwd:{orth}", lambda: D(wavelet, level, boundary=orth))(x), y, TIGHT)
            c = fresh(ctx, y, f"c{orth}")
            compare(ctx, f"inv:{orth}", warned(ctx, f"inv:{orth}", lambda: R(wavelet, boundary=orth))(c),
                    R(wavelet, orthogonalization=orth)(c), TIGHT)
            ctx.raises(f"both:fwd:{orth}", lambda: D(wavelet, level, boundary=orth, orthogonalization=orth), TypeError)
            ctx.raises(f"both:inv:{orth}", lambda: R(wavelet, boundary=orth, orthogonalization=orth), TypeError)
        else:
            def make(**kw):
                return PKT[name](x, wavelet, mode="boundary", maxlevel=level, **kw)
            old = warned(ctx, orth, lambda: make(boundary_orthogonalization=orth))
            new = make(orthogonalization=orth)
            keys = packet_nodes(name, level)
            compare(ctx, f"nodes:{orth}", {k: old[k] for k in keys}, {k: new[k] for k in keys}, TIGHT)
            ctx.raises(f"both:{orth}", lambda: make(boundary_orthogonalization=orth, orthogonalization=orth), TypeError)


BUILD = {"construct_boundary_a": (m1.construct_boundary_a, 1), "construct_boundary_s": (m1.construct_boundary_s, 1),
         "construct_boundary_a2": (m2.construct_boundary_a2, 2), "construct_boundary_s2": (m2.construct_boundary_s2, 2)}


@harness
def builder(ctx, name, wavelet, size):
    """Boundary matrix constructors: defaults, alias, refused methods, acting on any data."""
    f, nd = BUILD[name]
    size = tuple(size)
    n = int(np.prod(size))
    x = ctx.inp("x", (n, 1))
    dev = () if nd == 1 else ("cpu",)

    def act(M):
        ctx.check("dtype", M.dtype == torch.float64, M.dtype)
        return torch.sparse.mm(M, x)
    want = act(f(wavelet, *size, device="cpu", orthogonalization="qr", dtype=torch.float64))
    compare(ctx, "default", act(f(wavelet, *size, *dev)), want, TIGHT)
    for orth in ("qr", "gramschmidt"):
        w = act(f(wavelet, *size, device="cpu", orthogonalization=orth))
        compare(ctx, f"alias:{orth}", act(warned(ctx, orth, lambda: f(wavelet, *size, device="cpu", boundary=orth))), w, TIGHT)
        ctx.raises(f"both:{orth}", lambda: f(wavelet, *size, device="cpu", boundary=orth, orthogonalization=orth), TypeError)
    for bad in ("svd", "QR", ""):
        ctx.raises(f"bad:{bad}", lambda: f(wavelet, *size, device="cpu", orthogonalization=bad), (ValueError, NotImplementedError))


@harness
def refused(ctx, name, wavelet, level, shape):
    """Unknown modes, methods, axes and levels raise the documented error instead of computing something else."""
    x = ctx.inp("x", shape)
    nd = ND[name]
    k = "axis" if nd == 1 else "axes"
    count = [(0, 1, 2, 3)] + {1: [(0, 1), ()], 2: [(0,), (0, 1, 2), 1], 3: [(0, 1), (0,), 2]}[nd]
    twice = {1: [], 2: [(0, 0), (-1, -1)], 3: [(0, 0, 1), (0, 1, 0), (1, 0, 0), (-1, -1, -1)]}[nd]
    low = ctx.inp("low", (4,) * (nd - 1)) if nd > 1 else None
    if name in DEC:
        f, r, mode = DEC[name]
        y = f(x, wavelet, level=level)
        for v in count + twice:
            ctx.raises(f"fwd:axes:{v}", lambda: f(x, wavelet, level=level, **{k: v}), ValueError)
            ctx.raises(f"inv:axes:{v}", lambda: r(y, wavelet, **{k: v}), ValueError)
        for m in ("edge", "Zero", "boundary", "circular", ""):
            if mode:
                ctx.raises(f"mode:{m}", lambda: f(x, wavelet, level=level, mode=m), ValueError)
        if low is not None:
            ctx.raises("lowdim", lambda: f(low, wavelet, level=1), ValueError)
    elif name in MAT:
        D, R = MAT[name]
        for v in count + twice:
            ctx.raises(f"fwd:axes:{v}", lambda: D(wavelet, level, **{k: v}), ValueError)
            ctx.raises(f"inv:axes:{v}", lambda: R(wavelet, **{k: v}), ValueError)
        for o in ("svd", "QR", "", "gram_schmidt"):
            ctx.raises(f"fwd:orth:{o}", lambda: D(wavelet, level, orthogonalization=o), NotImplementedError)
            ctx.raises(f"inv:orth:{o}", lambda: R(wavelet, orthogonalization=o), NotImplementedError)
        for lv in (0, -1, -level):
            ctx.raises(f"level:{lv}", lambda: D(wavelet, lv)(x), ValueError)
        t = ptwt.WaveletTensorTuple.from_wavelet(pywt.Wavelet(wavelet), torch.float64)
        z = torch.zeros(2, dtype=torch.float64)
        for lab, bank in (("longrec", t._replace(rec_lo=torch.cat([t.rec_lo, z]), rec_hi=torch.cat([t.rec_hi, z]))),
                          ("longdec", t._replace(dec_lo=torch.cat([t.dec_lo, z]), dec_hi=torch.cat([t.dec_hi, z])))):
            ctx.raises(f"fwd:{lab}", lambda: D(bank, level), ValueError)
            ctx.raises(f"inv:{lab}", lambda: R(bank), ValueError)
        odd = ctx.inp("odd", tuple(s - 1 for s in shape))
        for m in ("edge", "Zero", "circular"):
            ctx.raises(f"mode:{m}", lambda: D(wavelet, level, odd_coeff_padding_mode=m)(odd), ValueError)
        if low is not None:
            ctx.raises("lowdim", lambda: D(wavelet, 1)(low), ValueError)
    else:
        C = PKT[name]
        for v in count + twice:
            ctx.raises(f"axes:{v}", lambda: C(x, wavelet, maxlevel=level, **{k: v}), ValueError)
        for m in ("edge", "Zero", "circular", ""):
            ctx.raises(f"mode:{m}", lambda: C(x, wavelet, maxlevel=level, mode=m)["a"], ValueError)
        for o in ("svd", "QR", ""):
            for m in ("reflect", "boundary"):
                ctx.raises(f"orth:{o}:{m}", lambda: C(x, wavelet, maxlevel=level, mode=m, orthogonalization=o), NotImplementedError)
        ctx.raises("order", lambda: C.get_level(level, "lexicographic"), ValueError)
        empty = C(None, wavelet)
        ctx.raises("empty:get", lambda: empty["a"], ValueError)
        ctx.raises("empty:root", lambda: empty[""], ValueError)
        ctx.raises("empty:rec", lambda: empty.reconstruct(), ValueError)


@harness
def cwt_defaults(ctx, wavelet, scales, shape):
    x = ctx.inp("x", shape)
    y, f = ptwt.cwt(x, np.array(scales), wavelet)
    for label, kw in (("both", dict(sampling_period=1.0, precision=12)), ("period", dict(sampling_period=1.0)),
                      ("precision", dict(precision=12))):
        z, g = ptwt.cwt(x, np.array(scales), wavelet, **kw)
        compare(ctx, label, z, y, TIGHT)
        ctx.check(label + ":freq", np.array_equal(f, g), f"{f} {g}")
    z, g = ptwt.cwt(x, np.array(scales), pywt.ContinuousWavelet(wavelet))
    compare(ctx, "object", z, y, TIGHT)
    ctx.check("object:freq", np.array_equal(f, g), f"{f} {g}")
    for p in (0.5, 0.02):
        z, g = ptwt.cwt(x, np.array(scales), wavelet, sampling_period=p)
        compare(ctx, f"period{p}", z, y, TIGHT)
        ctx.check(f"period{p}:freq", np.allclose(f / p, g, rtol=1e-12, atol=0), f"{f} {g}")


@harness
def sparse_defaults(ctx, length, rows, cols):
    f = ctx.inp("f", (length,))
    g = ctx.inp("g", (2, length))
    d = lambda M: M.to_dense() if M.layout != torch.strided else M  # noqa: E731
    compare(ctx, "conv", d(sm.construct_conv_matrix(f, rows)), d(sm.construct_conv_matrix(f, rows, mode="valid")), TIGHT)
    compare(ctx, "conv2", d(sm.construct_conv2d_matrix(g, rows, cols)),
            d(sm.construct_conv2d_matrix(g, rows, cols, mode="valid", fully_sparse=True)), TIGHT)
    compare(ctx, "strided", d(sm.construct_strided_conv_matrix(f, rows)),
            d(sm.construct_strided_conv_matrix(f, rows, 2, mode="valid")), TIGHT)
    compare(ctx, "strided2", d(sm.construct_strided_conv2d_matrix(g, rows, cols)),
            d(sm.construct_strided_conv2d_matrix(g, rows, cols, 2, mode="full")), TIGHT)


@plan("C26")
def c26(tier, seed):
    T = tier == "thorough"
    sizes = {1: [(8, 9), (10, 12)], 2: [(6, 7), (8, 8)], 3: [(4, 5, 6), (4, 4, 4)]}
    if T:
        sizes = {1: [(8, 9), (10, 12), (2, 11, 14)], 2: [(6, 7), (8, 8), (2, 9, 6)], 3: [(4, 5, 6), (4, 4, 4), (6, 7, 5)]}
    every = list(DEC) + list(MAT) + list(PKT)
    for name in every:
        nd = ND[name]
        for i, s in enumerate(sizes[nd]):
            if name == "swt":
                s = tuple(8 for _ in s)
            for w in (["haar", "db2"] if nd < 3 else ["haar"]) + (["db3", "bior2.2"] if T and nd < 3 else []):
                lv = 2 if nd == 1 or (nd == 2 and w == "haar" and name not in PKT) else 1
                if w != "haar" and (name in MAT or name in PKT) and (i == 0 or nd == 2 and w != "db2"):
                    continue
                yield "omitted", dict(name=name, wavelet=w, level=lv, shape=s)
                yield "omitted_none", dict(name=name, wavelet=w, level=lv, shape=s)
    for name in list(MAT) + list(PKT):
        nd = ND[name]
        for w, s, lv in {1: [("haar", (9,), 2), ("db2", (2, 10), 1), ("db3", (12,), 1)], 2: [("haar", (6, 7), 1), ("db2", (6, 8), 1)],
                         3: [("haar", (4, 5, 4), 1)]}[nd]:
            yield "alias", dict(name=name, wavelet=w, level=lv, shape=s)
    for name, (_, nd) in BUILD.items():
        for w, ss in (("haar", [(6,), (8,)]), ("db2", [(6,), (10,)]), ("sym3", [(8,), (14,)])) if nd == 1 else \
                (("haar", [(2, 4), (4, 4)]), ("db2", [(4, 6)])):
            for s in ss:
                yield "builder", dict(name=name, wavelet=w, size=s)
    for name in every:
        s = {1: (2, 3, 8), 2: (2, 8, 8), 3: (8, 8, 8)}[ND[name]]
        for w in ("haar", "db2") if ND[name] < 3 else ("haar",):
            yield "refused", dict(name=name, wavelet=w, level=1, shape=s)
    for w in ("morl", "mexh", "gaus3", "cmor1.5-1.0", "shan1.0-1.5", "cgau2"):
        yield "cwt_defaults", dict(wavelet=w, scales=[1.0, 2.5, 4.0], shape=(9,))
        if T:
            yield "cwt_defaults", dict(wavelet=w, scales=[2.0, 3.0], shape=(2, 12))
    for L, r, c in ((2, 4, 5), (3, 5, 4), (4, 6, 6)):
        yield "sparse_defaults", dict(length=L, rows=r, cols=c)
