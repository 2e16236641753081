"""C28: results depend on the values, not on the memory layout of the arguments or on autograd mode."""
import ptwt
import torch
from ptwt import sparse_math as sm

from symwave import specs as sp

from . import harness, plan
from .behave import expandable
from .common import DT, MODES, flen
from .ops import MATRIX, ND, PACKET, attempt, compare, fresh, fwd, inv, mapt, matrix_objects, packet_object

LAYOUTS = ["transposed", "reversed", "stepped", "offset", "tail", "repeated"]


def laid_out(ctx, name, shape, dtype, layout, axes=()):
    """A tensor of fresh symbolic entries that is a view of other memory."""
    shape = tuple(int(s) for s in shape)
    n = len(shape)
    if layout == "transposed":          # column-major
        return ctx.inp(name, shape[::-1], dtype).permute(*range(n - 1, -1, -1))
    if layout == "reversed":            # the last axis varies slowest
        return ctx.inp(name, (shape[-1],) + shape[:-1], dtype).movedim(0, -1)
    if layout == "stepped":             # every second sample of a longer signal
        return ctx.inp(name, shape[:-1] + (2 * shape[-1],), dtype)[..., ::2]
    if layout == "offset":              # the middle of a larger tensor
        return ctx.inp(name, tuple(s + 2 for s in shape), dtype)[tuple(slice(1, s + 1) for s in shape)]
    if layout == "tail":                # one plane of a larger tensor
        return ctx.inp(name, shape + (2,), dtype)[..., 1]
    if layout == "repeated":            # stride 0 along the first axis
        return ctx.inp(name, (1,) + shape[1:], dtype).expand(shape)
    if layout == "constant":            # stride 0 along the transformed axis
        return ctx.inp(name, shape[:-1] + (1,), dtype).expand(shape)
    raise AssertionError(layout)


def dense(t):
    return t.clone(memory_format=torch.contiguous_format)


@harness
def layout(ctx, name, wavelet, level, shape, layout, axes=None, mode=None, dtype="float64", orth=None):
    """A view and a contiguous copy of it give the same analysis and synthesis."""
    dt = DT[dtype]
    tol = {"float64": 1e-12, "float32": 1e-5}[dtype]
    x = laid_out(ctx, "x", shape, dt, layout)
    y = fwd(name, dense(x), wavelet, level, axes, mode, orth)
    a = attempt(lambda: fwd(name, x, wavelet, level, axes, mode, orth))
    if ctx.check("fwd:accepted", a[0] == "ok", a[1]):
        compare(ctx, "fwd", a[1], y, tol)
    if name in PACKET:
        if ND[name] == 1:
            n = [0]

            def rec(conv):
                w = packet_object(name, None, wavelet, level, axes, mode, orth)
                w.transform(dense(x), maxlevel=level)
                w.initialize(ptwt.WaveletPacket.get_level(level, "natural"))
                for k in ptwt.WaveletPacket.get_level(level, "natural"):
                    w[k] = conv(co[k])
                return w.reconstruct()[""]
            co = {}
            for k in ptwt.WaveletPacket.get_level(level, "natural"):
                n[0] += 1
                co[k] = laid_out(ctx, f"c{n[0]}", y[k].shape, dt, layout)
            want = rec(dense)
            b = attempt(lambda: rec(lambda t: t))
            if ctx.check("inv:accepted", b[0] == "ok", b[1]):
                compare(ctx, "inv", b[1], want, tol)
        return
    n = [0]

    def view(t):
        n[0] += 1
        return laid_out(ctx, f"c{n[0]}_", t.shape, dt, layout)
    co = mapt(y, view)
    want = inv(name, mapt(co, dense), wavelet, axes, orth)
    b = attempt(lambda: inv(name, co, wavelet, axes, orth))
    if ctx.check("inv:accepted", b[0] == "ok", b[1]):
        compare(ctx, "inv", b[1], want, tol)


@harness
def layout_mixed(ctx, name, wavelet, level, shape, axes=None, mode=None):
    """One object fed alternately with views and copies; coefficients of different layouts in one call."""
    x = laid_out(ctx, "x", shape, torch.float64, "transposed")
    if name in MATRIX:
        D, R = matrix_objects(name, wavelet, level, axes)
    else:
        D, R = (lambda t: fwd(name, t, wavelet, level, axes, mode)), (lambda c: inv(name, c, wavelet, axes))
    y = D(dense(x))
    compare(ctx, "fwd1", D(x), y, 1e-12)
    n = [0]

    def view(t):
        n[0] += 1
        return laid_out(ctx, f"c{n[0]}_", t.shape, torch.float64, LAYOUTS[n[0] % 5])
    co = mapt(y, view)
    want = R(mapt(co, dense))
    compare(ctx, "inv1", R(co), want, 1e-12)
    compare(ctx, "fwd2", D(dense(x)), y, 1e-12)


@harness
def layout_cwt(ctx, wavelet, scales, shape, layout, dtype="float64"):
    x = laid_out(ctx, "x", shape, DT[dtype], layout)
    y, f = ptwt.cwt(dense(x), list(scales), wavelet)
    a = attempt(lambda: ptwt.cwt(x, list(scales), wavelet))
    if ctx.check("accepted", a[0] == "ok", a[1]):
        compare(ctx, "cwt", a[1][0], y, 1e-10)
        ctx.check("frequencies", [float(v) for v in a[1][1]] == [float(v) for v in f])


@harness
def layout_taps(ctx, name, length, layout, shape, level=1, mode="zero"):
    """Filter taps that are views of a larger tensor."""
    x = ctx.inp("x", shape)
    base = torch.tensor([[0.5, 0.25, -0.75, 0.125, 1.0, -0.375], [0.75, -0.5, 0.25, 1.5, -1.0, 0.625]], dtype=torch.float64)
    base = torch.cat([base, base.flip(1) * 0.5])[:, :length]
    if layout == "transposed":
        taps = list(base.T.contiguous().T)
        taps = [t for t in base.T.contiguous().unbind(1)]
    elif layout == "stepped":
        taps = [t[::2] for t in base.repeat_interleave(2, dim=1)]
    else:
        taps = [t[1:1 + length] for t in torch.nn.functional.pad(base, (1, 2), value=9.0)]
    good = [t.clone(memory_format=torch.contiguous_format) for t in taps]
    w, v = ptwt.constants.WaveletTensorTuple(*taps), ptwt.constants.WaveletTensorTuple(*good)
    y = fwd(name, x, v, level, None, mode)
    a = attempt(lambda: fwd(name, x, w, level, None, mode))
    if ctx.check("fwd:accepted", a[0] == "ok", a[1]):
        compare(ctx, "fwd", a[1], y)
    if name not in PACKET:
        co = fresh(ctx, y, "c")
        b = attempt(lambda: inv(name, co, w))
        if ctx.check("inv:accepted", b[0] == "ok", b[1]):
            compare(ctx, "inv", b[1], inv(name, co, v))


@harness
def layout_sparse(ctx, layout):
    """Sparse operators applied to, and built from, views."""
    f = laid_out(ctx, "f", (4,), torch.float64, layout)
    g = laid_out(ctx, "g", (2, 3), torch.float64, layout)
    d = lambda M: M.to_dense() if M.layout != torch.strided else M  # noqa: E731
    for mode in ("full", "same", "valid", "sameshift"):
        compare(ctx, f"conv:{mode}", d(sm.construct_conv_matrix(f, 8, mode=mode)), d(sm.construct_conv_matrix(dense(f), 8, mode=mode)))
        compare(ctx, f"strided:{mode}", d(sm.construct_strided_conv_matrix(f, 8, 2, mode=mode)),
                d(sm.construct_strided_conv_matrix(dense(f), 8, 2, mode=mode)))
    for mode in ("full", "same", "valid"):
        compare(ctx, f"conv2:{mode}", d(sm.construct_conv2d_matrix(g, 4, 5, mode=mode)), d(sm.construct_conv2d_matrix(dense(g), 4, 5, mode=mode)))
        compare(ctx, f"strided2:{mode}", d(sm.construct_strided_conv2d_matrix(g, 4, 5, 2, mode=mode)),
                d(sm.construct_strided_conv2d_matrix(dense(g), 4, 5, 2, mode=mode)))
    m = torch.tensor([[1.0, 0, 2, 0], [0, 3, 0, -1]], dtype=torch.float64).to_sparse()
    b = laid_out(ctx, "b", (3, 4, 2), torch.float64, layout)
    compare(ctx, "batch_mm", sm.batch_mm(m, b), sm.batch_mm(m, dense(b)))
    for dim in (-1, -2, -3):
        shape = [2, 3, 2, 3]
        shape[dim] = 4
        z = laid_out(ctx, f"z{-dim}", shape, torch.float64, layout)
        compare(ctx, f"dim{dim}", sm._batch_dim_mm(m, z, dim), sm._batch_dim_mm(m, dense(z), dim))


@harness
def grad_mode(ctx, name, wavelet, level, shape, axes=None, mode=None, orth=None):
    """no_grad and enable_grad give the same values."""
    x = ctx.inp("x", shape)
    y = fwd(name, x, wavelet, level, axes, mode, orth)
    with torch.no_grad():
        a = attempt(lambda: fwd(name, x, wavelet, level, axes, mode, orth))
    if ctx.check("fwd:accepted", a[0] == "ok", a[1]):
        compare(ctx, "fwd", a[1], y)
    if name in PACKET:
        return
    co = fresh(ctx, y, "c")
    want = inv(name, co, wavelet, axes, orth)
    with torch.no_grad():
        b = attempt(lambda: inv(name, co, wavelet, axes, orth))
    if ctx.check("inv:accepted", b[0] == "ok", b[1]):
        compare(ctx, "inv", b[1], want)


@plan("C28")
def c28(tier, seed):
    T = tier == "thorough"
    S1 = [((2, 8), None), ((6, 2), [0]), ((2, 2, 5), None), ((7,), None), ((2, 6, 2), [1])]
    S2 = [((2, 4, 6), None), ((4, 4), None), ((4, 2, 5), [0, 2]), ((2, 2, 4, 4), None), ((5, 4), [1, 0])]
    S3 = [((2, 2, 4, 2), None), ((2, 4, 2), None), ((4, 2, 2, 2), [0, 1, 3]), ((2, 1, 2, 2, 2), None), ((2, 3, 4), [2, 0, 1])]
    for name in ND:
        nd = ND[name]
        for j, (s, ax) in enumerate({1: S1, 2: S2, 3: S3}[nd]):
            for i, lay in enumerate(LAYOUTS + ["constant"]):
                for w in (["haar", "db2"] if nd < 3 else ["haar"]):
                    mode = MODES[(i + j) % 5]
                    at = ax if ax is not None else list(range(-nd, 0))
                    lv = 2 if w == "haar" and name not in PACKET and nd < 3 else 1
                    if name == "swt":
                        if s[at[0]] % 2:
                            continue
                        lv = 1
                    if not all(sp.accepts(s[k], flen(w), mode, lv) for k in at):
                        mode = "symmetric"
                    if not expandable(name, w, lv, s, ax):
                        continue
                    yield "layout", dict(name=name, wavelet=w, level=lv, shape=list(s), layout=lay, axes=ax, mode=mode)
                    if T or (j == 0 and i < 2):
                        yield "layout", dict(name=name, wavelet=w, level=lv, shape=list(s), layout=lay, axes=ax, mode=mode, dtype="float32")
                    if name in MATRIX and (T or i in (0, 2)) and (w == "db2" or nd == 3):
                        yield "layout", dict(name=name, wavelet=w, level=lv, shape=list(s), layout=lay, axes=ax, mode=mode, orth="gramschmidt")
            if name not in PACKET and name != "swt":
                yield "layout_mixed", dict(name=name, wavelet="haar", level=1, shape=list(s), axes=ax, mode="symmetric")
            if expandable(name, "haar", 1, s, ax) and (name != "swt" or all(s[a] % 2 == 0 for a in (ax or [-1]))):
                yield "grad_mode", dict(name=name, wavelet="haar", level=1, shape=list(s), axes=ax, mode="zero")
    for lay in LAYOUTS:
        for w, sc in (("gaus1", (1, 2)), ("cmor1.5-1.0", (2,)), ("mexh", (1.5,))):
            for s in ((2, 8), (6,), (2, 2, 5)):
                yield "layout_cwt", dict(wavelet=w, scales=sc, shape=s, layout=lay)
        yield "layout_sparse", dict(layout=lay)
    for lay in ("transposed", "stepped", "offset"):
        for name in ("wavedec", "swt", "wavedec2", "fswavedec2", "wavedec3", "fswavedec3", "WaveletPacket", "WaveletPacket2D", "SeparablePacket2D"):
            nd = ND[name]
            for L in (2, 4, 6) if nd == 1 else (2, 4) if nd == 2 else (2,):
                yield "layout_taps", dict(name=name, length=L, layout=lay, shape=[2] + [[8], [4, 6], [2, 4, 2]][nd - 1])
