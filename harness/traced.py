"""Traced functions (torch.jit.trace) return for any data of the traced shape what the eager functions return."""
import warnings

import ptwt
import pywt
import torch

from symwave import graph
from symwave import specs as sp
from symwave import symtensor as S

from . import harness, plan
from .common import MODES, flen
from .ops import INVERTIBLE, MATRIX, ND, PACKET, fwd, inv, leaves, matrix_objects, template

PROMISED = {"wavedec", "wavedec2", "wavedec3"}      # the repository's own tests trace these


def flat(s):
    return tuple(t for _, t in leaves(s))


def unflatten(like, ts):
    it = iter(ts)
    order = [p for p, _ in leaves(like)]
    got = {p: next(it) for p in order}

    def build(s, path=""):
        if isinstance(s, torch.Tensor):
            return got[path]
        if isinstance(s, dict):
            return {k: build(v, f"{path}/{k}") for k, v in s.items()}
        v = [build(e, f"{path}/{i}") for i, e in enumerate(s)]
        return type(s)(*v) if hasattr(s, "_fields") else type(s)(v)
    return build(like)


def trace(f, examples, promised=False):
    with S.no_modes(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return torch.jit.trace(f, tuple(examples), strict=False, check_trace=False)
        except Exception:
            if promised:
                raise
            return None             # torch cannot record it: nothing is claimed


def call(ctx, traced, args):
    """The traced function on symbolic or real tensors."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if not ctx.symbolic:
            return traced(*args)
        try:
            return traced(*args)
        except (RuntimeError, NotImplementedError):
            return graph.run(traced, args)


def example(kind, shape, dtype, salt=0):
    with S.no_modes():
        if kind == "zero":
            return torch.zeros(shape, dtype=dtype)
        if kind == "one":
            return torch.ones(shape, dtype=dtype)
        g = torch.Generator().manual_seed(7 + salt)
        return torch.rand(shape, generator=g, dtype=dtype) * 4 - 2


def same(ctx, got, want, tol):
    got, want = ([v] if isinstance(v, torch.Tensor) else list(v) for v in (got, want))
    if ctx.check("outputs", len(got) == len(want), f"{len(got)} {len(want)}"):
        for i, (a, b) in enumerate(zip(got, want)):
            ctx.check(f"dtype/{i}", a.dtype == b.dtype, f"{a.dtype} {b.dtype}")
            ctx.equal(f"out/{i}", a, ctx.forms(b), tol)


@harness
def traced(ctx, name, wavelet, level, shape, mode, direction="fwd", kind="random", taps=None, axes=None, dtype="float64"):
    dt = getattr(torch, dtype)
    tol = 1e-10 if dt == torch.float64 else 1e-4
    with S.no_modes():
        w = ptwt.WaveletTensorTuple.from_wavelet(pywt.Wavelet(wavelet), dt) if taps else wavelet
        tm = template(name, shape, wavelet, level, axes, mode, dt) if direction == "inv" else None
    if direction == "fwd":
        data = [ctx.inp("x", shape, dt)]

        def f(x, *t):
            return flat(fwd(name, x, ptwt.WaveletTensorTuple(*t) if t else w, level, axes, mode))
        ex = [example(kind, shape, dt)]
    else:
        data = [ctx.inp(f"c{i}", list(t.shape), dt) for i, (_, t) in enumerate(leaves(tm))]

        def f(*a):
            n = len(data)
            t = a[n:]
            return inv(name, unflatten(tm, a[:n]), ptwt.WaveletTensorTuple(*t) if t else w, axes)
        ex = [example(kind, list(t.shape), dt, i) for i, (_, t) in enumerate(leaves(tm))]
    if taps == "argument":          # traced with one filter bank, called with any other of the same lengths
        L = flen(wavelet)
        data += [ctx.inp(f"t{i}", [L], dt) for i in range(4)]
        with S.no_modes():
            ex += [t.clone() for t in w]
    t = trace(f, ex, name in PROMISED)
    if t is not None:
        same(ctx, call(ctx, t, data), f(*data), tol)


@harness
def traced_object(ctx, name, wavelet, level, shape, direction="fwd", used=None):
    """A boundary transform object made (and possibly used) before it is traced: the trace builds the operators of its own shape."""
    with S.no_modes():
        D, R = matrix_objects(name, wavelet, level, None)
        tm = matrix_objects(name, wavelet, level, None)[0](torch.zeros(shape, dtype=torch.float64))
        for s in used or ():
            D(example("random", s, torch.float64))
            R(D(example("random", s, torch.float64)))
    if direction == "fwd":
        data, ex = [ctx.inp("x", shape)], [example("random", shape, torch.float64)]

        def f(x):
            return flat(D(x))
    else:
        data = [ctx.inp(f"c{i}", list(t.shape)) for i, (_, t) in enumerate(leaves(tm))]
        ex = [example("random", list(t.shape), torch.float64, i) for i, (_, t) in enumerate(leaves(tm))]

        def f(*a):
            return R(unflatten(tm, a))
    t = trace(f, ex)
    if t is None:
        return
    got = call(ctx, t, data)
    if direction == "fwd":
        want = flat(fwd(name, data[0], wavelet, level))
    else:
        want = inv(name, unflatten(tm, data), wavelet)
    same(ctx, got, want, 1e-10)


@harness
def traced_cwt(ctx, wavelet, scales, shape, kind="random", sampling=1.0, dtype="float64"):
    dt = getattr(torch, dtype)
    x = ctx.inp("x", shape, dt)

    def f(v):
        return ptwt.cwt(v, torch.tensor(scales), wavelet, sampling_period=sampling)[0]
    same(ctx, call(ctx, trace(f, [example(kind, shape, dt)], True), [x]), f(x), 1e-9 if dt == torch.float64 else 1e-3)


@plan("C29")
def c29(tier, seed):
    deep = tier != "quick"
    shapes = {1: ([2, 9], [12], [1, 16]), 2: ([5, 6], [2, 4, 8]), 3: ([4, 5, 4], [2, 4, 4, 6])}
    for name in ND:
        nd = ND[name]
        ortho = name in MATRIX or name.startswith("Boundary")
        for shape in shapes[nd]:
            if ortho and shape == [2, 9]:
                shape = [2, 10]
            for w in ("haar", "db2", "bior2.2") if not ortho else ("haar", "db2"):
                L = flen(w)
                for level in (1, 2):
                    if name == "swt" and shape[-1] % 2 ** level:
                        shape = shape[:-1] + [8]
                    if nd == 3 and (level > 1 and not deep or L > 4):
                        continue
                    if name in PACKET and ortho and min(shape[-nd:]) < L * 2 ** (level - 1):
                        continue
                    for mode in (MODES if not ortho and name != "swt" else ("zero",)):
                        if not ortho and name != "swt" and not all(sp.accepts(n, L, mode, level) for n in shape[-nd:]):
                            continue
                        if nd == 3 and mode in ("constant", "symmetric") and not deep:
                            continue
                        base = dict(name=name, wavelet=w, level=level, shape=shape, mode=None if name == "swt" else mode)
                        for d in ("fwd", "inv") if name in INVERTIBLE else ("fwd",):
                            if d == "inv" and mode not in ("zero", "reflect"):
                                continue
                            yield "traced", dict(base, direction=d)
                            if mode == "zero":
                                yield "traced", dict(base, direction=d, kind="zero")
                                yield "traced", dict(base, direction=d, kind="one", dtype="float32")
                                if not ortho:
                                    yield "traced", dict(base, direction=d, taps="captured")
                                    if level == 1 and L <= 4 and nd < 3:
                                        yield "traced", dict(base, direction=d, taps="argument")
    for name in MATRIX:
        nd = ND[name]
        big, other = {1: ([2, 16], [1, 10]), 2: ([2, 6, 4], [4, 8]), 3: ([4, 4, 6], [4, 4, 4])}[nd]
        for used in (None, [other], [big, other]):     # cached operators are sparse constants, which torch cannot trace
            for d in ("fwd", "inv"):
                yield "traced_object", dict(name=name, wavelet="haar", level=1, shape=big, direction=d, used=used)
    for w in ("mexh", "gaus2", "morl", "cmor1.5-1.0", "shan1.0-0.5", "cgau2"):
        for shape in ([9], [2, 8]):
            for kind in ("random", "zero"):
                yield "traced_cwt", dict(wavelet=w, scales=[2.0, 3.5], shape=shape, kind=kind)
        yield "traced_cwt", dict(wavelet=w, scales=[5.0, 2.0, 3.0], shape=[3, 7], sampling=0.5)
