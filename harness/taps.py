"""C27: transforms differentiate through the filter taps of user-supplied wavelets."""
import itertools

import numpy as np
import ptwt
import torch
from ptwt.wavelets_learnable import ProductFilter, SoftOrthogonalWavelet

from symwave import forms as F
from symwave import symtensor as S

from . import harness, plan
from .learn import NAMES, make
from .ops import ND, PACKET, PAD, axkw, inv, leaves, packet_nodes, packet_object, template


def degrees(name, level, coeffs):
    """Degree in the analysis taps of every entry of the flattened coefficients."""
    nd = ND[name]
    out = []
    if name in PACKET:
        for k in sorted(coeffs):
            out += [max(1, len(k)) * nd if k else 0] * coeffs[k].numel()
        return out
    for i, c in enumerate(coeffs):
        lv = level if i == 0 else level - i + 1
        out += [lv * nd] * sum(t.numel() for _, t in leaves(c))
    return out


def basis(shape):
    n = int(np.prod(shape))
    return torch.eye(n, dtype=torch.float64).reshape((n,) + tuple(shape))


def points(dim, deg):
    """Points that determine a homogeneous form of degree deg - 1 <= 2."""
    pts = [(i,) for i in range(dim)]
    if deg >= 3:
        pts += list(itertools.combinations(range(dim), 2))
    return pts


@harness
def tapgrad(ctx, name, length, shape, level=1, mode=None, direction="fwd", kind="tuple", wdtype="float64"):
    """For basis data, and so (bilinearity) for all data: the gradient autograd delivers for every
    output with respect to the taps is the derivative of that output, for all taps.  The outputs are
    homogeneous polynomials of the taps; their gradient has degree d-1, so its values at unit vectors
    (and pairs) determine it, and y(t) = t.G(t)/d with symmetric G characterises the derivative."""
    nd = ND[name]
    L = length
    fs = [ctx.inp(k, (L,)) for k in NAMES]
    if direction == "fwd":
        data = basis(shape)
    else:
        co = template(name, shape, "haar" if L == 2 else f"db{L // 2}", level, mode=mode)
        sizes = [t.numel() for _, t in leaves(co)]
        N = sum(sizes)
        rows = iter(torch.split(torch.eye(N, dtype=torch.float64), sizes, dim=1))
        from .behave import mapt_ordered
        data = mapt_ordered(co, lambda t: next(rows).reshape((N,) + tuple(t.shape)))

    def run(w, flat=True):
        if name in PACKET:
            wp = packet_object(name, data, w, level, None, mode)
            r = {k: wp[k] for lv in range(1, level + 1) for k in packet_nodes(name, lv)}
        elif direction == "inv":
            r = [inv(name, data, w)]
        else:
            kw = dict(axkw(name, None))
            if mode:
                kw["mode"] = mode
            r = ptwt.swt(data, w, level) if name == "swt" else PAD[name][0](data, w, level=level, **kw)
        return torch.cat([t.reshape(-1) for _, t in leaves(r)]) if flat else r

    def wavelet(taps):
        if kind == "tuple":
            return ptwt.WaveletTensorTuple(*taps)
        return make(ctx, kind, taps)
    used = (0, 1) if direction == "fwd" else (2, 3)
    dim = 4 * L
    live = [u * L + i for u in used for i in range(L)]
    with S.no_modes():
        cls = {"ProductFilter": ProductFilter, "SoftOrthogonalWavelet": SoftOrthogonalWavelet}.get(kind)

        def grads(at):
            """Rows of d out / d taps at the given 0/1 tap vector."""
            t0 = torch.zeros(dim, dtype=getattr(torch, wdtype))
            t0[list(at)] = 1.0
            if cls is None:
                par = [p.clone().requires_grad_(True) for p in t0.split(L)]
                out = run(ptwt.WaveletTensorTuple(*par))
            else:
                obj = cls(*t0.split(L))
                par = [getattr(obj, k) for k in NAMES]
                out = run(obj)
            if not out.requires_grad:
                return None
            G = torch.zeros(out.numel(), dim, dtype=torch.float64)
            for o in range(out.numel()):
                g = torch.autograd.grad(out[o], par, retain_graph=True, allow_unused=True)
                G[o] = torch.cat([torch.zeros(L) if v is None else v.double() for v in g])
            return G
        if direction == "fwd":
            plain = run(ptwt.WaveletTensorTuple(*[torch.zeros(L, dtype=torch.float64)] * 4), flat=False)
            deg = degrees(name, level, plain)
        else:
            deg = [None] * 0
        top = level * nd
        G = {p: grads([live[i] for i in p]) for p in points(2 * L, top)}
    if not ctx.check("tracks", all(g is not None for g in G.values()), "output does not require grad with respect to the taps"):
        return
    dead = [k for k in range(dim) if k not in live]
    ctx.check("unused", all(float(g[:, dead].abs().max()) == 0 for g in G.values()), "gradient at taps that do not take part")
    y = ctx.arr(run(wavelet(fs)))
    t = [v for f in fs for v in ctx.arr(f)]
    t = [t[k] for k in live]
    Gl = {p: g[:, live].numpy() for p, g in G.items()}
    n = len(t)
    want = np.empty(len(y), dtype=object)
    for o in range(len(y)):
        if direction == "fwd":
            d = deg[o]
        else:
            d = nd * level
        s = F.ZERO
        if d == 1:
            ok = all(np.array_equal(Gl[p][o], Gl[(0,)][o]) for p in Gl)
            if not ok:
                ctx.check(f"constant{o}", False, "gradient of a linear output depends on the taps")
            for k in range(n):
                if Gl[(0,)][o, k]:
                    s = s + t[k] * F.const(float(Gl[(0,)][o, k]))
        elif d == 2:
            H = np.array([Gl[(i,)][o] for i in range(n)])
            if not np.allclose(H, H.T, atol=1e-12):
                ctx.check(f"symmetric{o}", False, "gradient is not a derivative")
            for i in range(n):
                for k in range(n):
                    if H[i, k]:
                        s = s + t[i] * t[k] * F.const(float(H[i, k]) / 2)
        elif d == 3:
            # G_k(t) = sum_ij B_kij t_i t_j
            B = np.zeros((n, n, n))
            for i in range(n):
                B[:, i, i] = Gl[(i,)][o]
            for i, j in itertools.combinations(range(n), 2):
                B[:, i, j] = B[:, j, i] = (Gl[(i, j)][o] - Gl[(i,)][o] - Gl[(j,)][o]) / 2
            if not np.allclose(B, B.transpose(1, 0, 2), atol=1e-12):
                ctx.check(f"symmetric{o}", False, "gradient is not a derivative")
            for k, i, j in np.argwhere(np.abs(B) > 0):
                s = s + t[k] * t[i] * t[j] * F.const(float(B[k, i, j]) / 3)
        want[o] = s
    ctx.equal("derivative", run(wavelet(fs)), want, 1e-9)


@plan("C27")
def c27(tier, seed):
    T = tier == "thorough"
    modes = ["zero", "constant", "periodic", "reflect", "symmetric"]
    for L in (2, 4, 6) if not T else (2, 4, 6, 8, 10):
        for n in (L, L + 1, L + 3):
            for m in modes:
                yield "tapgrad", dict(name="wavedec", length=L, shape=(n,), mode=m)
            yield "tapgrad", dict(name="wavedec", length=L, shape=(n,), direction="inv", mode="zero")
        for n in (4, 8):
            yield "tapgrad", dict(name="swt", length=L, shape=(n,))
            yield "tapgrad", dict(name="swt", length=L, shape=(n,), direction="inv")
        for m in ("zero", "reflect"):
            yield "tapgrad", dict(name="WaveletPacket", length=L, shape=(L + 2,), mode=m)
    for L in (2, 4):
        for m in ("zero", "symmetric"):
            yield "tapgrad", dict(name="wavedec", length=L, shape=(6,), mode=m, level=2)
            yield "tapgrad", dict(name="WaveletPacket", length=L, shape=(6,), mode=m, level=2)
        yield "tapgrad", dict(name="swt", length=L, shape=(4,), level=2)
    for kind in ("ProductFilter", "SoftOrthogonalWavelet"):
        for L in (2, 4):
            for d in ("fwd", "inv"):
                yield "tapgrad", dict(name="wavedec", length=L, shape=(5,), mode="zero", direction=d, kind=kind)
                yield "tapgrad", dict(name="swt", length=L, shape=(4,), direction=d, kind=kind)
            yield "tapgrad", dict(name="WaveletPacket", length=L, shape=(6,), mode="reflect", kind=kind)
    for d in ("fwd", "inv"):
        yield "tapgrad", dict(name="wavedec", length=4, shape=(6,), mode="zero", direction=d, wdtype="float32")
    for name in ("wavedec2", "fswavedec2", "WaveletPacket2D", "SeparablePacket2D"):
        for L, s in ((2, (2, 3)), (4, (4, 4))) if not T else ((2, (2, 3)), (2, (3, 4)), (4, (4, 4)), (4, (5, 4))):
            for m in ("zero", "reflect" if L == 2 else "symmetric"):
                yield "tapgrad", dict(name=name, length=L, shape=s, mode=m)
            if name not in PACKET:
                yield "tapgrad", dict(name=name, length=L, shape=s, direction="inv", mode="zero")
    for kind in ("SoftOrthogonalWavelet",):
        yield "tapgrad", dict(name="wavedec2", length=2, shape=(2, 3), mode="zero", kind=kind)
        yield "tapgrad", dict(name="fswavedec2", length=2, shape=(2, 3), mode="zero", kind=kind, direction="inv")
    for name in ("wavedec3", "fswavedec3"):
        for d in ("fwd", "inv"):
            yield "tapgrad", dict(name=name, length=2, shape=(2, 2, 3) if d == "fwd" else (2, 2, 2), mode="zero", direction=d)
