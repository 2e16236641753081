"""Uniform access to every transform: fwd(name, x, ...), inv(name, coeffs, ...)."""
import numpy as np
import ptwt
import torch
from ptwt.constants import WaveletDetailTuple2d

ND = {"wavedec": 1, "swt": 1, "MatrixWavedec": 1, "WaveletPacket": 1, "BoundaryPacket": 1,
      "wavedec2": 2, "fswavedec2": 2, "MatrixWavedec2": 2, "MatrixWavedec2ns": 2, "WaveletPacket2D": 2,
      "BoundaryPacket2D": 2, "SeparablePacket2D": 2, "BoundarySeparable2D": 2,
      "wavedec3": 3, "fswavedec3": 3, "MatrixWavedec3": 3}
MATRIX = {"MatrixWavedec": (ptwt.MatrixWavedec, ptwt.MatrixWaverec, {}),
          "MatrixWavedec2": (ptwt.MatrixWavedec2, ptwt.MatrixWaverec2, {"separable": True}),
          "MatrixWavedec2ns": (ptwt.MatrixWavedec2, ptwt.MatrixWaverec2, {"separable": False}),
          "MatrixWavedec3": (ptwt.MatrixWavedec3, ptwt.MatrixWaverec3, {})}
PAD = {"wavedec": (ptwt.wavedec, ptwt.waverec), "wavedec2": (ptwt.wavedec2, ptwt.waverec2),
       "wavedec3": (ptwt.wavedec3, ptwt.waverec3), "fswavedec2": (ptwt.fswavedec2, ptwt.fswaverec2),
       "fswavedec3": (ptwt.fswavedec3, ptwt.fswaverec3), "swt": (ptwt.swt, ptwt.iswt)}
PACKET = {"WaveletPacket", "BoundaryPacket", "WaveletPacket2D", "BoundaryPacket2D", "SeparablePacket2D", "BoundarySeparable2D"}
INVERTIBLE = [n for n in ND if n not in PACKET]


def axkw(name, axes):
    if axes is None:
        return {}
    return {"axis": axes[0]} if ND[name] == 1 else {"axes": tuple(axes)}


def matrix_objects(name, w, level, axes, orth=None, mode=None):
    D, R, kw = MATRIX[name]
    kw = dict(kw, **axkw(name, axes))
    if orth:
        kw["orthogonalization"] = orth
    kd = dict(kw)
    if mode:
        kd["odd_coeff_padding_mode"] = mode
    return D(w, level, **kd), R(w, **kw)


def packet_object(name, x, w, level, axes, mode=None, orth=None):
    kw = dict(axkw(name, axes))
    if orth:
        kw["orthogonalization"] = orth
    if name in ("WaveletPacket", "BoundaryPacket"):
        return ptwt.WaveletPacket(x, w, mode="boundary" if name[0] == "B" else mode or "reflect", maxlevel=level, **kw)
    if "Separable" in name:
        kw["separable"] = True
    return ptwt.WaveletPacket2D(x, w, mode="boundary" if name[0] == "B" else mode or "reflect", maxlevel=level, **kw)


def packet_nodes(name, level):
    if ND[name] == 1:
        return ptwt.WaveletPacket.get_level(level, "natural")
    return ptwt.WaveletPacket2D.get_level(level, "natural")


def fwd(name, x, w, level, axes=None, mode=None, orth=None):
    if name in MATRIX:
        return matrix_objects(name, w, level, axes, orth, mode)[0](x)
    if name in PACKET:
        wp = packet_object(name, x, w, level, axes, mode, orth)
        return {k: wp[k] for lv in range(1, wp.maxlevel + 1) for k in packet_nodes(name, lv)}
    kw = axkw(name, axes)
    if name == "swt":
        return ptwt.swt(x, w, level, **kw)
    if mode:
        kw["mode"] = mode
    return PAD[name][0](x, w, level=level, **kw)


def inv(name, co, w, axes=None, orth=None):
    if name in MATRIX:
        return matrix_objects(name, w, 1, axes, orth)[1](co)
    return PAD[name][1](co, w, **axkw(name, axes))


def leaves(s, path=""):
    """[(path, tensor)] of a nested coefficient structure."""
    if isinstance(s, torch.Tensor):
        return [(path, s)]
    if isinstance(s, dict):
        return [e for k in sorted(s) for e in leaves(s[k], f"{path}/{k}")]
    if isinstance(s, (list, tuple)):
        return [e for i, v in enumerate(s) for e in leaves(v, f"{path}/{i}")]
    return [(path, s)]


def mapt(s, fn):
    """Map tensors of a nested structure, keeping containers."""
    if isinstance(s, torch.Tensor):
        return fn(s)
    if isinstance(s, dict):
        return {k: mapt(v, fn) for k, v in s.items()}
    if isinstance(s, tuple) and hasattr(s, "_fields"):
        return type(s)(*[mapt(v, fn) for v in s])
    if isinstance(s, (list, tuple)):
        return type(s)(mapt(v, fn) for v in s)
    return s


def shape_of(s):
    """Structure without data: containers, keys, shapes, dtypes."""
    if isinstance(s, torch.Tensor):
        return (tuple(s.shape), str(s.dtype))
    if isinstance(s, dict):
        return {k: shape_of(v) for k, v in s.items()}
    if isinstance(s, (list, tuple)):
        return [type(s).__name__] + [shape_of(v) for v in s]
    return repr(s)


def fresh(ctx, s, name):
    """Same structure with independent symbolic entries."""
    n = [0]

    def f(t):
        n[0] += 1
        return ctx.inp(f"{name}{n[0]}", tuple(t.shape), t.dtype)
    return mapt(s, f)


def template(name, shape, w, level, axes=None, mode=None, dtype=torch.float64):
    return fwd(name, torch.zeros(shape, dtype=dtype), w, level, axes, mode)


def attempt(fn):
    """('ok', value) or ('error', type name); engine conditions pass through."""
    from symwave import symtensor as S
    try:
        return "ok", fn()
    except (S.Unsupported, S.NeedFactories):
        raise
    except Exception as e:  # noqa: BLE001 - outcome of the real code
        return "error", type(e).__name__


def compare(ctx, label, got, want, tol=1e-12):
    """Two structures from the real code agree, entry by entry."""
    if not ctx.check(label + ":structure", shape_of(got) == shape_of(want), f"{shape_of(got)} vs {shape_of(want)}"[:300]):
        return
    for (p, a), (_, b) in zip(leaves(got), leaves(want)):
        if isinstance(a, torch.Tensor):
            ctx.equal(f"{label}{p}", a, ctx.forms(b), tol)


def moved(ctx, t, axes):
    """Array of forms with the last len(axes) axes moved to `axes`."""
    nd = len(axes)
    return np.moveaxis(ctx.arr(t), list(range(-nd, 0)), [a % t.dim() for a in axes])


__all__ = ["WaveletDetailTuple2d"]
