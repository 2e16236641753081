"""C11: several objects of different settings, used alternately."""
import itertools

import ptwt
import torch

from . import harness, plan
from .matrix import mat_wavedec
from .ops import ND, matrix_objects, packet_object


def bands_of(co, nd):
    """[(label, tensor)] of one coefficient level in axis order a/d."""
    if isinstance(co, torch.Tensor):
        return [("d", co)]
    if isinstance(co, dict):
        return sorted(co.items())
    h, v, d = co
    return [("hvd"[i], t) for i, t in enumerate((h, v, d))]


NAMES2 = {"h": "da", "v": "ad", "d": "dd"}


@harness
def interleave(ctx, name, settings, shape, rounds=2, invert=True):
    """Objects with different wavelets, levels, axes and orthogonalisations take turns on one signal;
    each keeps giving the coefficients of its own operator and inverts them."""
    nd = ND[name]
    x = ctx.inp("x", shape)
    objs = [matrix_objects(name, w, lv, ax, orth) for w, lv, ax, orth in settings]
    want = []
    for w, lv, ax, orth in settings:
        axes = [a % len(shape) for a in (ax if ax is not None else range(-nd, 0))]
        want.append(mat_wavedec(ctx.arr(x), w, orth or "qr", "float64", "zero", lv, axes))
    for r in range(rounds):
        order = range(len(objs)) if r % 2 == 0 else reversed(range(len(objs)))
        for i in order:
            co = objs[i][0](x)
            lab = f"round{r}:{i}"
            if not ctx.check(lab + ":levels", len(co) == len(want[i]), f"{len(co)} {len(want[i])}"):
                continue
            ctx.equal(lab + ":a", co[0], want[i][0], 1e-9)
            for j, (c, b) in enumerate(zip(co[1:], want[i][1:])):
                for k, t in bands_of(c, nd):
                    if name == "MatrixWavedec2" and k in "hv":
                        continue        # which of the two is which is C09's question
                    ctx.equal(f"{lab}:{j}{k}", t, b[NAMES2[k] if nd == 2 else k], 1e-9)
            if invert:
                y = objs[i][1](co)
                ctx.equal(lab + ":inverse", y[tuple(slice(0, s) for s in shape)], ctx.arr(x), 1e-7)


@harness
def interleave_packets(ctx, name, settings, shape, level=2):
    """Several trees of one signal, expanded alternately node by node; every node is one level of the
    transform its own tree was built for."""
    x = ctx.inp("x", shape)
    trees = [packet_object(name, x, w, level, None, mode, orth) for w, mode, orth in settings]
    keys = [k for d in range(1, level + 1) for k in ptwt.WaveletPacket.get_level(d, "natural")]
    want = []
    for w, mode, orth in settings:
        nodes = {"": x}
        for k in keys:
            p = nodes[k[:-1]]
            if name == "BoundaryPacket":
                two = ptwt.MatrixWavedec(w, 1, orthogonalization=orth or "qr")(p)
            else:
                two = ptwt.wavedec(p, w, mode=mode, level=1)
            nodes[k] = two["ad".index(k[-1])]
        want.append(nodes)
    for k in keys:
        for i, t in enumerate(trees):
            ctx.equal(f"{i}:{k}", t[k], ctx.arr(want[i][k]), 1e-10)
    for i, t in reversed(list(enumerate(trees))):
        got = t.reconstruct()[""]
        ctx.equal(f"{i}:rec", got[tuple(slice(0, s) for s in shape)], ctx.arr(x), 1e-7)


@plan("C11")
def c11_interleave(tier, seed):
    A = [("haar", 1, None, None), ("db2", 1, None, None), ("haar", 2, None, None), ("db2", 1, None, "gramschmidt"), ("sym4", 1, None, None)]
    for pair in itertools.combinations(A, 2):
        for s in ((8,), (2, 9)):
            yield "interleave", dict(name="MatrixWavedec", settings=list(pair), shape=s)
    yield "interleave", dict(name="MatrixWavedec", settings=[("haar", 1, [0], None), ("haar", 1, [1], None), ("db2", 1, [0], None)], shape=(8, 8))
    yield "interleave", dict(name="MatrixWavedec", settings=A, shape=(16,), rounds=3)
    B = [("haar", 1, None, None), ("db2", 1, None, None), ("haar", 2, [-1, -2], None), ("db2", 1, None, "gramschmidt")]
    for pair in itertools.combinations(B, 2):
        for name in ("MatrixWavedec2", "MatrixWavedec2ns"):
            ns = name == "MatrixWavedec2ns"
            if ns and any(p[0] == "db2" for p in pair):
                continue
            yield "interleave", dict(name=name, settings=list(pair), shape=(4, 6))
    yield "interleave", dict(name="MatrixWavedec3", settings=[("haar", 1, None, None), ("db2", 1, None, None)], shape=(4, 4, 4))
    yield "interleave", dict(name="MatrixWavedec3", settings=[("haar", 1, [0, 1, 2], None), ("haar", 1, [2, 1, 0], None)], shape=(2, 4, 2))
    P = [("haar", "zero", None), ("db2", "zero", None), ("haar", "symmetric", None), ("db2", "periodic", None), ("bior2.2", "reflect", None)]
    for pair in itertools.combinations(P, 2):
        yield "interleave_packets", dict(name="WaveletPacket", settings=list(pair), shape=(2, 12))
    Q = [("haar", None, None), ("db2", None, None), ("db2", None, "gramschmidt")]
    for pair in itertools.combinations(Q, 2):
        yield "interleave_packets", dict(name="BoundaryPacket", settings=list(pair), shape=(16,))
