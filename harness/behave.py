"""C11-C14, C24: histories, axes and batches, purity, precision, adjoints."""
import itertools
import random

import numpy as np
import ptwt
import pywt
import torch

from symwave import forms as F
from symwave import specs as sp
from symwave import symtensor as S

from . import harness, plan
from .common import DT, MODES, flen, wav
from .ops import (INVERTIBLE, MATRIX, ND, PACKET, attempt, axkw, compare, fresh, fwd, inv, leaves, mapt,
                  matrix_objects, moved, packet_nodes, packet_object, shape_of, template)


# ------------------------------------------------------------------------------------
# C11 histories
# ------------------------------------------------------------------------------------
def both(ctx, label, a, b, tol):
    """Outcome of the reused object equals that of the fresh one."""
    if not ctx.check(label + ":outcome", a[0] == b[0] and (a[0] == "ok" or a[1] == b[1]), f"{a[0]} {a[1] if a[0] == 'error' else ''} vs {b[0]}"):
        return
    if a[0] == "ok":
        compare(ctx, label, a[1], b[1], tol)


TIGHT = {"float64": 1e-10, "float32": 1e-6}


@harness
def hist_mat(ctx, name, wavelet, level, history, axes=None, orth=None, mode=None, rec=True, refill=False):
    """One analysis and one synthesis object process a history of inputs; every call must
    agree with objects constructed for that call alone.  With refill, inputs of the same shape
    arrive in the same tensor, overwritten in place."""
    D, R = matrix_objects(name, wavelet, level, axes, orth, mode)
    bufs = {}

    def again(key, t):
        old = bufs.get(key)
        if refill and old is not None and old.shape == t.shape and old.dtype == t.dtype:
            return old.copy_(t)
        bufs[key] = t
        return t
    for i, (shape, dt) in enumerate(history):
        x = again("x", ctx.inp(f"x{i}_", shape, DT[dt]))
        fresh_obj, _ = matrix_objects(name, wavelet, level, axes, orth, mode)
        a, b = attempt(lambda: D(x)), attempt(lambda: fresh_obj(x))
        both(ctx, f"call{i}", a, b, TIGHT[dt])
        if a[0] != "ok" or b[0] != "ok" or not rec:
            continue
        co = fresh(ctx, b[1], f"c{i}_")
        if refill:
            n = itertools.count()
            co = mapt(co, lambda t: again(next(n), t))
        _, fr = matrix_objects(name, wavelet, level, axes, orth, mode)
        both(ctx, f"inv{i}", attempt(lambda: R(co)), attempt(lambda: fr(co)), TIGHT[dt])
        if name in ("MatrixWavedec", "MatrixWavedec2ns"):
            for attr, o, f in (("sparse_fwt_operator", D, fresh_obj), ("sparse_ifwt_operator", R, fr)):
                p, q = attempt(lambda: getattr(o, attr)), attempt(lambda: getattr(f, attr))
                if ctx.check(f"op{i}:{attr}", p[0] == q[0], f"{p[0]} vs {q[0]}") and p[0] == "ok":
                    v = ctx.inp(f"v{i}{attr[7]}_", (p[1].shape[1], 1), DT[dt])
                    if ctx.check(f"op{i}:{attr}:shape", p[1].shape == q[1].shape, f"{p[1].shape} {q[1].shape}"):
                        ctx.equal(f"op{i}:{attr}", torch.sparse.mm(p[1], v), ctx.arr(torch.sparse.mm(q[1], v)), TIGHT[dt])


@harness
def hist_packet(ctx, name, wavelet, history, axes=None, mode=None, orth=None):
    """One packet object re-runs transform for every history entry (shape, dtype, maxlevel, steps)."""
    obj = packet_object(name, None, wavelet, None, axes, mode, orth)
    x = None
    for i, (shape, dt, maxlevel, steps) in enumerate(history):
        z = ctx.inp(f"x{i}_", shape, DT[dt])
        x = x.copy_(z) if "refill" in steps else z
        ret = obj.transform(x, maxlevel)
        ctx.check(f"self{i}", ret is obj)
        new = packet_object(name, x, wavelet, maxlevel, axes, mode, orth)
        ctx.check(f"maxlevel{i}", obj.maxlevel == new.maxlevel, f"{obj.maxlevel} vs {new.maxlevel}")
        ctx.check(f"keys{i}", sorted(obj.keys()) == sorted(new.keys()), sorted(obj.keys()))
        lv = new.maxlevel
        if "nodes" in steps:
            for k in packet_nodes(name, lv):
                a, b = attempt(lambda: obj[k]), attempt(lambda: new[k])
                both(ctx, f"node{i}:{k}", a, b, TIGHT[dt])
        if "one" in steps:
            k = packet_nodes(name, lv)[-1]
            both(ctx, f"node{i}:{k}", attempt(lambda: obj[k]), attempt(lambda: new[k]), TIGHT[dt])
        if "set" in steps:
            k = packet_nodes(name, lv)[0]
            v = ctx.inp(f"v{i}_", tuple(new[k].shape), DT[dt])
            obj[k] = v
            new[k] = v
        if "rec" in steps:
            a = attempt(lambda: obj.reconstruct()[""])
            b = attempt(lambda: new.reconstruct()[""])
            both(ctx, f"rec{i}", a, b, TIGHT[dt])


@plan("C11")
def c11(tier, seed):
    f8, f4 = "float64", "float32"
    H1 = {"haar": [[((8,), f8), ((12,), f8), ((8,), f8)], [((1,), f8), ((8,), f8)], [((2, 9), f8), ((6,), f8), ((2, 2, 4), f8)],
                   [((8,), f4), ((8,), f8), ((8,), f4)], [((16,), f8), ((2, 16), f8), ((7,), f8), ((2,), f8)],
                   [((7,), f8), ((8,), f8), ((7,), f8)], [((4,), f8), ((3,), f4), ((4,), f8), ((8,), f4)]],
          "db2": [[((8,), f8), ((16,), f8), ((9,), f8)], [((3,), f8), ((8,), f8), ((2,), f8)], [((12,), f4), ((12,), f8)],
                  [((2, 8), f8), ((8,), f8), ((13,), f8)], [((16,), f8), ((8,), f8), ((16,), f8)]]}
    for w, hs in H1.items():
        for h in hs:
            for lv in (None, 1, 2, 3):
                yield "hist_mat", dict(name="MatrixWavedec", wavelet=w, level=lv, history=h, mode="symmetric" if lv == 2 else None)
            yield "hist_mat", dict(name="MatrixWavedec", wavelet=w, level=2, history=h, orth="gramschmidt")
    same = {"MatrixWavedec": [(8,), (2, 9)], "MatrixWavedec2": [(4, 6), (2, 5, 4)], "MatrixWavedec2ns": [(4, 4), (5, 4)], "MatrixWavedec3": [(4, 2, 4)]}
    for name, shapes in same.items():
        for s in shapes:
            for lv in (None, 1, 2):
                yield "hist_mat", dict(name=name, wavelet="haar", level=lv, history=[(s, f8), (s, f8), (s, f8)], refill=True)
            yield "hist_mat", dict(name=name, wavelet="haar", level=1, history=[(s, f4), (s, f8), (s, f8)], refill=True)
    H2 = {"haar": [[((4, 4), f8), ((4, 6), f8), ((4, 4), f8)], [((6, 4), f8), ((4, 6), f8)], [((1, 1), f8), ((4, 4), f8)],
                   [((2, 4, 4), f8), ((4, 4), f8), ((2, 2, 4, 2), f8)], [((4, 4), f4), ((4, 4), f8)], [((5, 4), f8), ((6, 4), f8), ((3, 3), f8)],
                   [((8, 8), f8), ((4, 4), f8)], [((6, 4), f8), ((4, 4), f8), ((4, 3), f8), ((4, 8), f8)]],
          "db2": [[((4, 6), f8), ((6, 4), f8)], [((3, 5), f8), ((5, 5), f8), ((4, 8), f8)], [((8, 8), f8), ((4, 4), f8), ((8, 8), f8)]]}
    for w, hs in H2.items():
        for h in hs:
            for name in ("MatrixWavedec2", "MatrixWavedec2ns"):
                for lv in (None, 1, 2):
                    yield "hist_mat", dict(name=name, wavelet=w, level=lv, history=h)
            yield "hist_mat", dict(name="MatrixWavedec2", wavelet=w, level=2, history=h, orth="gramschmidt", axes=[-1, -2])
    H3 = {"haar": [[((2, 2, 4), f8), ((4, 2, 2), f8), ((2, 2, 4), f8)], [((1, 2, 2), f8), ((2, 2, 2), f8)],
                   [((2, 4, 4, 4), f8), ((2, 2, 2), f8)], [((4, 4, 4), f4), ((4, 4, 4), f8)], [((3, 4, 2), f8), ((4, 3, 2), f8)]],
          "db2": [[((4, 4, 4), f8), ((4, 4, 6), f8)], [((3, 4, 4), f8), ((4, 4, 4), f8)]]}
    for w, hs in H3.items():
        for h in hs:
            for lv in (None, 1, 2):
                yield "hist_mat", dict(name="MatrixWavedec3", wavelet=w, level=lv, history=h)
    P1 = [[((8,), f8, 2, "nodes"), ((12,), f8, 2, "nodes rec"), ((8,), f8, None, "nodes")],
          [((8,), f8, 1, "one set rec"), ((8,), f8, 2, "nodes")], [((9,), f8, 2, "nodes set rec"), ((10,), f8, 2, "nodes rec")],
          [((2, 8), f8, 2, "nodes"), ((8,), f8, 2, "nodes rec")], [((8,), f4, 1, "nodes rec"), ((8,), f8, 1, "nodes rec")],
          [((8,), f8, 2, "one"), ((8,), f8, 2, "refill nodes rec"), ((8,), f8, 1, "refill nodes")], [((8,), f8, 1, "one"), ((8,), f8, 1, "refill nodes")],
          [((8,), f8, 2, "one"), ((8,), f8, 2, "rec")], [((16,), f8, None, "one"), ((6,), f8, None, "nodes")]]
    for name in ("WaveletPacket", "BoundaryPacket"):
        for w in ("haar", "db2"):
            for h in P1:
                if w == "db2":
                    h = [(s, d, min(m, 1) if m else m, st) if name[0] == "B" or m is None else (s, d, m, st) for s, d, m, st in h]
                for mode in (("zero", "symmetric", "reflect") if name[0] == "W" else (None,)):
                    yield "hist_packet", dict(name=name, wavelet=w, history=h, mode=mode)
                yield "hist_packet", dict(name=name, wavelet=w, history=h, mode="constant" if name[0] == "W" else None, orth="gramschmidt")
    P2 = [[((4, 4), f8, 2, "nodes"), ((4, 6), f8, 1, "nodes rec"), ((4, 4), f8, None, "nodes")],
          [((6, 4), f8, 1, "one set rec"), ((4, 6), f8, 1, "nodes rec")], [((5, 6), f8, 2, "nodes rec"), ((6, 5), f8, 2, "nodes rec")],
          [((2, 4, 4), f8, 1, "nodes set rec"), ((4, 4), f8, 1, "nodes rec")], [((4, 4), f4, 1, "nodes rec"), ((4, 4), f8, 1, "nodes rec")],
          [((4, 4), f8, 1, "one"), ((4, 4), f8, 1, "refill nodes rec"), ((4, 4), f8, 1, "refill nodes")],
          [((4, 4), f8, 1, "nodes"), ((4, 4), f8, 1, "rec")]]
    for name in ("WaveletPacket2D", "BoundaryPacket2D", "SeparablePacket2D", "BoundarySeparable2D"):
        for h in P2:
            yield "hist_packet", dict(name=name, wavelet="haar", history=h, mode="zero")
            yield "hist_packet", dict(name=name, wavelet="haar", history=h, mode="symmetric", axes=[-1, -2])
            h2 = [(s, d, 1, st) for s, d, m, st in h]
            yield "hist_packet", dict(name=name, wavelet="db2", history=h2, mode="zero", orth="gramschmidt")
    if tier == "thorough":
        rng = random.Random(seed)
        for _ in range(60):
            w = rng.choice(("haar", "db2", "db3"))
            h = [((rng.randint(1, 20),), rng.choice((f8, f8, f4))) for _ in range(5)]
            yield "hist_mat", dict(name="MatrixWavedec", wavelet=w, level=rng.choice((None, 1, 2, 3)), history=h, orth=rng.choice(("qr", "gramschmidt")))
            h = [((rng.randint(1, 9), rng.randint(1, 9)), rng.choice((f8, f8, f4))) for _ in range(4)]
            for name in ("MatrixWavedec2", "MatrixWavedec2ns"):
                yield "hist_mat", dict(name=name, wavelet=w, level=rng.choice((None, 1, 2)), history=h)
            h = [((rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 5)), rng.choice((f8, f8, f4))) for _ in range(3)]
            yield "hist_mat", dict(name="MatrixWavedec3", wavelet=rng.choice(("haar", "db2")), level=rng.choice((None, 1, 2)), history=h)


# ------------------------------------------------------------------------------------
# C12 axes and batches
# ------------------------------------------------------------------------------------
def to_last(x, axes):
    nd = x.dim()
    ax = [a % nd for a in axes]
    order = [d for d in range(nd) if d not in ax] + ax
    return x.permute(order).contiguous()


@harness
def axes_eq(ctx, name, wavelet, level, shape, axes, mode=None, dtype="float64", orth=None):
    """T over `axes` = move the axes last, T over the last axes, move back (both directions)."""
    x = ctx.inp("x", shape, DT[dtype])
    y = fwd(name, x, wavelet, level, axes, mode, orth)
    z = fwd(name, to_last(x, axes), wavelet, level, None, mode, orth)
    ly, lz = leaves(y), leaves(z)
    if ctx.check("structure", [p for p, _ in ly] == [p for p, _ in lz], f"{len(ly)} {len(lz)}"):
        for (p, a), (_, b) in zip(ly, lz):
            ctx.equal("fwd" + p, a, moved(ctx, b, axes), 1e-12)
    if name in PACKET:
        def back(src, ax, lv):
            wp = packet_object(name, src, wavelet, lv, ax, mode, orth)
            wp.initialize(packet_nodes(name, wp.maxlevel))
            return wp.reconstruct()[""]
        for lv in {level, 2 if ND[name] == 1 and expandable(name, wavelet, 2, shape, axes) else level}:
            a, b = attempt(lambda: back(x, axes, lv)), attempt(lambda: back(to_last(x, axes), None, lv))
            if ctx.check(f"rec{lv}:outcome", a[0] == b[0], f"{a} {b}"[:200]) and a[0] == "ok":
                ctx.equal(f"rec{lv}", a[1], moved(ctx, b[1], axes), 1e-12)
        return
    co = fresh(ctx, y, "c")
    r = inv(name, co, wavelet, axes, orth)
    q = inv(name, mapt(co, lambda t: to_last(t, axes)), wavelet, None, orth)
    ctx.equal("inv", r, moved(ctx, q, axes), 1e-12)


@harness
def batch_eq(ctx, name, wavelet, level, shape, axes=None, mode=None, dtype="float64", orth=None):
    """Every batch entry is transformed on its own."""
    nd = ND[name]
    n = len(shape)
    x = ctx.inp("x", shape, DT[dtype])
    y = fwd(name, x, wavelet, level, axes, mode, orth)
    ax = [a % n for a in (axes if axes is not None else range(-nd, 0))]
    other = [d for d in range(n) if d not in ax]
    sub_axes = [sum(1 for d in ax if d < a) for a in ax]       # axes left after selecting a batch entry
    co = r = None
    if name not in PACKET:
        co = fresh(ctx, y, "c")
        r = inv(name, co, wavelet, axes, orth)
    for b in itertools.product(*[range(shape[d]) for d in other]):
        sel = [slice(None)] * n
        for d, i in zip(other, b):
            sel[d] = i
        sel = tuple(sel)
        z = fwd(name, x[sel].contiguous(), wavelet, level, sub_axes, mode, orth)
        ly, lz = leaves(y), leaves(z)
        if ctx.check("structure", [p for p, _ in ly] == [p for p, _ in lz], ""):
            for (p, a), (_, c) in zip(ly, lz):
                ctx.equal(f"fwd{list(b)}{p}", a[sel], ctx.arr(c), 1e-12)
        if co is not None:
            q = inv(name, mapt(co, lambda t: t[sel].contiguous()), wavelet, sub_axes, orth)
            ctx.equal(f"inv{list(b)}", r[sel], ctx.arr(q), 1e-12)


@harness
def cwt_batch(ctx, wavelet, scales, shape, dtype="float64"):
    x = ctx.inp("x", shape, DT[dtype])
    y, _ = ptwt.cwt(x, list(scales), wavelet)
    for b in np.ndindex(*shape[:-1]):
        z, _ = ptwt.cwt(x[b].contiguous(), list(scales), wavelet)
        ctx.equal(f"cwt{list(b)}", y[(slice(None),) + b], ctx.forms(z), 1e-10)


def all_names():
    return [n for n in ND]


def expandable(name, wavelet, level, shape, axes):
    """Boundary packets cannot expand nodes shorter than the filter (the real code refuses)."""
    if not name.startswith("Boundary"):
        return True
    ax = axes if axes is not None else range(-ND[name], 0)
    for n in (shape[a] for a in ax):
        for _ in range(level or 0):
            # 1-D pads before it compares with the filter length, 2-D afterwards
            if n + (n % 2 if ND[name] == 1 else 0) < flen(wavelet):
                return False
            n = (n + 1) // 2
    return True


def only_expandable(gen):
    """Drop configurations the boundary packets refuse."""
    for h, c in gen:
        if "shape" in c and "name" in c and not expandable(c["name"], c["wavelet"], c.get("level"), c["shape"], c.get("axes")):
            continue
        yield h, c


@plan("C12")
def c12(tier, seed):
    yield from only_expandable(c12_all(tier, seed))


def c12_all(tier, seed):
    rng = random.Random(seed)
    A1 = [((5, 2, 3), 0), ((2, 6, 2), 1), ((2, 6, 2), -2), ((2, 2, 2, 5), 3), ((4, 3), -2), ((3, 1, 4, 2), 2), ((7, 2), 0), ((6,), 0)]
    A2 = [((5, 2, 4), (0, 2)), ((4, 2, 5), (2, 0)), ((2, 4, 5, 2), (-3, -2)), ((4, 5), (1, 0)), ((2, 4, 3, 5), (3, 1)),
          ((4, 5, 2), (0, 1)), ((4, 5, 2), (1, -3)), ((2, 4, 2, 5, 1), (-2, 1))]
    A3 = [((3, 4, 2, 2), (0, 1, 2)), ((3, 4, 2, 2), (2, 0, 1)), ((2, 3, 4), (-1, 1, 0)), ((2, 3, 2, 4), (3, 1, 0)), ((4, 2, 2, 3, 1), (3, -4, 0)),
          ((2, 2, 3), (2, 1, 0))]
    for name in all_names():
        nd = ND[name]
        ws = ["haar", "db2"] if nd < 3 else ["haar"]
        if nd == 1:
            ws.append("bior2.2") if name not in MATRIX and not name.startswith("Boundary") else ws.append("db3")
        for w in ws:
            for i, (s, a) in enumerate({1: A1, 2: A2, 3: A3}[nd]):
                ax = [a] if nd == 1 else list(a)
                mode = MODES[(i + len(w)) % 5]
                lv = 1 if w != "haar" else 2
                if name in PACKET and nd == 2:
                    lv = 1
                if name == "swt":
                    lv = 1 if i % 2 else 2
                if not all(sp.accepts(s[k], flen(w), mode, lv) for k in ax):
                    mode = "symmetric"
                yield "axes_eq", dict(name=name, wavelet=w, level=lv, shape=list(s), axes=ax, mode=mode)
                if i % 2 == 0 or tier == "thorough":
                    yield "axes_eq", dict(name=name, wavelet=w, level=None, shape=list(s), axes=ax, mode="symmetric", orth=None)
                if len(s) > nd:
                    yield "batch_eq", dict(name=name, wavelet=w, level=lv, shape=list(s), axes=ax, mode=mode)
        for w in ws[:2]:
            base = {1: [6], 2: [4, 5], 3: [2, 3, 4]}[nd]
            for bs in ([1], [3], [2, 2], [1, 2], [2, 1, 2], [1, 1]):
                yield "batch_eq", dict(name=name, wavelet=w, level=1, shape=bs + base, mode="symmetric")
        if tier == "thorough":
            for _ in range(25):
                n = nd + rng.randint(0, 2)
                s = [rng.randint(2, 4 if nd == 3 else 6) for _ in range(n)]
                ax = rng.sample(range(n), nd)
                ax = [a - n if rng.random() < .5 else a for a in ax]
                yield "axes_eq", dict(name=name, wavelet=rng.choice(ws), level=1, shape=s, axes=ax, mode=rng.choice(("zero", "constant", "symmetric")))
                yield "batch_eq", dict(name=name, wavelet=rng.choice(ws), level=1, shape=s, axes=ax, mode=rng.choice(("zero", "constant", "symmetric")))
    for w in ("gaus1", "mexh", "cmor1.5-1.0"):
        yield "cwt_batch", dict(wavelet=w, scales=[1.0, 3.5, 2], shape=[2, 2, 12])
        yield "cwt_batch", dict(wavelet=w, scales=[4], shape=[3, 9])


# ------------------------------------------------------------------------------------
# C13 purity
# ------------------------------------------------------------------------------------
class Snapshot:
    """Contents and structure of arguments before a call."""

    def __init__(self, ctx, **args):
        self.ctx = ctx
        self.args = args
        self.shape = {k: shape_of(v) for k, v in args.items()}
        self.ident = {k: [id(t) for _, t in leaves(v)] for k, v in args.items()}
        self.data = {k: [ctx.forms(t) if isinstance(t, torch.Tensor) else repr(t) for _, t in leaves(v)] for k, v in args.items()}

    def verify(self, label):
        ctx = self.ctx
        for k, v in self.args.items():
            if not ctx.check(f"{label}:{k}:structure", shape_of(v) == self.shape[k], f"{self.shape[k]} became {shape_of(v)}"[:300]):
                continue
            ctx.check(f"{label}:{k}:identity", [id(t) for _, t in leaves(v)] == self.ident[k])
            for (p, t), old in zip(leaves(v), self.data[k]):
                if isinstance(t, torch.Tensor):
                    ctx.equal(f"{label}:{k}{p}", t, old, 1e-14)
                else:
                    ctx.check(f"{label}:{k}{p}", repr(t) == old)


@harness
def pure(ctx, name, wavelet, level, shape, axes=None, mode=None, dtype="float64", form="tuple", orth=None):
    w, _ = wav(ctx, wavelet, dtype, form)
    x = ctx.inp("x", shape, DT[dtype])
    wt = tuple(w) if form == "tuple" else w
    ax = tuple(axes) if axes is not None else None
    s = Snapshot(ctx, x=x, w=wt if form == "tuple" else [])
    y = fwd(name, x, w, level, ax, mode, orth)
    s.verify("fwd")
    y2 = fwd(name, x, w, level, ax, mode, orth)
    compare(ctx, "repeat", y2, y)
    s.verify("fwd2")
    if name in PACKET:
        return
    co = fresh(ctx, y, "c")
    s = Snapshot(ctx, co=co, w=wt if form == "tuple" else [])
    r = inv(name, co, w, ax, orth)
    s.verify("inv")
    if ND[name] == 1:
        compare(ctx, "invtuple", inv(name, tuple(co), w, ax, orth), r)
    compare(ctx, "invrepeat", inv(name, co, w, ax, orth), r)
    s.verify("inv2")
    # coefficients the forward transform itself returned
    s = Snapshot(ctx, y=y)
    r1 = inv(name, y, w, ax, orth)
    s.verify("inv3")
    compare(ctx, "inv3repeat", inv(name, y, w, ax, orth), r1)


@harness
def pure_mat(ctx, name, wavelet, level, shape, axes=None):
    """One object, same arguments twice; arguments untouched."""
    D, R = matrix_objects(name, wavelet, level, axes)
    x = ctx.inp("x", shape)
    s = Snapshot(ctx, x=x)
    y = D(x)
    s.verify("fwd")
    s2 = Snapshot(ctx, y=y)
    compare(ctx, "repeat", D(x), y)
    r = R(y)
    s2.verify("inv")
    compare(ctx, "invrepeat", R(y), r)
    s2.verify("inv2")
    s.verify("x")


@harness
def pure_packet(ctx, name, wavelet, level, shape, axes=None, mode=None):
    x = ctx.inp("x", shape)
    wp = packet_object(name, x, wavelet, level, axes, mode)
    s = Snapshot(ctx, x=x)
    keys = packet_nodes(name, wp.maxlevel)
    keylist = list(keys)
    wp.initialize(keylist)
    ctx.check("keys", keylist == keys)
    s.verify("init")
    nodes = {k: wp[k] for k in keys}
    inner = {k: wp[k] for lv in range(1, wp.maxlevel) for k in packet_nodes(name, lv)}
    s2 = Snapshot(ctx, nodes=nodes, inner=inner)
    for k in keys:
        compare(ctx, f"again:{k}", wp[k], nodes[k])
    wp.reconstruct()
    s2.verify("rec")
    s.verify("rec")
    r1 = wp[""]
    wp.reconstruct()
    compare(ctx, "rec2", wp[""], r1)
    s2.verify("rec2")
    v = {k: ctx.inp(f"v{i}_", tuple(nodes[k].shape)) for i, k in enumerate(keys)}
    s3 = Snapshot(ctx, v=v, nodes=nodes)
    for k in keys:
        wp[k] = v[k]
    wp.reconstruct()
    s3.verify("assigned")
    s2.verify("assigned2")
    s.verify("assigned3")
    r2 = Snapshot(ctx, r=wp[""])
    wp[keys[0]] = v[keys[-1]]
    wp.reconstruct()
    s3.verify("reassigned")
    s.verify("reassigned2")
    r2.verify("reassigned3")
    wp[keys[0]] = v[keys[0]]
    for k in keys:
        ctx.check(f"kept:{k}", wp[k] is v[k])


@harness
def pure_cwt(ctx, wavelet, scales, shape, kind="array"):
    x = ctx.inp("x", shape)
    sc = np.array(scales, dtype=float) if kind == "array" else list(scales)
    before = list(map(float, sc))
    s = Snapshot(ctx, x=x)
    w = pywt.ContinuousWavelet(wavelet)
    y, f = ptwt.cwt(x, sc, w)
    s.verify("cwt")
    ctx.check("scales", list(map(float, sc)) == before, sc)
    y2, f2 = ptwt.cwt(x, sc, w)
    ctx.equal("repeat", y2, ctx.forms(y), 1e-12)
    ctx.check("freq", np.array_equal(f, f2))


@plan("C13")
def c13(tier, seed):
    yield from only_expandable(c13_all(tier, seed))


def c13_all(tier, seed):
    shapes = {1: [([7], None), ([6], None), ([2, 5], None), ([5, 2], [0]), ([2, 2, 4], [-1]), ([1, 8], None)],
              2: [([4, 5], None), ([2, 5, 4], None), ([1, 4, 4], None), ([4, 2, 5], [0, 2]), ([2, 1, 4, 4], None)],
              3: [([2, 3, 4], None), ([2, 2, 2, 3], None), ([1, 2, 2, 4], None), ([2, 3, 2, 2], [2, 0, 1]), ([1, 2, 2, 2, 2], None)]}
    for name in all_names():
        nd = ND[name]
        for s, ax in shapes[nd]:
            for w in (("haar", "db2") if nd < 3 else ("haar",)):
                for form in ("tuple", "name"):
                    if form == "name" and w == "db2" and tier == "quick":
                        continue
                    for lv in (0, 1, 2) if name not in PACKET else (1, 2):
                        if lv == 0 and (name in MATRIX or form == "tuple"):
                            continue
                        if lv == 2 and name in PACKET and nd == 2 and len(s) > 2:
                            continue
                        yield "pure", dict(name=name, wavelet=w, level=lv, shape=s, axes=ax, mode="symmetric", form=form)
            for mode in MODES:
                if name in ("wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3"):
                    if all(sp.accepts(k, 2, mode, 1) for k in s):
                        yield "pure", dict(name=name, wavelet="haar", level=1, shape=s, axes=ax, mode=mode)
            if name in MATRIX:
                for lv in (1, 2, None):
                    yield "pure_mat", dict(name=name, wavelet="haar", level=lv, shape=s, axes=ax)
            if name in PACKET:
                for w in ("haar", "db2"):
                    yield "pure_packet", dict(name=name, wavelet=w, level=1, shape=s, axes=ax, mode="symmetric")
                if len(s) == nd:
                    yield "pure_packet", dict(name=name, wavelet="haar", level=2, shape=s, axes=ax, mode="zero")
        for L in (2, 4):
            if name not in MATRIX and name not in PACKET:
                yield "pure", dict(name=name, wavelet=f"sym:{L}", level=1, shape=shapes[nd][0][0], mode="zero", form="tuple")
    for w in ("gaus1", "mexh", "cmor1.5-1.0"):
        for kind in ("array", "list"):
            yield "pure_cwt", dict(wavelet=w, scales=[3.0, 1.5, 2.0], shape=[2, 10], kind=kind)


# ------------------------------------------------------------------------------------
# C14 precision and wavelet representation
# ------------------------------------------------------------------------------------
@harness
def precise(ctx, name, wavelet, level, shape, axes=None, mode=None, dtype="float64", form="name", orth=None):
    """dtype of every output; all wavelet forms agree to working precision, including the
    automatic level; float64 forms agree to 1e-12 (a detour through lower precision would show)."""
    x = ctx.inp("x", shape, DT[dtype])
    wobj = pywt.Wavelet(wavelet)
    y = fwd(name, x, wobj, level, axes, mode, orth)
    for p, t in leaves(y):
        ctx.check(f"dtype{p}", t.dtype == DT[dtype], t.dtype)
    w, _ = wav(ctx, wavelet, dtype, form)
    z = fwd(name, x, w, level, axes, mode, orth)
    tol = 1e-12 if dtype == "float64" else 1e-6
    if ctx.check("levels", shape_of(z) == shape_of(y), f"{len(leaves(z))} vs {len(leaves(y))} tensors"):
        compare(ctx, "form", z, y, tol)
    if name in PACKET:
        return
    r = inv(name, y, wobj, axes, orth)
    ctx.check("rec:dtype", r.dtype == DT[dtype], r.dtype)
    co = fresh(ctx, y, "c")
    r1, r2 = inv(name, co, wobj, axes, orth), inv(name, co, w, axes, orth)
    ctx.check("inv:dtype", r1.dtype == DT[dtype], r1.dtype)
    compare(ctx, "inv", r2, r1, tol)
    # exactness of the round trip: only possible without a detour through lower precision
    if dtype == "float64" and not wavelet.startswith("dmey"):
        from .common import crop
        ctx.equal("exact", crop(r, x.shape), ctx.arr(x), max(1e-10, sp.pr_tol(wavelet, max(3, level or 3), ND[name], dtype)
                                                             if name not in MATRIX else 2e-9))


@harness
def rejects_dtype(ctx, name, dtype, shape, wavelet="haar", level=1):
    dt = getattr(torch, dtype)
    x = torch.zeros(shape, dtype=dt)
    ctx.raises("fwd", lambda: fwd(name, x, wavelet, level), ValueError)
    if name in PACKET:
        return
    co = template(name, shape, wavelet, level)
    bad = mapt(co, lambda t: t.to(dt))
    ctx.raises("inv", lambda: inv(name, bad, wavelet), ValueError)
    n = len(leaves(co))
    for other in (torch.float32, dt):
        for k in range(n):
            cnt = [0]

            def one(t):
                cnt[0] += 1
                return t.to(other) if cnt[0] - 1 == k else t
            mixed = mapt(co, one)
            ctx.raises(f"mixed{k}:{other}", lambda: inv(name, mixed, wavelet), ValueError)


@harness
def cwt_dtype(ctx, wavelet, scales, shape, dtype):
    x = ctx.inp("x", shape, DT[dtype])
    y, _ = ptwt.cwt(x, scales, wavelet)
    cplx = pywt.ContinuousWavelet(wavelet).complex_cwt
    want = {"float64": (torch.complex128 if cplx else torch.float64),
            "float32": (torch.complex64 if cplx else torch.float32)}[dtype]
    ctx.check("dtype", y.dtype == want, f"{y.dtype} expected {want}")
    z, _ = ptwt.cwt(x, scales, pywt.ContinuousWavelet(wavelet))
    ctx.equal("form", z, ctx.forms(y), 1e-12 if dtype == "float64" else 1e-5)


@plan("C14")
def c14(tier, seed):
    shapes = {1: [([13], None), ([2, 16], None), ([24], None)], 2: [([7, 8], None), ([13, 12], None)], 3: [([4, 5, 6], None)]}
    for name in all_names():
        nd = ND[name]
        mat = name in MATRIX or name.startswith("Boundary")
        ws = ["haar", "db2", "db3", "sym4"] if mat else ["haar", "db2", "bior2.2", "sym4", "db5", "rbio3.1", "coif2"]
        if nd == 2:
            ws = ws[:3] + ["db5"] if not mat else ws[:3]
        if nd == 3:
            ws = ["haar", "db2"]
        for w in ws:
            for s, ax in shapes[nd]:
                if name == "swt" and s[-1] % 2:
                    s = [s[-1] + 3]
                for dt in ("float64", "float32"):
                    for form in ("name", "tuple") if dt == "float64" else ("tuple",):
                        lvs = (None, 1) if nd > 1 else (None, 1, 2)
                        if name in PACKET:
                            lvs = (1,) if nd == 2 else (1, 2)
                            if nd == 1 or flen(w) >= 4:
                                lvs += (None,)
                        for lv in lvs:
                            mode = "symmetric"
                            if nd == 2 and (s[0] * s[1] > 60 and (lv is None or name in PACKET) and tier == "quick" and w != "db3"):
                                continue
                            yield "precise", dict(name=name, wavelet=w, level=lv, shape=s, axes=ax, mode=mode, dtype=dt, form=form)
        for mode in MODES:
            if name in ("wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3"):
                for dt in ("float64", "float32"):
                    yield "precise", dict(name=name, wavelet="db2", level=1, shape=[5, 4, 6][:nd], mode=mode, dtype=dt, form="tuple")
        for dt in ("float16", "bfloat16", "int64", "int32", "complex128", "bool"):
            if name not in PACKET:
                yield "rejects_dtype", dict(name=name, dtype=dt, shape=[4, 4, 4][:nd])
                if dt in ("float16", "int64"):
                    yield "rejects_dtype", dict(name=name, dtype=dt, shape=[8, 8, 8][:nd], level=3 if nd == 1 else 2)
    for w in ("gaus1", "mexh", "cmor1.5-1.0", "shan1.0-1.0", "morl"):
        for dt in ("float64", "float32"):
            yield "cwt_dtype", dict(wavelet=w, scales=[2.0, 1.0, 3.5], shape=[2, 12], dtype=dt)


# ------------------------------------------------------------------------------------
# C24 linearity and adjoint
# ------------------------------------------------------------------------------------
def sample(n, seed, dtype):
    g = torch.Generator().manual_seed(seed)
    return torch.rand(n, generator=g, dtype=torch.float64).mul(2).sub(1).to(dtype)


def flatcat(s):
    return torch.cat([t.reshape(-1) for _, t in leaves(s)])


@harness
def adjoint(ctx, name, wavelet, level, shape, axes=None, mode=None, direction="fwd", orth=None, dtype="float64"):
    """The Jacobian autograd back-propagates is the linear map the transform computes."""
    dt = DT[dtype]
    tol = 1e-9 if dtype == "float64" else 1e-4
    if direction == "fwd":
        x = ctx.inp("x", shape, dt)
        n = int(np.prod(shape))

        def f(v):
            return fwd(name, v.reshape(shape), wavelet, level, axes, mode, orth)
        vec = x.reshape(-1)
    else:
        co = template(name, shape, wavelet, level, axes, mode, dt)
        sym = fresh(ctx, co, "c")
        sizes = [t.numel() for _, t in leaves(co)]
        n = sum(sizes)

        def f(v):
            parts = iter(torch.split(v, sizes))
            return inv(name, mapt_ordered(co, lambda t: next(parts).reshape(t.shape)), wavelet, axes, orth)
        vec = torch.cat([t.reshape(-1) for _, t in leaves(sym)])
    # gradients of the real code under plain autograd
    with S.no_modes():
        v0 = sample(n, 1, dt).requires_grad_(True)
        out = flatcat(f(v0))
        ctx.check("tracks", bool(out.requires_grad), "output does not require grad")
        rows = []
        if out.requires_grad:
            for i in range(out.numel()):
                e = torch.zeros_like(out)
                e[i] = 1.0
                (g,) = torch.autograd.grad(out, v0, e, retain_graph=True, allow_unused=True)
                rows.append(torch.zeros(n) if g is None else g)
    if not rows:
        return
    J = [[(int(j), F.const(float(r[j]))) for j in torch.nonzero(r).flatten().tolist()] for r in rows]
    X = ctx.arr(vec)
    want = sp.along(J, X, 0)
    y = flatcat(f(vec))
    ctx.equal("adjoint", y, want, tol)


def mapt_ordered(s, fn):
    """mapt visiting tensors in the order of leaves()."""
    if isinstance(s, torch.Tensor):
        return fn(s)
    if isinstance(s, dict):
        return {k: mapt_ordered(s[k], fn) for k in sorted(s)}
    if isinstance(s, tuple) and hasattr(s, "_fields"):
        return type(s)(*[mapt_ordered(v, fn) for v in s])
    return type(s)([mapt_ordered(v, fn) for v in s])


@harness
def linear(ctx, name, wavelet, level, shape, axes=None, mode=None, dtype="float64", alpha=0.75, beta=-1.5, orth=None):
    x = ctx.inp("x", shape, DT[dtype])
    z = ctx.inp("z", shape, DT[dtype])
    fx, fz, fb = (leaves(fwd(name, t, wavelet, level, axes, mode, orth)) for t in (x, z, alpha * x + beta * z))
    for (p, a), (_, b), (_, c) in zip(fx, fz, fb):
        ctx.equal("lin" + p, c, alpha * ctx.arr(a) + beta * ctx.arr(b), 1e-10)
    if name in PACKET:
        return
    y = fwd(name, x, wavelet, level, axes, mode, orth)
    c1, c2 = fresh(ctx, y, "c"), fresh(ctx, y, "d")
    it = iter([t for _, t in leaves(c2)])
    c3 = mapt_ordered(c1, lambda t: alpha * t + beta * next(it))
    r = [ctx.arr(inv(name, c, wavelet, axes, orth)) for c in (c1, c2)]
    ctx.equal("inv", inv(name, c3, wavelet, axes, orth), alpha * r[0] + beta * r[1], 1e-10)


@harness
def adjoint_cwt(ctx, wavelet, scales, shape):
    x = ctx.inp("x", shape)
    n = int(np.prod(shape))

    def f(v):
        y = ptwt.cwt(v.reshape(shape), scales, wavelet)[0]
        return torch.view_as_real(y).reshape(-1) if y.is_complex() else y.reshape(-1)
    with S.no_modes():
        v0 = sample(n, 1, torch.float64).requires_grad_(True)
        out = f(v0)
        ctx.check("tracks", bool(out.requires_grad))
        rows = []
        if out.requires_grad:
            for i in range(out.numel()):
                e = torch.zeros_like(out)
                e[i] = 1.0
                (g,) = torch.autograd.grad(out, v0, e, retain_graph=True, allow_unused=True)
                rows.append(torch.zeros(n) if g is None else g)
    if not rows:
        return
    J = [[(j, F.const(float(v))) for j, v in enumerate(r.tolist())] for r in rows]
    want = sp.along(J, ctx.arr(x.reshape(-1)), 0)
    y = ptwt.cwt(x, scales, wavelet)[0]
    re, im = ctx.forms(y)
    if im is not None:
        want = want.reshape(re.shape + (2,))
        ctx.equal("re", (re, None), want[..., 0], 1e-8)
        ctx.equal("im", (im, None), want[..., 1], 1e-8)
    else:
        ctx.equal("re", (re, None), want.reshape(re.shape), 1e-8)


@harness
def adjoint_packet_rec(ctx, name, wavelet, level, shape, axes=None, mode=None):
    """Reconstruction from leaves: gradient with respect to the leaves."""
    with S.no_modes():
        probe = packet_object(name, torch.zeros(shape, dtype=torch.float64), wavelet, level, axes, mode)
        keys = packet_nodes(name, level)
        shp = {k: tuple(probe[k].shape) for k in keys}
    sizes = [int(np.prod(shp[k])) for k in keys]
    n = sum(sizes)

    def f(v):
        wp = packet_object(name, torch.zeros(shape, dtype=torch.float64), wavelet, level, axes, mode)
        wp.initialize(keys)
        for k, p in zip(keys, torch.split(v, sizes)):
            wp[k] = p.reshape(shp[k])
        return wp.reconstruct()[""].reshape(-1)
    vec = ctx.inp("c", (n,))
    with S.no_modes():
        v0 = sample(n, 1, torch.float64).requires_grad_(True)
        out = f(v0)
        ctx.check("tracks", bool(out.requires_grad))
        rows = []
        if out.requires_grad:
            for i in range(out.numel()):
                e = torch.zeros_like(out)
                e[i] = 1.0
                (g,) = torch.autograd.grad(out, v0, e, retain_graph=True, allow_unused=True)
                rows.append(torch.zeros(n) if g is None else g)
    if not rows:
        return
    J = [[(j, F.const(float(v))) for j, v in enumerate(r.tolist()) if v] for r in rows]
    ctx.equal("adjoint", f(vec), sp.along(J, ctx.arr(vec), 0), 1e-9)


@plan("C24")
def c24(tier, seed):
    yield from only_expandable(c24_all(tier, seed))


def c24_all(tier, seed):
    shapes = {1: [([7], None), ([2, 8], None), ([6, 2], [0]), ([12], None)], 2: [([4, 5], None), ([2, 4, 4], None), ([4, 2, 5], [2, 0])],
              3: [([2, 3, 4], None), ([4, 4, 4], None), ([2, 2, 3, 2], [0, 3, 2])]}
    if tier == "thorough":
        shapes[1] += [([17], None), ([3, 2, 9], [1]), ([24], None)]
        shapes[2] += [([7, 6], None), ([8, 8], None), ([2, 6, 5], None)]
        shapes[3] += [([5, 4, 3], None)]
    for name in all_names():
        nd = ND[name]
        for s, ax in shapes[nd]:
            for w in ("haar", "db2") if nd < 3 else ("haar",):
                for lv in (1, 2):
                    if lv == 2 and (nd == 3 and max(s) < 4 or name in PACKET and nd == 2):
                        continue
                    mode = "symmetric" if lv == 2 or w == "db2" else "zero"
                    yield "linear", dict(name=name, wavelet=w, level=lv, shape=s, axes=ax, mode=mode)
                    for d in ("fwd", "inv") if name not in PACKET else ("fwd",):
                        yield "adjoint", dict(name=name, wavelet=w, level=lv, shape=s, axes=ax, mode=mode, direction=d)
            if name in PACKET:
                yield "adjoint_packet_rec", dict(name=name, wavelet="haar", level=1, shape=s, axes=ax, mode="zero")
                if nd == 1:
                    yield "adjoint_packet_rec", dict(name=name, wavelet="haar", level=2, shape=s, axes=ax, mode="symmetric")
        for mode in MODES:
            if name in ("wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3") or name in PACKET and name[0] != "B":
                s = [5, 4, 6][:nd]
                for dt in ("float64", "float32"):
                    yield "adjoint", dict(name=name, wavelet="db2" if nd < 3 else "haar", level=1, shape=s, mode=mode, dtype=dt)
                yield "linear", dict(name=name, wavelet="db2" if nd < 3 else "haar", level=1, shape=s, mode=mode)
        # filters much longer than the data, deep levels: repeated wrapping
        short = {1: [([3], "db5", 1), ([5], "db5", 1), ([1], "db3", 1), ([2, 4], "db7", 1), ([6], "db2", 4), ([2], "db9", 2)],
                 2: [([3, 4], "db4", 1), ([2, 3], "db2", 3), ([1, 5], "db3", 1)], 3: [([2, 3, 2], "db2", 2), ([1, 2, 3], "db3", 1)]}
        if name not in MATRIX and name[0] != "B":
            for s, w, lv in short[nd]:
                for mode in ("symmetric", "constant", "zero"):
                    if name == "swt":
                        s = [k + k % 2 ** lv for k in s]
                        if mode != "zero" or s[-1] % 2 ** lv:
                            continue
                    if name in PACKET and lv > 2:
                        lv = 2
                    for d in ("fwd", "inv") if name not in PACKET else ("fwd",):
                        if d == "fwd" or mode == "zero":
                            yield "adjoint", dict(name=name, wavelet=w, level=lv, shape=s, mode=mode, direction=d)
        if name in MATRIX:
            s = [9, 8, 6][:nd] if nd < 3 else [5, 4, 4]
            for orth in ("qr", "gramschmidt"):
                for d in ("fwd", "inv"):
                    yield "adjoint", dict(name=name, wavelet="db2", level=1, shape=s, mode="constant", orth=orth, direction=d)
    for w in ("gaus1", "mexh", "cmor1.5-1.0"):
        yield "adjoint_cwt", dict(wavelet=w, scales=[2.0, 1.0, 3.5], shape=[2, 8])
