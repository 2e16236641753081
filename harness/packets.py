"""C15-C17: wavelet packets."""
import itertools
import random

import numpy as np
import ptwt
import pywt
import torch
import z3

from symwave import forms as F
from symwave import specs as sp
from symwave import symtensor as S

from . import harness, plan
from .common import DT, MODES, check_rec, flen, norm_axes, tol_of, wav
from .matrix import boundary_rows, mat_dwt, pad_even, rows_of
from .ops import MATRIX, ND, PACKET, packet_object
from .behave import expandable

LETTERS = {1: {"a": "a", "d": "d"}, 2: {"a": "aa", "h": "da", "v": "ad", "d": "dd"}}


def axes_of(name, axes, nd):
    return norm_axes(axes if axes is not None else range(-ND[name], 0), nd)


def paths(name, level):
    return ["".join(p) for p in itertools.product(LETTERS[ND[name]], repeat=level)]


def tdtol(dtype, wavelet, level, nd):
    return tol_of(dtype, wavelet, level, nd) if dtype == "float32" else 1e-9


def spec_children(name, X, wavelet, axes, mode, orth, dtype):
    """{letter: array of forms}: one level of the configured transform (padded modes and 1-D boundary)."""
    if name == "BoundaryPacket":
        a = axes[0]
        Y = pad_even(X, a, "zero")
        lo, hi = mat_dwt(Y, wavelet, orth or "qr", dtype, a)
        return {"a": lo, "d": hi}
    lo, hi = [sp.taps(f) for f in sp.filters(wavelet)[:2]]
    bands = sp.dwtn(X, lo, hi, mode or "reflect", axes)
    return {k: bands[b] for k, b in LETTERS[ND[name]].items()}


def real_children(x, wavelet, axes, orth, separable):
    """2-D boundary: one level of MatrixWavedec2 constructed for this call."""
    co = ptwt.MatrixWavedec2(wavelet, 1, axes=tuple(axes), orthogonalization=orth or "qr", separable=separable)(x)
    a, (h, v, d) = co
    return {"a": a, "h": h, "v": v, "d": d}


def spec_tree(ctx, name, x, wavelet, level, axes, mode, orth, dtype):
    """{path: array of forms} for every path up to `level`."""
    ax = axes_of(name, axes, x.dim())
    tree = {"": ctx.arr(x)}
    if name == "BoundaryPacket2D" or name == "BoundarySeparable2D":
        real = {"": x}
        for lv in range(level):
            for p in paths(name, lv):
                for k, t in real_children(real[p], wavelet, ax, orth, name != "BoundaryPacket2D").items():
                    real[p + k] = t
                    tree[p + k] = ctx.arr(t)
        return tree
    for lv in range(level):
        for p in paths(name, lv):
            for k, v in spec_children(name, tree[p], wavelet, ax, mode, orth, dtype).items():
                tree[p + k] = v
    return tree


def access_order(name, level, order):
    keys = [p for lv in range(level + 1) for p in paths(name, lv)]
    if order == "natural":
        return keys
    if order == "reverse":
        return keys[::-1]
    if order == "leaves":
        return paths(name, level)[::-1] + keys
    rng = random.Random(int(order))
    rng.shuffle(keys)
    return keys


# ------------------------------------------------------------------------------------
# C15
# ------------------------------------------------------------------------------------
@harness
def nodes(ctx, name, wavelet, level, shape, axes=None, mode=None, order="natural", dtype="float64", orth=None, form="name",
          init=False, maxlevel=None):
    """Every node equals the iterated single-level transform, whatever the access order."""
    w, _ = wav(ctx, wavelet, dtype, form)
    x = ctx.inp("x", shape, DT[dtype])
    wp = build(name, x, w, level if maxlevel is None else maxlevel, axes, mode, orth)
    tree = spec_tree(ctx, name, x, wavelet, level, axes, mode, orth, dtype)
    keys = access_order(name, level, order)
    if init:
        wp.initialize(keys[::2])
    tol = tdtol(dtype, wavelet, level, ND[name])
    got = {}
    for k in keys:
        t = wp[k]
        ctx.check(f"dtype:{k}", t.dtype == DT[dtype], t.dtype)
        got.setdefault(k, t)
        ctx.check(f"stable:{k}", got[k] is t)
        ctx.equal(f"node:{k}", t, tree[k], tol)
    # everything the tree now holds is addressed by its path
    for k in sorted(wp.keys()):
        if ctx.check(f"known:{k}", k in tree, k):
            ctx.equal(f"held:{k}", wp[k], tree[k], tol)


build = packet_object


@harness
def badkeys(ctx, name, wavelet, level, shape, mode=None):
    """Paths deeper than the maximum level or with foreign letters raise."""
    x = ctx.inp("x", shape)
    wp = build(name, x, wavelet, level, None, mode, None)
    letters = list(LETTERS[ND[name]])
    for p in paths(name, level + 1) if level < 3 else paths(name, level + 1)[:40]:
        ctx.raises(f"deep:{p}", lambda: wp[p], KeyError)
    ctx.raises("deeper", lambda: wp["a" * (level + 3)], KeyError)
    foreign = [c for c in "axhvdA 0_l" if c not in letters]
    # the same through initialize, on a fresh and on a used tree
    for lb, tree in (("used", wp), ("fresh", build(name, x, wavelet, level, None, mode, None))):
        for p in [letters[-1] * (level + 1), "a" * (level + 2)]:
            ctx.raises(f"initialize:{lb}:{p}", lambda: tree.initialize([p]), KeyError)
            ctx.raises(f"initialize:{lb}:a,{p}", lambda: tree.initialize(iter(["a", p])), KeyError)
        for c in foreign[:4]:
            for p in {c, "a" * (level - 1) + c}:
                ctx.raises(f"initialize:{lb}:{p}", lambda: tree.initialize([p]), (KeyError, ValueError))
    for c in foreign:
        for pre in range(level):
            for p in paths(name, pre)[:5]:
                ctx.raises(f"letter:{p + c}", lambda: wp[p + c], (KeyError, ValueError))
                if pre + 2 <= level:
                    ctx.raises(f"letter:{p + c}a", lambda: wp[p + c + "a"], (KeyError, ValueError))
    ctx.check("clean", all(set(k) <= set(letters) and len(k) <= level for k in wp.keys()), sorted(wp.keys()))
    empty = build(name, None, wavelet, None, None, mode, None)
    ctx.raises("empty:root", lambda: empty[""], ValueError)
    ctx.raises("empty:a", lambda: empty["a"], ValueError)


def padded_ok(name, wavelet, level, shape, axes, mode):
    nd = len(shape)
    if name.startswith("Boundary"):
        return expandable(name, wavelet, level, shape, axes_of(name, axes, nd))
    return all(sp.accepts(shape[a], flen(wavelet), mode or "reflect", level) for a in axes_of(name, axes, nd))


NAMES = ["WaveletPacket", "BoundaryPacket", "WaveletPacket2D", "SeparablePacket2D", "BoundaryPacket2D", "BoundarySeparable2D"]
E1 = [((7,), None), ((8,), None), ((2, 9), None), ((13,), None), ((6, 2), [0]), ((2, 5, 2), [1]), ((2, 2, 11), [-1]), ((16,), None), ((20,), None)]
E2 = [((4, 5), None), ((6, 6), None), ((2, 3, 5), None), ((4, 2, 5), [0, 2]), ((4, 2, 5), [2, 0]), ((7, 6), [-1, -2]), ((2, 4, 4, 2), [1, 2]),
      ((8, 9), None), ((9, 4), None)]


def tree_configs(tier):
    for name in NAMES:
        nd = ND[name]
        if nd == 1:
            ws = ["haar", "db2", "db3"] + (["bior2.2", "sym4", "rbio3.1"] if name == "WaveletPacket" else ["coif1"])
        else:
            ws = ["haar", "db2"] + (["bior1.3"] if name[0] != "B" else [])
        for wi, w in enumerate(ws):
            for si, (s, a) in enumerate(E1 if nd == 1 else E2):
                top = (3 if nd == 1 else 2) if tier == "quick" else (4 if nd == 1 else 3)
                for lv in range(1, top + 1):
                    if nd == 2 and lv >= 2 and np.prod(s) > (40 if tier == "quick" else 82):
                        continue
                    if nd == 2 and lv >= 3 and np.prod(s) > 24:
                        continue
                    mode = MODES[(si + wi + lv) % 5]
                    if not padded_ok(name, w, lv, s, a, mode):
                        mode = "symmetric"
                    if not padded_ok(name, w, lv, s, a, mode):
                        continue
                    yield name, w, lv, s, a, mode


@plan("C15")
def c15(tier, seed):
    orders = ["natural", "reverse", "leaves", "1", "2"]
    for i, (name, w, lv, s, a, mode) in enumerate(tree_configs(tier)):
        orth = ("qr", "gramschmidt")[i % 2] if name[0] == "B" else None
        for o in ([orders[i % 5], orders[(i + 1) % 5]] if tier == "quick" else orders + ["3", "4"]):
            yield "nodes", dict(name=name, wavelet=w, level=lv, shape=list(s), axes=a, mode=mode, order=o, orth=orth, init=bool(i % 2))
    for name in NAMES:
        nd = ND[name]
        s = [12, 10][-nd:]
        for mode in MODES if name[0] != "B" else [None]:
            for w in ("haar", "db2"):
                if padded_ok(name, w, 2 if nd == 1 else 1, s, None, mode):
                    yield "nodes", dict(name=name, wavelet=w, level=2 if nd == 1 else 1, shape=s, mode=mode)
        yield "nodes", dict(name=name, wavelet="haar", level=1, shape=s, mode=None, maxlevel=3)
        for form in ("object", "tuple"):
            yield "nodes", dict(name=name, wavelet="db2", level=1, shape=s, mode="zero", form=form)
        yield "nodes", dict(name=name, wavelet="db2", level=1, shape=s, mode="zero", dtype="float32")
        for lv in (0, 1, 2, 3) if nd == 1 else (0, 1, 2):
            yield "badkeys", dict(name=name, wavelet="haar", level=lv, shape=[16, 8][-nd:], mode="zero")


# ------------------------------------------------------------------------------------
# C16
# ------------------------------------------------------------------------------------
@harness
def rec_full(ctx, name, wavelet, level, shape, axes=None, mode=None, dtype="float64", orth=None, form="name", full=False, twice=False):
    """Full expansion followed by reconstruction returns the data."""
    w, _ = wav(ctx, wavelet, dtype, form)
    x = ctx.inp("x", shape, DT[dtype])
    wp = build(name, x, w, level, axes, mode, orth)
    lv = wp.maxlevel
    if level is not None:
        ctx.check("maxlevel", lv == level, lv)
    keys = paths(name, lv)
    if full:
        for k in range(lv + 1):
            wp.initialize(paths(name, k))
    else:
        wp.initialize(keys[::-1])
    r = wp.reconstruct()
    ctx.check("self", r is wp)
    nd = ND[name]
    tol = sp.pr_tol(wavelet, max(lv, 1), nd, dtype)
    if name[0] == "B":
        tol = max(tol, 2e-9 if dtype == "float64" else 1e-4)
    ax = axes_of(name, axes, len(shape))
    check_rec(ctx, "rec", wp[""], x, ax, lv, tol)
    if twice:
        wp.reconstruct()
        check_rec(ctx, "rec2", wp[""], x, ax, lv, tol)


def rec_children(name, ch, wavelet, axes, orth, dtype):
    """Array of forms synthesised from {letter: array}."""
    if name == "BoundaryPacket":
        a = axes[0]
        n = 2 * ch["a"].shape[a]
        m = boundary_rows(wavelet, n, orth or "qr", dtype, "s")
        return sp.along(rows_of(m), np.concatenate([ch["a"], ch["d"]], a), a)
    g_lo, g_hi = [sp.taps(f) for f in sp.filters(wavelet)[2:]]
    return sp.idwtn({b: ch[k] for k, b in LETTERS[ND[name]].items()}, g_lo, g_hi, axes)


@harness
def rec_leaves(ctx, name, wavelet, level, shape, axes=None, mode=None, dtype="float64", orth=None, inner=True, again=True, some=None):
    """Reconstruction is the synthesis of exactly the current leaves."""
    x = ctx.inp("x", shape, DT[dtype])
    wp = build(name, x, wavelet, level, axes, mode, orth)
    keys = paths(name, level)
    wp.initialize(keys)
    shp = {k: tuple(wp[k].shape) for lv in range(level + 1) for k in paths(name, lv)}
    ax = axes_of(name, axes, len(shape))
    tol = max(tdtol(dtype, wavelet, level, ND[name]), 2e-9 if name[0] == "B" else 0)
    leaf = {k: wp[k] for k in keys}
    for rnd in range(2 if again else 1):
        chosen = keys if some is None and rnd == 0 else keys[rnd::2] if some is None else [k for i, k in enumerate(keys) if i in some]
        if inner:
            # values at inner nodes are replaced: assign before, between and after the leaves
            for lv in range(level):
                for p in paths(name, lv):
                    wp[p] = ctx.inp(f"inner{rnd}{p}_", shp[p], DT[dtype])
        for k in chosen:
            leaf[k] = ctx.inp(f"leaf{rnd}{k}_", shp[k], DT[dtype])
            wp[k] = leaf[k]
        wp.reconstruct()
        want = want_tree(ctx, name, leaf, shp, wavelet, level, ax, orth, dtype)
        for lv in range(level):
            for p in paths(name, lv):
                ctx.equal(f"rec{rnd}:{p}", wp[p], want[p], tol)
        for k in keys:
            ctx.check(f"leaf{rnd}:{k}", wp[k] is leaf[k])
        shp[""] = tuple(wp[""].shape)


def want_tree(ctx, name, leaf, shp, wavelet, level, ax, orth, dtype):
    two_d_boundary = name in ("BoundaryPacket2D", "BoundarySeparable2D")
    cur = dict(leaf) if two_d_boundary else {k: ctx.arr(t) for k, t in leaf.items()}
    out = {}
    for lv in reversed(range(level)):
        for p in paths(name, lv):
            ch = {k: cur[p + k] for k in LETTERS[ND[name]]}
            if two_d_boundary:
                r = ptwt.MatrixWaverec2(wavelet, axes=tuple(ax), orthogonalization=orth or "qr",
                                        separable=name != "BoundaryPacket2D")(
                    (ch["a"], ptwt.constants.WaveletDetailTuple2d(ch["h"], ch["v"], ch["d"])))
                if lv:
                    for d in ax:
                        r = r.narrow(d, 0, shp[p][d])
                cur[p], out[p] = r, ctx.arr(r)
                continue
            r = rec_children(name, ch, wavelet, ax, orth, dtype)
            if lv:
                for d in ax:
                    r = np.take(r, range(shp[p][d]), axis=d)
            cur[p] = out[p] = r
    return out


@harness
def rec_missing(ctx, name, wavelet, level, shape, mode=None):
    """Every missing leaf raises a KeyError, and nothing is expanded to hide it."""
    x = ctx.inp("x", shape)
    keys = paths(name, level)
    for miss in keys:
        wp = build(name, x, wavelet, level, None, mode, None)
        wp.initialize(keys)
        del wp[miss]
        ctx.raises(f"missing:{miss}", wp.reconstruct, KeyError)
        ctx.check(f"absent:{miss}", miss not in wp)
    wp = build(name, x, wavelet, level, None, mode, None)
    ctx.raises("missing:all", wp.reconstruct, KeyError)
    # missing inner nodes are no problem
    for lv in range(1, level):
        for p in paths(name, lv):
            wp = build(name, x, wavelet, level, None, mode, None)
            wp.initialize(keys)
            del wp[p]
            wp.reconstruct()
            check_rec(ctx, f"inner:{p}", wp[""], x, axes_of(name, None, len(shape)), level, 1e-8)


@plan("C16")
def c16(tier, seed):
    for i, (name, w, lv, s, a, mode) in enumerate(tree_configs(tier)):
        orth = ("qr", "gramschmidt")[(i + lv) % 2] if name[0] == "B" else None
        c = dict(name=name, wavelet=w, level=lv, shape=list(s), axes=a, mode=mode, orth=orth)
        yield "rec_full", dict(c, full=bool(i % 2), twice=i % 3 == 0)
        if ND[name] == 1 or lv == 1 or np.prod(s) <= 30 or tier == "thorough":
            yield "rec_leaves", dict(c, inner=i % 3 != 2)
            if i % 4 == 0:
                yield "rec_leaves", dict(c, some=[0, 2], again=False)
    for name in NAMES:
        nd = ND[name]
        ms = MODES if name[0] != "B" else [None]
        for mode in ms:
            for w in ("haar", "db2"):
                for s in ([12, 10][-nd:], [13, 11][-nd:], [9, 12][-nd:]):
                    lv = 2 if nd == 1 else 1
                    if padded_ok(name, w, lv, s, None, mode):
                        yield "rec_full", dict(name=name, wavelet=w, level=lv, shape=s, mode=mode)
                        yield "rec_leaves", dict(name=name, wavelet=w, level=lv, shape=s, mode=mode)
        for s in ([16, 12][-nd:], [2, 13, 9][-nd - 1:], [24, 8][-nd:]):
            yield "rec_full", dict(name=name, wavelet="db2", level=None, shape=s, mode="symmetric")
        yield "rec_full", dict(name=name, wavelet="haar", level=0, shape=[2, 7, 5][-nd - 1:], mode="zero")
        for form in ("object", "tuple"):
            yield "rec_full", dict(name=name, wavelet="db2", level=1, shape=[12, 9][-nd:], mode="zero", form=form)
        yield "rec_full", dict(name=name, wavelet="db2", level=1, shape=[12, 9][-nd:], mode="zero", dtype="float32")
        for lv in (1, 2, 3) if nd == 1 else (1, 2):
            yield "rec_missing", dict(name=name, wavelet="haar", level=lv, shape=[12, 8][-nd:] if lv < 3 else [16], mode="zero")


# ------------------------------------------------------------------------------------
# C17
# ------------------------------------------------------------------------------------
def mux(bits, vals, width):
    """Circuit selecting vals[k] (constants) by the bits of k, most significant first."""
    vals = [z3.BitVecVal(v, width) for v in vals]
    for b in reversed(bits):
        vals = [z3.If(b, vals[i + 1], vals[i]) if not vals[i].eq(vals[i + 1]) else vals[i] for i in range(0, len(vals), 2)]
    return vals[0]


def selector(k, bits):
    return [z3.Extract(i, i, k) == 1 for i in reversed(range(bits))]


def code(path, one):
    v = 0
    for c in path:
        v = 2 * v + (c in one)
    return v


def damage(lst):
    """What a caller may do with a list it was given."""
    for r in lst:
        if isinstance(r, list):
            r.reverse()
            r.append("x")
    lst.reverse()
    if lst:
        lst.pop()
    lst.append("spoilt")


@harness
def order_again(ctx, level, cls):
    """Editing a returned order does not change what the next call (or reconstruct) sees."""
    C = getattr(ptwt, cls)
    gets = {"natural": lambda: C.get_level(level, "natural"), "freq": lambda: C.get_level(level, "freq"), "default": lambda: C.get_level(level)}
    if cls == "WaveletPacket2D":
        gets["get_natural_order"] = lambda: C.get_natural_order(level)
        gets["get_freq_order"] = lambda: C.get_freq_order(level)
    import copy
    first = {k: copy.deepcopy(g()) for k, g in gets.items()}
    for k, g in gets.items():
        damage(g())
        for q, h in gets.items():
            ctx.check(f"{q} after {k}", h() == first[q], f"{str(h())[:80]} expected {str(first[q])[:80]}")
    if 0 < level <= 2:
        x = ctx.inp("x", (4, 8)[:2] if cls == "WaveletPacket2D" else (2, 8))
        wp = C(x, "haar", mode="zero", maxlevel=level)
        wp.initialize(C.get_level(level, "natural"))
        ctx.equal("reconstruct", wp.reconstruct()[""], ctx.arr(x), 1e-10)


@harness
def order1(ctx, level):
    n = 2 ** level
    for order in ("natural", "freq", None):
        lst = ptwt.WaveletPacket.get_level(level) if order is None else ptwt.WaveletPacket.get_level(level, order)
        lb = f"{order}"
        if not ctx.check(f"{lb}:list", isinstance(lst, list) and len(lst) == n and all(len(p) == level and set(p) <= set("ad") for p in lst),
                         f"{len(lst)} of {n}"):
            continue
        if level == 0:
            ctx.check(f"{lb}:root", lst == [""], lst)
            continue
        W = level + 1
        k, j = z3.BitVecs("k j", W)
        bits = selector(k, level)
        f = mux(bits, [code(p, "d") for p in lst], W)
        inb = [z3.ULT(k, n)]
        show = lambda m: f"position {m.eval(k)}: {lst[m.eval(k, model_completion=True).as_long()]}"  # noqa: E731
        if order == "natural":
            ctx.valid(f"{lb}:lexicographic", inb + [f != k], show)
        else:
            ctx.valid(f"{lb}:gray", inb + [f != k ^ z3.LShR(k, 1)], show)
            # neighbours differ in one letter
            g = mux(selector(k + 1, level), [code(p, "d") for p in lst], W)
            d = f ^ g
            ctx.valid(f"{lb}:step", [z3.ULT(k, n - 1), z3.Or(d == 0, (d & (d - 1)) != 0)], show)
        if level <= 8:
            g = mux(selector(j, level), [code(p, "d") for p in lst], W)
            ctx.valid(f"{lb}:once", inb + [z3.ULT(j, n), k != j, f == g], show)
    for bad in ("", "frequency", "nat"):
        ctx.raises(f"bad:{bad}", lambda: ptwt.WaveletPacket.get_level(level, bad), ValueError)


@harness
def order2(ctx, level):
    n = 2 ** level
    C = ptwt.WaveletPacket2D
    W = 2 * level + 1
    digits = {"a": 0, "h": 1, "v": 2, "d": 3}
    for lb, lst in (("natural", C.get_level(level, "natural")), ("get_natural_order", C.get_natural_order(level))):
        if not ctx.check(f"{lb}:list", isinstance(lst, list) and len(lst) == n * n and all(len(p) == level and set(p) <= set("ahvd") for p in lst),
                         f"{len(lst)} of {n * n}"):
            continue
        if level == 0:
            continue
        vals = []
        for p in lst:
            v = 0
            for c in p:
                v = 4 * v + digits[c]
            vals.append(v)
        k = z3.BitVec("k", W)
        ctx.valid(f"{lb}:lexicographic", [z3.ULT(k, n * n), mux(selector(k, 2 * level), vals, W) != k])
    for lb, rows in (("freq", C.get_level(level, "freq")), ("default", C.get_level(level)), ("get_freq_order", C.get_freq_order(level))):
        ok = isinstance(rows, list) and len(rows) == n and all(len(r) == n for r in rows) and \
            all(len(p) == level and set(p) <= set("ahvd") for r in rows for p in r)
        if not ctx.check(f"{lb}:grid", ok, f"{[len(r) for r in rows][:5]}"):
            continue
        if level == 0:
            ctx.check(f"{lb}:root", rows == [[""]], rows)
            continue
        r, c = z3.BitVecs("r c", W)
        bits = selector(r, level) + selector(c, level)
        flat = [p for row in rows for p in row]
        R = mux(bits, [code(p, "hd") for p in flat], W)
        Cc = mux(bits, [code(p, "vd") for p in flat], W)
        inb = [z3.ULT(r, n), z3.ULT(c, n)]
        show = lambda m: f"row {m.eval(r, True)} column {m.eval(c, True)}: {rows[m.eval(r, True).as_long()][m.eval(c, True).as_long()]}"  # noqa: E731
        ctx.valid(f"{lb}:rows", inb + [R != r ^ z3.LShR(r, 1)], show)
        ctx.valid(f"{lb}:columns", inb + [Cc != c ^ z3.LShR(c, 1)], show)
    for bad in ("", "frequency", "nat"):
        ctx.raises(f"bad:{bad}", lambda: C.get_level(level, bad), ValueError)


@harness
def bands(ctx, name, wavelet, level, n, order="freq"):
    """The filters of the k-th node in frequency order select the k-th band: with the signal's
    frequency response accumulated symbolically, the node's synthesis of a unit leaf has its
    spectral energy centred in increasing bands (orthogonal long filters)."""
    # centre of mass of |H|^2 over [0, pi] is a constant of the real cascade; z3 decides the ordering
    x = torch.zeros(n, dtype=torch.float64)
    cent = []
    with S.no_modes():
        for p in ptwt.WaveletPacket.get_level(level, order):
            wp = ptwt.WaveletPacket(x, wavelet, mode="zero", maxlevel=level)
            wp.initialize(ptwt.WaveletPacket.get_level(level, "natural"))
            leaf = torch.zeros_like(wp[p])
            leaf[leaf.shape[0] // 2] = 1.0
            wp[p] = leaf
            r = wp.reconstruct()[""]
            P = torch.fft.rfft(r).abs() ** 2
            cent.append(float((P * torch.arange(len(P))).sum() / P.sum()) / (len(P) - 1))
    i, j = z3.Ints("i j")
    A = z3.K(z3.IntSort(), z3.RealVal(0))
    for q, v in enumerate(cent):
        A = z3.Store(A, q, z3.RealVal(repr(v)))
    m = len(cent)
    ctx.valid("increasing", [0 <= i, i < j, j < m, A[i] >= A[j]], lambda mo: f"{mo} centres {cent}")


@plan("C17")
def c17(tier, seed):
    for lv in range(0, 11 if tier == "quick" else 15):
        yield "order1", dict(level=lv)
        if lv < 8:
            yield "order_again", dict(level=lv, cls="WaveletPacket")
    for lv in range(0, 6 if tier == "quick" else 8):
        yield "order2", dict(level=lv)
        if lv < 5:
            yield "order_again", dict(level=lv, cls="WaveletPacket2D")
    for lv in (1, 2, 3):
        for w in ("db10", "sym8"):
            yield "bands", dict(name="WaveletPacket", wavelet=w, level=lv, n=256)


__all__ = ["MATRIX", "PACKET", "F", "pywt"]
