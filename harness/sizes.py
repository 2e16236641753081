"""C21-C23: structure, automatic levels and size laws with symbolic tensor sizes."""
import itertools

import ptwt
import pywt
import torch

from symwave import specs as sp

from . import harness, plan
from .common import DT, MODES


def size_harness(f):
    f.sizes = True
    return harness(f)


def conj(conds):
    r = True
    for c in conds:
        if isinstance(c, bool):
            if not c:
                return False
        else:
            r = c if r is True else r & c
    return r


def same(shape, want):
    if len(shape) != len(want):
        return False
    return conj([a == b for a, b in zip(shape, want)])


def bank(c, L, dtype=torch.float64):
    return ptwt.WaveletTensorTuple(*[c.tensor((L,), dtype) for _ in range(4)])


ANALYSIS = {"wavedec": (1, ptwt.wavedec, ptwt.waverec), "wavedec2": (2, ptwt.wavedec2, ptwt.waverec2),
            "wavedec3": (3, ptwt.wavedec3, ptwt.waverec3), "fswavedec2": (2, ptwt.fswavedec2, ptwt.fswaverec2),
            "fswavedec3": (3, ptwt.fswavedec3, ptwt.fswaverec3)}


def entries(co):
    """[(level from the coarsest, tensor)] of any coefficient container."""
    out = [(0, co[0])]
    for i, d in enumerate(co[1:]):
        ts = [d] if isinstance(d, torch.Tensor) else list(d.values()) if isinstance(d, dict) else list(d)
        out += [(i, t) for t in ts]
    return out


NSUB = {1: 1, 2: 3, 3: 7}


@size_harness
def law(c, name, mode, level, hi, lmax=0, L=None, free=None, other=6, batch=1, inverse=True, axes=None):
    """Sizes of analysis coefficients and of the reconstruction, for all N and even L.
    free: the axes whose length is symbolic (the others have `other` samples)."""
    nd, dec, rec = ANALYSIS[name]
    free = list(range(nd)) if free is None else free
    N = [c.size(f"N{i}", 1, hi) if i in free else other for i in range(nd)]
    L = c.size("L", 2, lmax) if L is None else L
    B = [c.size(f"B{i}", 1, 3) for i in range(batch)] if axes is None else [2] * (batch + nd)
    c.assume(L % 2 == 0)
    shape = B + N if axes is None else B
    if axes is not None:
        rank = batch + nd
        at = [a % rank for a in axes]
        shape = [N[at.index(i)] if i in at else 2 for i in range(rank)]

    def place(sizes):
        return [sizes[at.index(i)] if i in at else 2 for i in range(len(shape))] if axes is not None else B + sizes
    x = c.tensor(shape)
    w = bank(c, L)
    kw = {} if mode is None else {"mode": mode}
    ka = {} if axes is None else {"axis": axes[0]} if nd == 1 else {"axes": tuple(axes)}
    kw.update(ka)
    kind, co = c.attempt(lambda: dec(x, w, level=level, **kw))
    if kind == "error":
        # torch can only reflect less than one signal length, and wrap at most one
        n = list(N)
        if mode in (None, "reflect", "periodic"):
            ok = True
            for _ in range(level):
                for v in n:
                    p = L - 2 + v % 2
                    ok = ok & (p < v) if mode != "periodic" else ok & (p <= v)
                n = [(v + L - 1) // 2 for v in n]
            c.claim("accepted", torch.sym_not(ok) if isinstance(ok, torch.SymBool) else not ok, f"{type(co).__name__}: {co}")
        else:
            c.claim("accepted", False, f"{type(co).__name__}: {co}")
        return
    sizes = [list(N)]
    for _ in range(level):
        sizes.append([(v + L - 1) // 2 for v in sizes[-1]])
    es = entries(co)
    c.claim("count", len(co) == level + 1 and len(es) == 1 + level * NSUB[nd], len(es))
    for i, (lv, t) in enumerate(es):
        want = sizes[level if i == 0 else level - lv]
        c.claim(f"coeff{i}", same(t.shape, place(want)), f"{t.shape}")
        c.claim(f"dtype{i}", t.dtype == x.dtype)
    if inverse:
        kind, y = c.attempt(lambda: rec(co, w, **ka))
        if kind == "error":
            c.claim("inverse", False, f"{type(y).__name__}: {y}")
            return
        c.claim("rec", same(y.shape, place([v + v % 2 if level else v for v in N])), f"{y.shape}")


@size_harness
def law_swt(c, level, hi, lmax=0, L=None, batch=1, axes=None):
    """Every stationary coefficient and the inverse have the size of the signal, for all N and even L."""
    N = c.size("N", 1, hi)
    L = c.size("L", 2, lmax) if L is None else L
    B = [c.size(f"B{i}", 1, 3) for i in range(batch)]
    c.assume(L % 2 == 0)
    shape = list(B)
    at = len(B) if axes is None else axes[0] % (batch + 1)
    shape.insert(at, N)
    x = c.tensor(shape)
    w = bank(c, L)
    ka = {} if axes is None else {"axis": axes[0]}
    kind, co = c.attempt(lambda: ptwt.swt(x, w, level, **ka))
    if kind == "error":
        c.claim("accepted", False, f"{type(co).__name__}: {co}")
        return
    c.claim("count", len(co) == level + 1, len(co))
    for i, t in enumerate(co):
        c.claim(f"coeff{i}", same(t.shape, shape), f"{t.shape}")
    kind, y = c.attempt(lambda: ptwt.iswt(co, w, **ka))
    if kind == "error":
        c.claim("inverse", False, f"{type(y).__name__}: {y}")
        return
    c.claim("rec", same(y.shape, shape), f"{y.shape}")


@size_harness
def iswt_sizes(c, levels, level, hi, L, batch=1, extra=0):
    """One stationary coefficient has sizes of its own: accepted exactly when they are the common ones."""
    N, M = c.size("N", 1, hi), c.size("M", 1, hi)
    B = [c.size(f"B{i}", 1, 3) for i in range(batch)]
    P = [c.size(f"P{i}", 1, 3) for i in range(batch + extra)]
    w = bank(c, L)
    co = [c.tensor(P + [M]) if i == level else c.tensor(B + [N]) for i in range(levels + 1)]
    res, y = c.attempt(lambda: ptwt.iswt(co, w))
    good = False if extra else conj([a == b for a, b in zip(B + [N], P + [M])])
    if res == "ok":
        c.claim("refused", good, "a coefficient of another shape was accepted")
        c.claim("shape", same(y.shape, B + [N]), f"{y.shape}")
    else:
        c.claim("accepted", torch.sym_not(good) if isinstance(good, torch.SymBool) else not good, f"{type(y).__name__}: {y}")


@size_harness
def law_matrix(c, name, level, hi, wavelet="haar", free=None, other=6, batch=1, axes=None):
    """Boundary-wavelet coefficients have half the (even-padded) size of their level; levels stop
    where the filter no longer fits; the inverse has the signal's size, odd axes one more."""
    nd = NDIM[name]
    cls, inv, opts = {"MatrixWavedec": (ptwt.MatrixWavedec, ptwt.MatrixWaverec, {}),
                      "MatrixWavedec2": (ptwt.MatrixWavedec2, ptwt.MatrixWaverec2, {}),
                      "MatrixWavedec2full": (ptwt.MatrixWavedec2, ptwt.MatrixWaverec2, {"separable": False}),
                      "MatrixWavedec3": (ptwt.MatrixWavedec3, ptwt.MatrixWaverec3, {})}[name]
    w = pywt.Wavelet(wavelet)
    L = w.dec_len
    free = list(range(nd)) if free is None else free
    N = [c.size(f"N{i}", 1, hi) if i in free else other for i in range(nd)]
    B = [c.size(f"B{i}", 1, 3) for i in range(batch)]
    for n in N:
        c.assume(n >= L)
    ka = {}
    if axes is not None:
        ka = {"axis": axes[0]} if nd == 1 else {"axes": tuple(axes)}
    at = None if axes is None else [a % (batch + nd) for a in axes]

    def place(sizes):
        if at is None:
            return B + sizes
        rest = iter(B)
        return [sizes[at.index(i)] if i in at else next(rest) for i in range(batch + nd)]
    x = c.tensor(place(N))
    kind, co = c.attempt(lambda: cls(w, level, **opts, **ka)(x))
    if kind == "error":
        c.claim("accepted", False, f"{type(co).__name__}: {co}")
        return
    k = len(co) - 1
    es = entries(co)
    c.claim("count", 1 <= k <= level and len(es) == 1 + k * NSUB[nd], len(es))
    sizes = [list(N)]
    for _ in range(k):
        c.claim("long enough", conj([n >= L for n in sizes[-1]]))
        sizes.append([even(n) // 2 for n in sizes[-1]])
    if k < level:
        c.claim("stopped", torch.sym_not(conj([n >= L for n in sizes[-1]])) if c.symbolic and symbolic_any(sizes[-1], L)
                else not all(n >= L for n in sizes[-1]), k)
    for i, (lv, t) in enumerate(es):
        c.claim(f"coeff{i}", same(t.shape, place(sizes[k if i == 0 else k - lv])), f"{t.shape}")
    kind, y = c.attempt(lambda: inv(w, **opts, **ka)(co))
    if kind == "error":
        c.claim("inverse", False, f"{type(y).__name__}: {y}")
        return
    c.claim("rec", same(y.shape, place([even(n) for n in N])), f"{y.shape}")


@size_harness
def law_packet(c, name, mode, level, hi, lmax=0, L=None, free=None, other=9, batch=1):
    """Sizes of packet nodes at every depth, and of the reconstruction from the deepest ones."""
    nd = NDIM[name]
    cls, opts = {"WaveletPacket": (ptwt.WaveletPacket, {}), "WaveletPacket2D": (ptwt.WaveletPacket2D, {}),
                 "WaveletPacket2Dsep": (ptwt.WaveletPacket2D, {"separable": True})}[name]
    free = list(range(nd)) if free is None else free
    N = [c.size(f"N{i}", 1, hi) if i in free else other for i in range(nd)]
    L = c.size("L", 2, lmax) if L is None else L
    B = [c.size(f"B{i}", 1, 3) for i in range(batch)]
    c.assume(L % 2 == 0)
    x = c.tensor(B + N)
    w = bank(c, L)
    keys = [cls.get_level(d, "natural") for d in range(1, level + 1)]

    def expand():
        wp = cls(x, w, mode=mode, maxlevel=level, **opts)
        return wp, [[(k, wp[k]) for k in ks] for ks in keys]
    kind, out = c.attempt(expand)
    if kind == "error":
        n = list(N)
        ok = True
        for _ in range(level):
            for v in n:
                p = L - 2 + v % 2
                ok = ok & (p < v) if mode != "periodic" else ok & (p <= v)
            n = [(v + L - 1) // 2 for v in n]
        if mode not in ("reflect", "periodic"):
            c.claim("accepted", False, f"{type(out).__name__}: {out}")
        else:
            c.claim("accepted", torch.sym_not(ok) if isinstance(ok, torch.SymBool) else not ok, f"{type(out).__name__}: {out}")
        return
    wp, nodes = out
    c.claim("maxlevel", wp.maxlevel == level, wp.maxlevel)
    n = list(N)
    for d, ks in enumerate(nodes):
        n = [(v + L - 1) // 2 for v in n]
        for k, t in ks:
            c.claim(f"node:{k}", same(t.shape, B + n), f"{t.shape}")
    kind, y = c.attempt(lambda: wp.reconstruct()[""])
    if kind == "error":
        c.claim("inverse", False, f"{type(y).__name__}: {y}")
        return
    c.claim("rec", same(y.shape, B + [even(v) if level else v for v in N]), f"{y.shape}")


# ------------------------------------------------------------------------------------
# automatic levels
# ------------------------------------------------------------------------------------
class Custom:
    """A user-defined object with the PyWavelets wavelet interface."""

    def __init__(self, name):
        w = pywt.Wavelet(name)
        self.filter_bank = tuple(list(f) for f in w.filter_bank)
        self.dec_lo, self.dec_hi, self.rec_lo, self.rec_hi = self.filter_bank
        self.dec_len, self.rec_len, self.name = w.dec_len, w.rec_len, name

    def __len__(self):
        return self.dec_len


def make_wavelet(c, kind, name, lmax):
    if kind == "bank":
        L = c.size("L", 2, lmax)
        c.later.append(L % 2 == 0)
        return L, lambda: bank(c, L)
    w = pywt.Wavelet(name)
    return w.dec_len, lambda: {"name": name, "object": w, "custom": Custom(name),
                               "tuple": ptwt.WaveletTensorTuple.from_wavelet(w, torch.float64) if kind == "tuple" else None}[kind]


def transformer(name, w, mode, ka, level=None):
    """(apply to data -> (number of levels, chosen level or None))"""
    lv = {} if level is None else {"level": level}
    if name in ANALYSIS:
        kw = {} if mode is None else {"mode": mode}
        return lambda x: (len(ANALYSIS[name][1](x, w, **kw, **ka, **lv)) - 1, None)
    if name == "swt":
        return lambda x: (len(ptwt.swt(x, w, **ka, **lv)) - 1, None)
    if name.startswith("Matrix"):
        cls, opts = {"MatrixWavedec": (ptwt.MatrixWavedec, {}), "MatrixWavedec2": (ptwt.MatrixWavedec2, {}),
                     "MatrixWavedec2full": (ptwt.MatrixWavedec2, {"separable": False}),
                     "MatrixWavedec3": (ptwt.MatrixWavedec3, {})}[name]
        obj = cls(w, **opts, **ka)

        def run(x):
            co = obj(x)
            return len(co) - 1, obj.level
        return run
    if name.startswith("WaveletPacket"):
        cls, opts = {"WaveletPacket": (ptwt.WaveletPacket, {}), "WaveletPacket2D": (ptwt.WaveletPacket2D, {}),
                     "WaveletPacket2Dsep": (ptwt.WaveletPacket2D, {"separable": True})}[name]

        def run(x):
            wp = cls(x, w, mode=mode or "reflect", **opts, **ka)
            again = cls(None, w, mode=mode or "reflect", **opts, **ka)
            again.transform(x)
            if again.maxlevel != wp.maxlevel:
                return None, wp.maxlevel
            try:
                wp["a" * (wp.maxlevel + 1)]
            except KeyError:
                wp["d" * wp.maxlevel]
                return wp.maxlevel, wp.maxlevel
            return None, wp.maxlevel
        return run
    raise KeyError(name)


NDIM = {"swt": 1, "MatrixWavedec": 1, "MatrixWavedec2": 2, "MatrixWavedec2full": 2, "MatrixWavedec3": 3,
        "WaveletPacket": 1, "WaveletPacket2D": 2, "WaveletPacket2Dsep": 2}


@size_harness
def auto(c, name, hi, kind="name", wavelet="haar", lmax=0, mode=None, batch=1, bmax=3, axes=None, free=None, other=9):
    """Without a level, the number of levels is the documented maximum for every length."""
    nd = NDIM.get(name) or ANALYSIS[name][0]
    c.later = []
    free = list(range(nd)) if free is None else free
    N = [c.size(f"N{i}", 1, hi) if i in free else other for i in range(nd)]
    B = [c.size(f"B{i}", 1, bmax) for i in range(batch)]
    L, mk = make_wavelet(c, kind, wavelet, lmax)
    for cond in c.later:
        c.assume(cond)
    if axes is None:
        shape, ka = B + N, {}
    else:
        at = [a % (batch + nd) for a in axes]
        rest = iter(B)
        shape = [N[at.index(i)] if i in at else next(rest) for i in range(batch + nd)]
        ka = {"axis": axes[0]} if nd == 1 else {"axes": tuple(axes)}
    x = c.tensor(shape)
    res, out = c.attempt(lambda: transformer(name, mk(), mode, ka)(x))
    if res == "error":
        # a signal of L - 1 samples is odd and cannot be reflected (torch)
        bad = False
        if mode in (None, "reflect") and name not in ("swt",) and not name.startswith("Matrix"):
            bad = torch.sym_not(conj([n != L - 1 for n in N])) if c.symbolic else any(n == L - 1 for n in N)
        c.claim("accepted", bad, f"{type(out).__name__}: {out}")
        return
    k, chosen = out
    if k is None:
        c.claim("depth", False, f"deeper or different paths accepted, maxlevel {chosen}")
        return
    if name == "swt":
        c.claim("swt", (N[0] % 2 ** k == 0) & (N[0] % 2 ** (k + 1) != 0), k)
        return
    size = [even(n) for n in N] if name == "MatrixWavedec" else N

    def deepest(d):
        enough = conj([n >= (L - 1) * 2 ** d for n in size]) if d else True
        more = conj([n >= (L - 1) * 2 ** (d + 1) for n in size])
        more = torch.sym_not(more) if isinstance(more, torch.SymBool) else not more
        return enough & more if d >= 0 else False
    if name.startswith("Matrix"):
        lv = chosen if chosen > 0 else 0
        c.claim("level", deepest(lv), chosen)
        s = list(size)
        for _ in range(k):
            c.claim("long enough", conj([n >= L for n in s]))
            s = [even(n) // 2 for n in s]
        if k < lv:
            c.claim("stopped early", torch.sym_not(conj([n >= L for n in s])) if c.symbolic and symbolic_any(s, L) else not all(n >= L for n in s), k)
        c.claim("levels", k <= lv, f"{k} {lv}")
    else:
        c.claim("level", deepest(k), k)
        if chosen is not None:
            c.claim("maxlevel", chosen == k, chosen)


def even(n):
    return n + 1 if n % 2 != 0 else n


def symbolic_any(s, *more):
    return any(isinstance(v, torch.SymInt) for v in [*s, *more])


@plan("C22")
def c22(tier, seed):
    deep = tier != "quick"
    yield "auto", dict(name="swt", hi=2048 if deep else 512)
    yield "auto", dict(name="swt", hi=64, kind="bank", lmax=12, batch=2, axes=[0])
    for name in list(ANALYSIS) + ["WaveletPacket", "WaveletPacket2D", "WaveletPacket2Dsep", "MatrixWavedec", "MatrixWavedec2",
                                  "MatrixWavedec2full", "MatrixWavedec3"]:
        nd = NDIM.get(name) or ANALYSIS[name][0]
        matrix = name.startswith("Matrix")
        big = {1: 1024, 2: 64, 3: 24}[nd] if not matrix else {1: 64, 2: 16, 3: 12}[nd]
        tight = matrix and not deep          # many parity cases per level with the Haar filter
        for w in ("haar", "db2", "sym4", "bior2.2", "rbio3.1") if not matrix else ("haar", "db2", "sym4"):
            for kind in ("name", "object", "custom") + (() if matrix else ("tuple",)):
                if kind != "name" and w != "db2":
                    continue
                for mode in (None, "zero") if not matrix else (None,):
                    for free in [None] if nd == 1 else [[i] for i in range(nd)]:
                        yield "auto", dict(name=name, hi=min(big, 24) if tight and w == "haar" else big, kind=kind, wavelet=w, mode=mode, free=free, other=40 if nd == 2 and not matrix else 14 if nd > 1 else 0)
            if nd > 1:
                yield "auto", dict(name=name, hi=(10 if w == "haar" else 16) if tight else 24 if nd == 2 else 8, wavelet=w, mode=None if matrix else "zero", free=[0, 1], other=9)
        if not matrix:
            for free in [None] if nd == 1 else [[i] for i in range(nd)]:
                yield "auto", dict(name=name, hi=big, kind="bank", lmax=20, mode="zero", free=free, other=26)
        for axes in [[0], [-2]] if nd == 1 else [[0, 1], [2, 0], [-1, 0]] if nd == 2 else [[0, 1, 2], [3, 0, 1]]:
            for free in range(nd):
                yield "auto", dict(name=name, hi=24 if not matrix else 12, wavelet="db2", mode=None if matrix else "zero", axes=axes, batch=1,
                                   bmax=24 if nd < 3 else 8, free=[free], other=13)
        # data of more dimensions, or none besides the transformed ones
        for axes, batch in ([([1], 2), ([0], 3), ([-2], 4)] if nd == 1 else [([0, 2], 2), ([2, 1], 2), ([0, 2], 3), ([-4, 2], 3), ([1, 3], 4)]
                            if nd == 2 else [([0, 2, 4], 2), ([3, 1, 0], 2), ([1, 3, 5], 3)]):
            yield "auto", dict(name=name, hi=20 if not matrix else 10, wavelet="haar" if not matrix else "db2", mode=None if matrix else "zero", axes=axes,
                               batch=batch, bmax=20 if nd < 3 else 6, free=[batch % nd], other=9)
        yield "auto", dict(name=name, hi=24 if not matrix else 10, wavelet="db2", mode=None if matrix else "zero", batch=0, free=[0], other=9)


# ------------------------------------------------------------------------------------
# coefficient containers of any kind and size
# ------------------------------------------------------------------------------------
KEYS = {2: ["ad", "da", "dd"], 3: ["aad", "ada", "add", "daa", "dad", "dda", "ddd"]}
SYNTHESIS = {"waverec": (1, ptwt.waverec, "list"), "waverec2": (2, ptwt.waverec2, "tuple"),
             "waverec3": (3, ptwt.waverec3, "dict"), "fswaverec2": (2, ptwt.fswaverec2, "dict"),
             "fswaverec3": (3, ptwt.fswaverec3, "dict"),
             "MatrixWaverec": (1, lambda co, w, axis=None: ptwt.MatrixWaverec(w, axis=axis)(co), "list"),
             "MatrixWaverec2": (2, lambda co, w, axes=None: ptwt.MatrixWaverec2(w, axes=axes)(co), "tuple"),
             "MatrixWaverec2full": (2, lambda co, w, axes=None: ptwt.MatrixWaverec2(w, axes=axes, separable=False)(co), "tuple"),
             "MatrixWaverec3": (3, lambda co, w, axes=None: ptwt.MatrixWaverec3(w, axes=axes)(co), "dict")}


def overlap(name, L):
    """Filter length that decides the sizes: boundary wavelets halve them exactly."""
    return 2 if name.startswith("Matrix") else L


def detail(kind, nd, make):
    """Detail container whose j-th tensor is make(j)."""
    if kind == "list":
        return make(0)
    if kind == "tuple":
        return ptwt.constants.WaveletDetailTuple2d(*[make(j) for j in range(3)])
    return {k: make(j) for j, k in enumerate(KEYS[nd])}


def container(kind, approx, details):
    return [approx, *details] if kind == "list" else (approx, *details)


@size_harness
def trim(c, name, levels, hi, lmax, fixed=None, batch=0, L=None):
    """Sizes per level and axis are arbitrary: accepted exactly when they form a pyramid."""
    nd, rec, kind = SYNTHESIS[name]
    free = range(nd) if fixed is None else [fixed]
    L = c.size("L", 2, lmax) if L is None else L
    n = [[c.size(f"n{l}_{a}", 1, hi) if a in free else None for a in range(nd)] for l in range(levels)]
    B = [c.size(f"B{i}", 1, 3) for i in range(batch)]
    c.assume(L % 2 == 0)
    for a in free:
        c.assume(n[-1][a] * 2 >= L)
        for l in range(1, levels):
            if name.startswith("Matrix"):       # shorter signals are not decomposed further
                c.assume(n[l][a] >= L)
    for a in range(nd):                       # other axes: a consistent pyramid
        if a not in free:
            m = L - 1
            for l in range(levels):
                n[l][a] = m
                m = 2 * m - overlap(name, L) + 2
    w = bank(c, L)
    P = overlap(name, L)
    co = container(kind, c.tensor(B + n[0]), [detail(kind, nd, lambda j: c.tensor(B + n[l])) for l in range(levels)])
    res, y = c.attempt(lambda: rec(co, w))
    good = conj([(n[l + 1][a] == 2 * n[l][a] - P + 2) | (n[l + 1][a] == 2 * n[l][a] - P + 1)
                 for l in range(levels - 1) for a in free])
    if res == "ok":
        c.claim("refused", good, "sizes of different transforms were accepted")
        c.claim("shape", same(y.shape, B + [2 * n[-1][a] - P + 2 for a in range(nd)]), f"{y.shape}")
    else:
        c.claim("accepted", torch.sym_not(good) if isinstance(good, torch.SymBool) else not good,
                f"{type(y).__name__}: {y}")


@size_harness
def odd_one(c, name, levels, level, index, batch, hi, L, axes=None, extra=0):
    """One coefficient has sizes of its own; accepted exactly when they are those of its level.
    level -1: the approximation; extra: additional dimensions of that coefficient."""
    nd, rec, kind = SYNTHESIS[name]
    n0 = [c.size(f"n{a}", 1, hi) for a in range(nd if batch < 2 else 1)] + [3] * (0 if batch < 2 else nd - 1)
    B = [c.size(f"B{i}", 1, 3) for i in range(batch)] if batch < 2 else [2, 3]
    own = [c.size(f"o{a}", 1, hi) for a in range(nd)] if batch < 2 else None
    OB = [c.size(f"P{i}", 1, 3 if batch < 2 else 6) for i in range(batch + extra)]
    for a in range(nd):
        c.assume(n0[a] * 2 >= L)
        if own and level > 0 and name.startswith("Matrix"):
            c.assume(own[a] >= L)
    n = [n0]
    for _ in range(levels - 1):
        n.append([2 * v - overlap(name, L) + 2 for v in n[-1]])

    own = own or n[max(level, 0)]

    def arrange(shape):
        """transformed sizes at the requested axes"""
        if axes is None:
            return shape
        full = [None] * len(shape)
        for a, v in zip(axes, shape[len(shape) - nd:]):
            full[a] = v
        rest = iter(shape[:len(shape) - nd])
        return [next(rest) if v is None else v for v in full]

    def make(l, j):
        sh = OB + own if (l, j) == (level, index) else B + n[max(l, 0)]
        return c.tensor(arrange(sh))
    w = bank(c, L)
    co = container(kind, make(-1, 0), [detail(kind, nd, lambda j: make(l, j)) for l in range(levels)])
    kw = {} if axes is None else {"axis" if nd == 1 else "axes": axes[0] if nd == 1 else tuple(axes)}
    res, y = c.attempt(lambda: rec(co, w, **kw))
    if nd == 1 and level > 0:        # the only detail of a later level may be one sample shorter
        v = n[level][0]
        good = conj([a == b for a, b in zip(B, OB)] + [(own[0] == v) | (own[0] == v - 1)])
    else:
        good = conj([a == b for a, b in zip(B + n[max(level, 0)], OB + own)])
    if extra:
        good = False
    if res == "ok":
        c.claim("refused", good, "a coefficient of another shape was accepted")
    else:
        c.claim("accepted", torch.sym_not(good) if isinstance(good, torch.SymBool) else not good,
                f"{type(y).__name__}: {y}")


def first(t):
    return t[next(iter(t))] if isinstance(t, dict) else t[0] if isinstance(t, tuple) else t


def drop(d, k):
    return {q: v for q, v in d.items() if q != k}


def rename(d, k, new):
    return {new if q == k else q: v for q, v in d.items()}


WRONG = {
    # name: (applicable kinds, detail -> malformed detail)
    "none": ("list tuple dict", lambda d: None),
    "number": ("list tuple dict", lambda d: 1.0),
    "listed": ("tuple dict", lambda d: list(d.values()) if isinstance(d, dict) else list(d)),
    "wrapped": ("list", lambda d: [d]),
    "nested": ("list", lambda d: (d, d, d)),
    "asdict": ("list", lambda d: {"d": d}),
    "tensor": ("tuple dict", lambda d: first(d)),
    "empty": ("tuple dict", lambda d: type(d)() if isinstance(d, dict) else ()),
    "one": ("tuple dict", lambda d: dict(list(d.items())[:1]) if isinstance(d, dict) else tuple(d)[:1]),
    "fewer": ("tuple dict", lambda d: dict(list(d.items())[:-1]) if isinstance(d, dict) else tuple(d)[:-1]),
    "fewer0": ("dict", lambda d: dict(list(d.items())[1:])),
    "more": ("tuple dict", lambda d: {**d, "x": first(d)} if isinstance(d, dict) else tuple(d) + (d[0],)),
    "approx": ("dict", lambda d: {**d, "a" * len(next(iter(d))): first(d)}),
    "approx_for_detail": ("dict", lambda d: rename(d, "d" * len(next(iter(d))), "a" * len(next(iter(d))))),
    "renamed": ("dict", lambda d: rename(d, "d" * len(next(iter(d))), "x" * len(next(iter(d))))),
    "renamed0": ("dict", lambda d: rename(d, next(iter(d)), "D" + next(iter(d)))),
    "longkeys": ("dict", lambda d: {"a" + k: v for k, v in d.items()}),
    "swapkind": ("tuple dict", lambda d: dict(zip("hvd", d)) if isinstance(d, tuple) else tuple(d.values())),
    "swapkind3": ("tuple dict", lambda d: dict(zip(KEYS[2], d)) if isinstance(d, tuple) else tuple(d.values())[:3]),
    "innernone": ("tuple dict", lambda d: {**d, next(iter(d)): None} if isinstance(d, dict) else (d[0], None, d[2])),
}
DTYPES = {"float32": torch.float32, "float16": torch.float16, "int64": torch.int64, "complex128": torch.complex128,
          "bfloat16": torch.bfloat16, "int32": torch.int32, "bool": torch.bool}


@size_harness
def kinds(c, name, wrong, level, levels, batch, hi, L, axes=None, full=False):
    """A detail container of the wrong kind, number or names of entries is refused; the
    well-formed container of the same sizes is accepted."""
    nd, rec, kind = SYNTHESIS[name]
    n0 = [c.size(f"n{a}", 1, hi) if full or a == 0 else 3 for a in range(nd)]
    B = [c.size(f"B{i}", 1, 2) for i in range(batch)]
    for a in range(nd):
        c.assume(n0[a] * 2 >= L)
    n = [n0]
    for _ in range(levels - 1):
        n.append([2 * v - overlap(name, L) + 2 for v in n[-1]])
    w = bank(c, L)

    def build(dt=torch.float64, dev="cpu", where=None, dt0=torch.float64):
        return [c.tensor(B + n[0], dt if where in ("approx", "all") else dt0, dev if where in ("approx", "all") else "cpu")] + \
            [detail(kind, nd, lambda j: c.tensor(B + n[l], *((dt, dev) if where == "all" or where == (l, j) else (dt0, "cpu"))))
             for l in range(levels)]
    pack = (lambda co: list(co)) if kind == "list" else tuple
    kw = {} if axes is None else {"axis" if nd == 1 else "axes": axes[0] if nd == 1 else tuple(axes)}

    def go(co):
        return c.attempt(lambda: rec(pack(co), w, **kw))
    good = build()
    res, y = go(good)
    c.claim("wellformed", res == "ok", f"{type(y).__name__}: {y}")
    if wrong == "details":
        for k, (on, f) in WRONG.items():
            if kind in on.split():
                bad = list(good)
                bad[1 + level] = f(good[1 + level])
                res, y = go(bad)
                c.claim(k, res == "error", "accepted")
    elif wrong == "approx_kind":
        for i, a in enumerate((None, [good[0]], (good[0],), {"a": good[0]}, 1.0, detail(kind, nd, lambda j: good[0]) if kind != "list" else "a")):
            res, y = go([a] + good[1:])
            c.claim(f"approx{i}", res == "error", "accepted")
    elif wrong == "outer":
        res, y = c.attempt(lambda: rec((list if kind != "list" else tuple)(good), w, **kw))
        c.claim("outer", res == "ok", f"{type(y).__name__}: {y}")
        res, y = go(good[:1])
        c.claim("onlyapprox", res == "ok", f"{type(y).__name__}: {y}")
        if res == "ok":
            c.claim("onlyapprox:shape", same(y.shape, list(good[0].shape)), f"{y.shape}")
    elif wrong == "dtypes":
        last = NSUB[nd] - 1
        for dn, dt in DTYPES.items():
            for where in ("approx", (level, 0), (level, last)):
                res, y = go(build(dt, "cpu", where))
                c.claim(f"mixed:{dn}:{where}", res == "error" and isinstance(y, ValueError), f"{res} {type(y).__name__}")
            if dn != "float32":
                res, y = go(build(dt, "cpu", "all"))
                c.claim(f"all:{dn}", res == "error" and isinstance(y, ValueError), f"{res} {type(y).__name__}")
        w32 = bank(c, L, torch.float32)
        res, y = c.attempt(lambda: rec(pack(build(dt0=torch.float32)), w32, **kw))
        c.claim("float32", res == "ok" and y.dtype == torch.float32, f"{res} {y if res == 'error' else y.dtype}")
    elif wrong == "device":
        last = NSUB[nd] - 1
        for where in ("approx", (level, 0), (level, last)):
            res, y = go(build(torch.float64, "meta", where))
            c.claim(f"device:{where}", res == "error" and isinstance(y, ValueError), f"{res} {type(y).__name__}")
    else:
        raise KeyError(wrong)


@plan("C21")
def c21(tier, seed):
    deep = tier != "quick"
    for name, (nd, _, kind) in SYNTHESIS.items():
        short = 4 if nd == 1 and not name.startswith("Matrix") else 2
        perm = [-2] if nd == 1 else [0, -1] if nd == 2 else [-1, 0, 1]
        for batch, axes in ((0, None), (1, None), (2, None), (1, perm)):
            for wrong in ("details", "approx_kind", "outer", "dtypes", "device"):
                for levels, level in ((1, 0), (2, 1)) + (((2, 0),) if wrong == "details" else ()):
                    if not deep and (levels == 2 and (batch == 2 or axes) or nd == 3 and batch == 2):
                        continue
                    yield "kinds", dict(name=name, wrong=wrong, level=level, levels=levels, batch=batch, axes=axes,
                                        hi=64 if nd == 1 else 8, L=short, full=deep)
        for batch, axes in ((0, None), (1, None), (2, None), (2, [0] if nd == 1 else [2, 0] if nd == 2 else [3, 0, 1])):
            last = NSUB[nd] - 1
            for levels, level, index in ((1, -1, 0), (1, 0, 0), (1, 0, last), (2, 1, 0), (2, 1, last // 2), (2, -1, 0)):
                if not deep and (levels == 2 and (batch == 2 or nd == 3)):
                    continue
                yield "odd_one", dict(name=name, levels=levels, level=level, index=index, batch=batch, hi=(64 if short == 4 else 16) if nd == 1 else 3,
                                      L=short, axes=axes)
        for batch in (0, 1):
            yield "odd_one", dict(name=name, levels=1, level=0, index=0, batch=batch, hi=4, L=2, extra=1)
            yield "odd_one", dict(name=name, levels=1, level=-1, index=0, batch=batch, hi=4, L=2, extra=1)


@plan("C21")
@plan("C23")
def c23_trim(tier, seed):
    for levels in (1, 2, 3):
        yield "trim", dict(name="waverec", levels=levels, hi=2048, lmax=102, batch=1)
        yield "trim", dict(name="MatrixWaverec", levels=levels, hi=32, lmax=0, batch=1, L=2)
    for name, (nd, _, kind) in SYNTHESIS.items():
        for levels in (1, 2, 3):
            for fixed in range(nd) if nd > 1 else ():
                if tier == "quick":
                    for L in (2, 6):
                        if L > 2 and name.startswith("Matrix"):
                            continue
                        if nd == 2 or L == 2 or levels == 1:
                            hi = (64 if levels < 3 or not name.startswith("Matrix") else 16) if nd == 2 else 16
                            yield "trim", dict(name=name, levels=levels, hi=hi, lmax=0, fixed=fixed, batch=0, L=L)
                elif name.startswith("Matrix"):
                    yield "trim", dict(name=name, levels=levels, hi=32 if nd == 2 else 12, lmax=0, fixed=fixed, batch=1, L=2)
                else:
                    yield "trim", dict(name=name, levels=levels, hi=64 if nd == 2 else 16, lmax=16 if nd == 2 else 6, fixed=fixed, batch=1)


@plan("C23")
def c23(tier, seed):
    deep = tier != "quick"
    for level in (2, 1, 0):
        for mode in MODES + [None]:
            yield "law", dict(name="wavedec", mode=mode, level=level, hi=4096, lmax=102)
    for mode in MODES:
        if deep:
            yield "law", dict(name="wavedec", mode=mode, level=3, hi=4096, lmax=102)
        for axes in ([0], [-2], [1]):
            yield "law", dict(name="wavedec", mode=mode, level=1, hi=256, lmax=30, batch=2, axes=axes)
    for name, (nd, _, _) in ANALYSIS.items():
        if nd == 1:
            continue
        for mode in MODES + [None]:
            for axes in (None, list(range(nd))):
                # no level at all: the signal itself comes back
                yield "law", dict(name=name, mode=mode, level=0, hi=64, lmax=20, axes=axes)
            for free in range(nd):
                # one axis and the filter length, the other axes long enough for any mode
                yield "law", dict(name=name, mode=mode, level=1, hi=64 if nd == 2 else 16, lmax=6, free=[free], other=5)
                for L in (2, 4) if deep else (4,):
                    yield "law", dict(name=name, mode=mode, level=2, hi=64 if nd == 2 else 16, L=L, free=[free], other=8)
            if nd == 2 or deep:
                # several axes at once
                yield "law", dict(name=name, mode=mode, level=1, hi=24 if nd == 2 else 8, L=4, free=[0, 1], other=5)
                yield "law", dict(name=name, mode=mode, level=1, hi=24 if nd == 2 else 8, L=2, free=[0, 1], batch=0, other=4)
            for axes in ([[1, 0], [0, -1]] if nd == 2 else [[2, 0, 1], [-1, 1, 0]]):
                yield "law", dict(name=name, mode=mode, level=1, hi=24 if nd == 2 else 8, L=4, free=[0], axes=axes, batch=1, other=5)
                yield "law", dict(name=name, mode=mode, level=1, hi=24 if nd == 2 else 8, L=2, free=[1], axes=axes, batch=1, other=5)
            if deep and nd == 2:
                yield "law", dict(name=name, mode=mode, level=1, hi=512, lmax=102)


@plan("C23")
def c23_more(tier, seed):
    deep = tier != "quick"
    yield "law_swt", dict(level=0, hi=512, lmax=40)
    for mode in MODES:
        for name in ("WaveletPacket", "WaveletPacket2D", "WaveletPacket2Dsep"):
            yield "law_packet", dict(name=name, mode=mode, level=0, hi=64, lmax=20)
    for level in (1, 2, 3):
        yield "law_swt", dict(level=level, hi=(256, 128, 48)[level - 1] if not deep else (512, 256, 96)[level - 1], lmax=(30, 16, 6)[level - 1])
        for L in (2, 4, 10):
            yield "law_swt", dict(level=level, hi=512, L=L, batch=2, axes=[0])
        yield "law_swt", dict(level=level, hi=64, L=4, batch=0)
    for w in ("haar", "db2", "sym4"):
        for level in (1, 2, 3):
            yield "law_matrix", dict(name="MatrixWavedec", wavelet=w, level=level, hi=64)
        yield "law_matrix", dict(name="MatrixWavedec", wavelet=w, level=2, hi=24, batch=2, axes=[0])
    for name in ("MatrixWavedec2", "MatrixWavedec2full", "MatrixWavedec3"):
        nd = NDIM[name]
        for w in ("haar", "db2"):
            for free in range(nd):
                for level in (1, 2):
                    yield "law_matrix", dict(name=name, wavelet=w, level=level, hi=(16 if level == 1 else 10) if nd == 2 else 10, free=[free], other=8,
                                             batch=0 if name == "MatrixWavedec2" and level > 1 else 1)
            yield "law_matrix", dict(name=name, wavelet=w, level=1, hi=6, free=[0, 1], other=5, batch=0 if name == "MatrixWavedec2" else 1)
        yield "law_matrix", dict(name=name, level=1, hi=12, free=[0], other=5, axes=[1, 0] if nd == 2 else [2, 0, 1])
        yield "law_matrix", dict(name=name, level=1, hi=12, free=[1], other=5, axes=[-1, 0] if nd == 2 else [-1, 1, 0])
    for mode in MODES:
        for level in (1, 2):
            yield "law_packet", dict(name="WaveletPacket", mode=mode, level=level, hi=256, lmax=20)
        yield "law_packet", dict(name="WaveletPacket", mode=mode, level=3, hi=256, L=4, batch=2)
        for name in ("WaveletPacket2D", "WaveletPacket2Dsep"):
            for free in range(2):
                yield "law_packet", dict(name=name, mode=mode, level=1, hi=32, lmax=6, free=[free])
                yield "law_packet", dict(name=name, mode=mode, level=2, hi=24, L=2, free=[free])


@plan("C21")
def c21_swt(tier, seed):
    for levels, level in ((1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (3, 2)):
        for batch in (0, 1, 2):
            for L in (2, 4):
                yield "iswt_sizes", dict(levels=levels, level=level, hi=64, L=L, batch=batch)
        for batch in (0, 1):
            yield "iswt_sizes", dict(levels=levels, level=level, hi=16, L=2, batch=batch, extra=1)
