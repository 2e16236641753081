"""Larger bounds: long signals, big images and volumes, many levels, large batches.

The harnesses are those of the other modules; a data-dependent decision (a threshold on a length, a
level, a batch size) has to show up here."""
from symwave import specs as sp

from . import plan
from .behave import all_names
from .common import MODES, flen
from .ops import MATRIX, ND, PACKET

LENGTHS = (129, 200, 255, 256, 257, 300, 400, 511, 512, 600, 777, 1024, 1025)


def long1(h):
    def gen(tier, seed):
        for i, n in enumerate(LENGTHS if tier == "quick" else LENGTHS + (2048, 3001, 4096)):
            for k, (w, lv) in enumerate((("haar", 3), ("db2", 2), ("db5", 1), ("sym8", 2), ("bior3.5", 1))):
                m = MODES[(i + k) % 5]
                if sp.accepts(n, flen(w), m, lv):
                    yield h, dict(wavelet=w, mode=m, level=lv, shape=[n])
        for i, (w, n, lv) in enumerate((("haar", 256, 8), ("haar", 700, 9), ("db2", 300, 6), ("db4", 513, 5), ("haar", 512, None), ("db3", 400, None),
                                        ("db20", 300, 2), ("coif5", 250, 3), ("db38", 200, 1), ("dmey", 300, 1))):
            m = MODES[i % 5]
            if lv is None or sp.accepts(n, flen(w), m, lv):
                yield h, dict(wavelet=w, mode=m, level=lv, shape=[n])
        for m in MODES:
            yield h, dict(wavelet="haar", mode=m, level=2, shape=[130, 9])
            yield h, dict(wavelet="db2", mode=m, level=1, shape=[3, 43, 7])
        yield h, dict(wavelet="db2", mode="reflect", level=2, shape=[2, 2, 2, 2, 9])
        yield h, dict(wavelet="db2", mode="zero", level=2, shape=[260], dtype="float32")
    return gen


plan("C01")(long1("pr1"))
plan("C05")(long1("def1"))


def largen(fns, h):
    def gen(tier, seed):
        for fn in fns:
            if fn.endswith("2"):
                L = [("haar", 4, [64, 33]), ("haar", 5, [40, 37]), ("db2", 2, [33, 47]), ("db3", 3, [20, 43]), ("db2", 1, [65, 10, 11]), ("haar", 2, [3, 12, 9, 10]),
                     ("haar", None, [33, 36]), ("db8", 1, [20, 17]), ("haar", 1, [1, 300]), ("db2", 3, [257, 2]), ("db2", 4, [40, 40]), ("bior2.4", 2, [31, 22]),
                     ("haar", 1, [130, 2, 3])]
            else:
                L = [("haar", 3, [16, 9, 10]), ("db2", 2, [9, 10, 7]), ("haar", 1, [35, 3, 4, 3]), ("haar", 2, [2, 2, 6, 5, 7]), ("haar", None, [9, 12, 8]),
                     ("db2", 1, [40, 3, 2]), ("db3", 1, [6, 7, 8]), ("haar", 4, [17, 4, 5]), ("haar", 1, [1, 1, 130])]
            for i, (w, lv, s) in enumerate(L):
                for m in (MODES[i % 5], MODES[(i + 2) % 5]):
                    if lv is None or sp.accepts(min(s[-2:] if fn.endswith("2") else s[-3:]), flen(w), m, lv):
                        yield h, dict(fn=fn, wavelet=w, mode=m, level=lv, shape=s)
    return gen


plan("C02")(largen(["wavedec2"], "prn"))
plan("C03")(largen(["wavedec3"], "prn"))
plan("C04")(largen(["fswavedec2", "fswavedec3"], "prn"))
plan("C04")(largen(["fswavedec2", "fswavedec3"], "defn"))
plan("C06")(largen(["wavedec2", "wavedec3"], "defn"))


@plan("C07")
def c07_large(tier, seed):
    for w, n, lv in (("haar", 256, 3), ("haar", 256, 8), ("db2", 512, 2), ("db4", 320, 4), ("sym5", 200, 3), ("db20", 256, 2), ("coif5", 160, 4), ("haar", 1024, 1),
                     ("db2", 258, 1), ("bior4.4", 400, 4), ("db3", 192, None)):
        yield "swt_def", dict(wavelet=w, level=lv, shape=[n])
        yield "swt_pr", dict(wavelet=w, level=lv, shape=[n])
    for s, lv in (([67, 8], 2), ([3, 24, 4], 2), ([130, 4], 1)):
        yield "swt_def", dict(wavelet="db2", level=lv, shape=s)
        yield "swt_pr", dict(wavelet="db2", level=lv, shape=s)


@plan("C08")
def c08_large(tier, seed):
    for i, (w, n, lv) in enumerate((("haar", 256, 3), ("haar", 300, 2), ("haar", 257, 5), ("db2", 200, 3), ("db2", 131, 4), ("db4", 401, 4), ("db3", 128, None),
                                    ("sym6", 150, 2), ("coif2", 99, 2), ("haar", 128, 7), ("db8", 120, 2))):
        for o in ("qr", "gramschmidt") if n <= 200 else ("qr",):
            yield "mat", dict(nd=1, wavelet=w, level=lv, shape=[n], mode=MODES[i % 5], orth=o)
    for s in ([67, 9], [3, 23, 8], [130, 6]):
        yield "mat", dict(nd=1, wavelet="db2", level=1, shape=s, mode="symmetric")


@plan("C09")
def c09_large(tier, seed):
    for w, lv, s in (("haar", 3, [16, 18]), ("haar", 4, [32, 16]), ("db2", 2, [14, 19]), ("db3", 1, [13, 20]), ("haar", 1, [67, 3, 4]), ("haar", 2, [5, 7, 6, 4]),
                     ("db2", 1, [40, 4]), ("haar", 1, [64, 2]), ("db4", 1, [16, 11])):
        for sep in (True, False) if s[-1] * s[-2] <= 400 else (True,):
            yield "mat", dict(nd=2, wavelet=w, level=lv, shape=s, separable=sep)
    for w, lv, s in (("haar", 2, [8, 9, 7]), ("haar", 1, [34, 2, 3, 2]), ("db2", 1, [7, 8, 5]), ("haar", 3, [8, 8, 8]), ("haar", 1, [2, 40, 3])):
        yield "mat", dict(nd=3, wavelet=w, level=lv, shape=s)


@plan("C10")
def c10_large(tier, seed):
    for w, n in (("haar", 64), ("haar", 130), ("db2", 64), ("db2", 100), ("db4", 60), ("sym5", 66), ("db8", 64)):
        for o in ("qr", "gramschmidt"):
            if o == "qr" or n <= 70:
                yield "orth1", dict(wavelet=w, n=n, orth=o)
    for w, h, v in (("haar", 10, 12), ("db2", 8, 14), ("haar", 2, 32), ("db3", 12, 8)):
        yield "orth2", dict(wavelet=w, h=h, w=v)


@plan("C12")
def c12_large(tier, seed):
    for name in all_names():
        nd = ND[name]
        base = {1: [6], 2: [3, 4], 3: [2, 3, 2]}[nd]
        for i, bs in enumerate(([33], [65], [130], [9, 8], [3, 2, 2, 2])):
            if nd == 3 and bs == [130]:
                continue
            yield "batch_eq", dict(name=name, wavelet="haar", level=1, shape=bs + base, mode=("zero", "symmetric", "constant")[i % 3])
        n = nd + 3
        for k, ax in enumerate(({1: [0], 2: [4, 0], 3: [5, 0, 2]}[nd], {1: [-3], 2: [1, -2], 3: [-1, 1, 3]}[nd])):
            s = [2, 1, 2, 1, 2, 2][:n]
            for j, a in enumerate(ax):
                s[a % n] = 3 + j + (1 if name in ("swt",) or name in MATRIX else 0)
                if name == "swt":
                    s[a % n] = 4
            yield "axes_eq", dict(name=name, wavelet="haar", level=1, shape=s, axes=ax, mode="zero")


@plan("C15")
def c15_large(tier, seed):
    for w, lv, n, m in (("haar", 5, 64, "reflect"), ("haar", 6, 64, "zero"), ("db2", 4, 100, "symmetric"), ("db3", 4, 90, "periodic"), ("haar", 4, 77, "constant")):
        for order in ("natural", "leaves"):
            yield "nodes", dict(name="WaveletPacket", wavelet=w, level=lv, shape=[n], axes=None, mode=m, order=order)
    for w, lv, n in (("haar", 5, 64), ("db2", 4, 96), ("haar", 4, 80)):
        yield "nodes", dict(name="BoundaryPacket", wavelet=w, level=lv, shape=[n], axes=None, mode="zero", order="natural")
    yield "nodes", dict(name="WaveletPacket", wavelet="haar", level=2, shape=[67, 8], axes=None, mode="zero", order="leaves")
    for name in ("WaveletPacket2D", "SeparablePacket2D"):
        for w, lv, s in (("haar", 3, [16, 16]), ("db2", 2, [20, 17]), ("haar", 3, [9, 22]), ("haar", 1, [40, 3, 4])):
            yield "nodes", dict(name=name, wavelet=w, level=lv, shape=s, axes=None, mode="symmetric", order="natural")


@plan("C16")
def c16_large(tier, seed):
    for w, lv, n, m in (("haar", 5, 64, "reflect"), ("haar", 6, 64, "zero"), ("db2", 4, 100, "symmetric"), ("db3", 4, 90, "periodic"), ("haar", 4, 77, "constant")):
        yield "rec_full", dict(name="WaveletPacket", wavelet=w, level=lv, shape=[n], axes=None, mode=m)
        yield "rec_leaves", dict(name="WaveletPacket", wavelet=w, level=lv, shape=[n], axes=None, mode=m)
    for w, lv, n in (("haar", 5, 64), ("db2", 4, 96), ("haar", 4, 80)):
        yield "rec_full", dict(name="BoundaryPacket", wavelet=w, level=lv, shape=[n], axes=None, mode="zero")
        yield "rec_leaves", dict(name="BoundaryPacket", wavelet=w, level=lv, shape=[n], axes=None, mode="zero")
    for name in ("WaveletPacket2D", "SeparablePacket2D"):
        for w, lv, s in (("haar", 3, [16, 16]), ("db2", 2, [20, 17]), ("haar", 3, [9, 22]), ("haar", 1, [40, 3, 4])):
            yield "rec_full", dict(name=name, wavelet=w, level=lv, shape=s, axes=None, mode="symmetric")
            yield "rec_leaves", dict(name=name, wavelet=w, level=lv, shape=s, axes=None, mode="symmetric")


@plan("C16")
def c16_deep(tier, seed):
    for n, lv, m in ((75, 5, "zero"), (80, 5, "symmetric"), (77, 6, "constant"), (33, 6, "zero"), (41, 7, "zero"), (100, 6, "symmetric"), (64, 7, "zero")):
        yield "rec_full", dict(name="WaveletPacket", wavelet="haar", level=lv, shape=[n], axes=None, mode=m)
        yield "rec_leaves", dict(name="WaveletPacket", wavelet="haar", level=lv, shape=[n], axes=None, mode=m, again=False)
    for n, lv in ((75, 5), (80, 5), (96, 6), (50, 5)):
        yield "rec_full", dict(name="BoundaryPacket", wavelet="haar", level=lv, shape=[n], axes=None, mode="zero")
        yield "rec_leaves", dict(name="BoundaryPacket", wavelet="haar", level=lv, shape=[n], axes=None, mode="zero", again=False)
    for name in ("WaveletPacket2D", "SeparablePacket2D"):
        for lv, s in ((4, [9, 11]), (4, [16, 5]), (3, [13, 6]), (5, [5, 3])):
            yield "rec_full", dict(name=name, wavelet="haar", level=lv, shape=s, axes=None, mode="zero")
            if lv < 5:
                yield "rec_leaves", dict(name=name, wavelet="haar", level=lv, shape=s, axes=None, mode="zero", again=False)


@plan("C15")
def c15_deep(tier, seed):
    for n, lv, m in ((75, 5, "zero"), (77, 6, "constant"), (41, 7, "zero")):
        yield "nodes", dict(name="WaveletPacket", wavelet="haar", level=lv, shape=[n], axes=None, mode=m, order="leaves")
    for n, lv in ((75, 5), (96, 6)):
        yield "nodes", dict(name="BoundaryPacket", wavelet="haar", level=lv, shape=[n], axes=None, mode="zero", order="leaves")
    for name in ("WaveletPacket2D", "SeparablePacket2D"):
        for lv, s in ((4, [9, 11]), (3, [13, 6])):
            yield "nodes", dict(name=name, wavelet="haar", level=lv, shape=s, axes=None, mode="zero", order="leaves")


@plan("C19")
def c19_large(tier, seed):
    for kind in ("Bank", "ProductFilter", "SoftOrthogonalWavelet"):
        for n in (10, 12, 16) if tier == "quick" else (10, 12, 14, 16, 18, 20):
            yield "losses", dict(kind=kind, length=n)


@plan("C24")
def c24_cwt(tier, seed):
    for w in ("gaus2", "mexh", "morl", "cmor1.5-1.0", "cgau2", "shan1.0-1.0", "fbsp1-1.5-1.0", "db3"):
        yield "adjoint_cwt", dict(wavelet=w, scales=[2.0, 5.0, 3.5, 2.0, 4.0, 2.5], shape=[7])
        yield "adjoint_cwt", dict(wavelet=w, scales=[5.0, 2.0], shape=[2, 3, 4])
        yield "adjoint_cwt", dict(wavelet=w, scales=[float(k) / 2 + 2 for k in range(20)], shape=[3])


@plan("C18")
def c18_large(tier, seed):
    for i, w in enumerate(("gaus1", "mexh", "morl", "cmor1.5-1.0", "cgau3", "haar", "db3", "shan1.0-1.0")):
        for s, n in (([1.0, 3.0, 9.0], 100), ([2.0, 17.0], 64), ([1.5], 300), ([4.0, 2.0, 31.0, 8.0], 40)):
            if w == "haar" or w == "db3" or i % 2 or tier != "quick" or n != 300:
                yield "cwt", dict(wavelet=w, scales=[2 * v for v in s] if w == "haar" else s, shape=[n], kind="list", form="name")
        yield "cwt", dict(wavelet=w, scales=[3.0, 2.0], shape=[33, 6])
        yield "cwt", dict(wavelet=w, scales=[float(k) / 2 + 2 for k in range(40)], shape=[7])


@plan("C20")
def c20_large(tier, seed):
    for length, rows in ((3, 40), (7, 64), (16, 33), (2, 128), (9, 70)):
        for mode in ("full", "same", "valid", "sameshift"):
            for st in (None, 2):
                yield "convm", dict(length=length, rows=rows, mode=mode, stride=st)
    for fs, s in (([2, 3], [12, 9]), ([4, 4], [9, 14]), ([3, 1], [16, 5])):
        for mode in ("full", "same", "valid", "sameshift"):
            for st in (None, 2):
                yield "convm2", dict(fshape=fs, shape=s, mode=mode, stride=st, sparse=True)
    for n, off, r, c in ((40, 0, 40, 40), (33, 7, 50, 40), (33, -7, 40, 50)):
        yield "diag", dict(n=n, offset=off, rows=r, cols=c)
    yield "bmm", dict(m=20, n=17, batch=9, k=6, pattern=None)
    yield "dim_mm", dict(m=20, shape=[5, 17, 6], dim=1, pattern=[[0, 0], [3, 16], [19, 2], [7, 7], [7, 8]])


@plan("C24")
def c24_large(tier, seed):
    for name in all_names():
        nd = ND[name]
        s = {1: [64], 2: [16, 14] if name not in MATRIX else [8, 10], 3: [6, 4, 5]}[nd]
        for m in ("reflect", "zero"):
            yield "linear", dict(name=name, wavelet="haar", level=2 if name not in PACKET or nd == 1 else 1, shape=s, mode=m)
            yield "linear", dict(name=name, wavelet="haar", level=1, shape=[33] + {1: [4], 2: [2, 4], 3: [2, 2, 4]}[nd], mode=m)
            if name not in PACKET:
                for d in ("fwd", "inv"):
                    yield "adjoint", dict(name=name, wavelet="haar", level=1, shape=[20] + {1: [4], 2: [2, 2], 3: [2, 2, 2]}[nd], mode=m, direction=d)
        if nd == 1 and name not in PACKET:
            for d in ("fwd", "inv"):
                yield "adjoint", dict(name=name, wavelet="db2", level=3, shape=[64], mode="zero", direction=d)


def big(name):
    nd = ND[name]
    two = name not in PACKET or nd == 1
    out = [(2 if two else 1, {1: [64], 2: [12, 10], 3: [6, 4, 5]}[nd]), (1, [35] + {1: [4], 2: [2, 4], 3: [2, 2, 4]}[nd])]
    return out + ([(4, [128]), (1, [300])] if nd == 1 else [(1, [32, 6])] if nd == 2 else [])


@plan("C13")
def c13_large(tier, seed):
    for name in all_names():
        for lv, s in big(name):
            if name in PACKET:
                yield "pure_packet", dict(name=name, wavelet="haar", level=lv, shape=s, mode="zero")
            else:
                yield "pure", dict(name=name, wavelet="haar", level=lv, shape=s, mode="zero")


@plan("C14")
def c14_large(tier, seed):
    for name in all_names():
        for lv, s in big(name):
            for dt in ("float32", "float64"):
                yield "precise", dict(name=name, wavelet="haar" if ND[name] > 1 else "db2", level=lv if len(s) == 1 or ND[name] > 1 else 1,
                                      shape=s, mode="zero", dtype=dt, form="name")


@plan("C14")
def c14_forms(tier, seed):
    for name in all_names():
        nd = ND[name]
        b = name in MATRIX or name.startswith("Boundary")
        for w in ("haar", "db2", "db4", "sym8", "db10", "db20", "db38", "coif5", "bior3.5", "rbio5.5", "dmey")[:11 if nd == 1 and not b else 7 if nd == 1 else 3 if nd == 2 else 2]:
            L = flen(w)
            if b and L > 20:
                continue
            for form in ("duck", "ducktuple", "object", "tuple", "name"):
                s = [L + 1] if name != "swt" else [8]
                yield "precise", dict(name=name, wavelet=w, level=1, shape=(s * 3)[:nd] if nd > 1 else [2] + s, mode="zero", dtype="float64", form=form)


@plan("C09")
def c09_flat(tier, seed):
    """One axis runs out before the others."""
    for w, lv, s in (("db2", 3, [4, 16]), ("db2", 3, [17, 5]), ("haar", 4, [2, 16]), ("haar", 4, [16, 3]), ("db3", 3, [26, 6]), ("haar", 5, [1, 32]), ("haar", 3, [9, 1])):
        for sep in (True, False):
            yield "mat", dict(nd=2, wavelet=w, level=lv, shape=s, separable=sep)
    for w, lv, s in (("db2", 3, [4, 8, 8]), ("db2", 3, [8, 5, 8]), ("db2", 3, [8, 8, 4]), ("haar", 4, [2, 8, 8]), ("haar", 3, [8, 3, 8]), ("haar", 4, [8, 9, 2]), ("haar", 3, [1, 8, 4]),
                     ("haar", 4, [4, 4, 16]), ("haar", 4, [16, 4, 4]), ("db2", 4, [4, 16, 5])):
        yield "mat", dict(nd=3, wavelet=w, level=lv, shape=s)


@plan("C28")
def c28_large(tier, seed):
    for name in all_names():
        for lv, s in big(name):
            for lay in ("transposed", "stepped", "tail"):
                yield "layout", dict(name=name, wavelet="haar", level=lv, shape=s, layout=lay, axes=None, mode="zero")


@plan("C11")
def c11_large(tier, seed):
    for name in MATRIX:
        nd = ND[name]
        a, b = {1: ([64], [130]), 2: ([12, 10], [10, 12]), 3: ([4, 6, 4], [6, 4, 4])}[nd]
        for h in ([a, b], [b, a, b], [a, [40] + a], [[40] + a, a]):
            yield "hist_mat", dict(name=name, wavelet="haar", level=2 if nd < 3 else 1, history=[[s, "float64"] for s in h])
    for n, m in ((300, 64), (64, 300)):
        yield "hist_packet", dict(name="WaveletPacket", wavelet="haar", history=[[[n], "float64", 3, "nodes rec"], [[m], "float64", 3, "nodes rec"]], mode="zero", orth=None)
        yield "hist_packet", dict(name="BoundaryPacket", wavelet="haar", history=[[[n], "float64", 2, "nodes rec"], [[m], "float64", 2, "nodes rec"]], mode=None, orth="qr")
