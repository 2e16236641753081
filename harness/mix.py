"""Mixed configurations: wavelet, mode, level, shape, axes, dtype, wavelet form and orthogonalisation drawn
together (deterministically from the seed), so that options are met in combinations as well as one at a time."""
import random

from symwave import specs as sp

from . import plan
from .behave import all_names, expandable
from .common import MODES, flen
from .conv import DEC
from .ops import MATRIX, ND, PACKET

SHORT = ["haar", "haar", "db2", "db2", "db3", "sym4", "coif1", "bior2.2", "rbio3.1", "bior1.3", "db6"]
ORTHO = ["haar", "haar", "db2", "db2", "db3", "sym4", "coif1"]
FORMS = ["name", "object", "tuple", "plaintuple", "duck", "ducktuple"]


def draw(rng, nd, ortho=False, maxlevel=3, packet=False):
    w = rng.choice([w for w in (ORTHO if ortho else SHORT) if flen(w) <= {1: 12, 2: 6, 3: 4}[nd]])
    L = flen(w)
    extra = rng.choice((0, 0, 1, 1, 2))
    rank = nd + extra
    ax = rng.sample(range(rank), nd)
    if rng.random() < .35:
        ax = list(range(rank - nd, rank))
    hi = {1: 30, 2: 11 if L < 9 else 6, 3: 6 if L < 5 else 4}[nd]
    shape = [rng.choice((1, 2, 2, 3)) for _ in range(rank)]
    for a in ax:
        shape[a] = rng.randint(1, hi) if rng.random() < .8 else rng.choice((1, 2, L, L + 1, L - 1))
    ax = [a - rank if rng.random() < .5 else a for a in ax]
    lv = rng.choice((None, 1, 1, 2, 2, 3)) if nd < 3 else rng.choice((None, 1, 1, 2))
    if packet:
        lv = {1: rng.randint(1, 3), 2: rng.randint(1, 2), 3: 1}[nd]
    if lv:
        lv = min(lv, maxlevel)
    mode = rng.choice(MODES)
    if not all(sp.accepts(shape[a], L, mode, lv or 0) for a in ax):
        mode = rng.choice(("zero", "constant", "symmetric"))
        if not all(sp.accepts(shape[a], L, mode, lv or 0) for a in ax):
            mode = "zero"
    return dict(wavelet=w, level=lv, shape=shape, axes=None if ax == list(range(-nd, 0)) else ax, mode=mode)


def count(tier, quick):
    return quick if tier == "quick" else 5 * quick


def conv1(h):
    def gen(tier, seed):
        rng = random.Random(f"{h}{seed}")
        for _ in range(count(tier, 800)):
            c = draw(rng, 1, maxlevel=5)
            a = c.pop("axes")
            yield h, dict(c, axis=a[0] if a else -1, dtype=rng.choice(("float64", "float64", "float32")), form=rng.choice(FORMS))
    return gen


plan("C01")(conv1("pr1"))
plan("C05")(conv1("def1"))


def convn(fns, h, quick):
    def gen(tier, seed):
        rng = random.Random(f"{h}{fns}{seed}")
        for _ in range(count(tier, quick)):
            fn = rng.choice(fns)
            yield h, dict(draw(rng, DEC[fn][2]), fn=fn, dtype=rng.choice(("float64", "float64", "float32")), form=rng.choice(FORMS))
    return gen


plan("C02")(convn(["wavedec2"], "prn", 400))
plan("C03")(convn(["wavedec3"], "prn", 250))
plan("C04")(convn(["fswavedec2", "fswavedec3"], "prn", 300))
plan("C04")(convn(["fswavedec2", "fswavedec3"], "defn", 240))
plan("C06")(convn(["wavedec2", "wavedec3"], "defn", 300))


@plan("C07")
def c07_mix(tier, seed):
    rng = random.Random(f"c07{seed}")
    for i in range(count(tier, 250)):
        lv = rng.randint(1, 4)
        rank = rng.choice((1, 1, 2, 3))
        a = rng.randrange(rank)
        s = [rng.choice((1, 2, 3)) for _ in range(rank)]
        s[a] = 2 ** lv * rng.randint(1, 3 if lv > 2 else 6)
        yield ("swt_def", "swt_pr")[i % 2], dict(wavelet=rng.choice(SHORT), level=lv, shape=s, axis=a - rank if rng.random() < .5 else a,
                                                  dtype=rng.choice(("float64", "float64", "float32")), form=rng.choice(FORMS))


def matn(nds, quick):
    def gen(tier, seed):
        rng = random.Random(f"mat{nds}{seed}")
        for _ in range(count(tier, quick)):
            nd = rng.choice(nds)
            c = draw(rng, nd, ortho=True)
            if c["level"] is None or min(c["shape"][a] for a in (c["axes"] or range(-nd, 0))) < flen(c["wavelet"]):
                continue
            c["orth"] = rng.choice(("qr", "qr", "gramschmidt"))
            if nd > 1:
                del c["mode"]
            if nd == 2:
                c["separable"] = rng.choice((True, False))
            yield "mat", dict(c, nd=nd, dtype=rng.choice(("float64", "float64", "float32")), form=rng.choice(("name", "object", "tuple", "duck", "ducktuple")))
    return gen


plan("C08")(matn([1], 700))
plan("C09")(matn([2, 2, 3], 400))


def named(h, quick, extra=None, keep=lambda name: True, packet=None):
    """Harnesses over the names of ops.ND."""
    def gen(tier, seed):
        rng = random.Random(f"{h}{seed}")
        names = [n for n in all_names() if keep(n)]
        for i in range(count(tier, quick)):
            name = names[i % len(names)]
            b = name in MATRIX or name.startswith("Boundary")
            c = draw(rng, ND[name], ortho=b, maxlevel=2, packet=name in PACKET)
            if not expandable(name, c["wavelet"], c["level"], c["shape"], c["axes"]):
                continue
            ax = c["axes"] or range(-ND[name], 0)
            if name in MATRIX and (c["level"] is None or min(c["shape"][a] for a in ax) < flen(c["wavelet"])):
                continue
            if name == "swt":
                c["level"] = c["level"] or 1
                for a in ax:
                    c["shape"][a] = 4 * (1 + c["shape"][a] % 4)
            if b:
                c["orth"] = rng.choice(("qr", "qr", "gramschmidt"))
            if extra:
                c = extra(rng, name, c)
            if c:
                yield h, dict(c, name=name)
    return gen


def with_axes(rng, name, c):
    return c if c["axes"] is not None else None


def with_batch(rng, name, c):
    return c if len(c["shape"]) > ND[name] else None


def with_form(rng, name, c):
    b = name in MATRIX or name.startswith("Boundary")
    c["dtype"] = rng.choice(("float64", "float32"))
    c["form"] = rng.choice(("name", "object", "tuple", "duck", "ducktuple") if b else FORMS)
    return c


def with_layout(rng, name, c):
    c["layout"] = rng.choice(("transposed", "reversed", "stepped", "offset", "tail"))
    return c


def with_direction(rng, name, c):
    c["direction"] = rng.choice(("fwd", "inv"))
    n = 1
    for s in c["shape"]:
        n *= s
    return c if n <= 60 else None


def no_orth(rng, name, c):
    return {k: v for k, v in c.items() if k != "orth"}


PK = {"keep": lambda name: name in PACKET}
NOT_PK = {"keep": lambda name: name not in PACKET}
plan("C12")(named("axes_eq", 320, with_axes))
plan("C12")(named("batch_eq", 250, with_batch))
plan("C13")(named("pure", 200, lambda r, n, c: dict(c, form=r.choice(("name", "tuple"))), **NOT_PK))
plan("C14")(named("precise", 400, with_form))
plan("C15")(named("nodes", 300, lambda r, n, c: dict(c, order=r.choice(("natural", "leaves")), init=r.random() < .3), **PK))
plan("C16")(named("rec_full", 300, None, **PK))
plan("C16")(named("rec_leaves", 250, None, **PK))
plan("C24")(named("linear", 300))
plan("C24")(named("adjoint", 250, with_direction, **NOT_PK))
plan("C28")(named("layout", 500, with_layout))
