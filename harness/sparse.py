"""C20: sparse operators and their dense definitions."""
import itertools
import random

import numpy as np
import torch
from ptwt import sparse_math as sm

from symwave import forms as F

from . import harness, plan
from .common import DT


def conv_full(X, f):
    """Full convolution along axis 0 of an object array of forms."""
    n, L = X.shape[0], len(f)
    out = np.empty((n + L - 1,) + X.shape[1:], dtype=object)
    for idx in np.ndindex(*out.shape):
        acc = F.ZERO
        for k in range(L):
            j = idx[0] - k
            if 0 <= j < n:
                acc = acc + f[k] * X[(j,) + idx[1:]]
        out[idx] = acc
    return out


def window(n, L, mode):
    """Rows of the full convolution that the mode keeps."""
    if mode == "full":
        return 0, n + L - 1
    if mode in ("same", "sameshift"):
        return (L - 1) // 2, (L - 1) // 2 + n
    return L - 1, n


def conv2_full(X, f):
    h, w = X.shape
    p, q = f.shape
    out = np.empty((h + p - 1, w + q - 1), dtype=object)
    for i, j in np.ndindex(*out.shape):
        acc = F.ZERO
        for a in range(p):
            for b in range(q):
                if 0 <= i - a < h and 0 <= j - b < w:
                    acc = acc + f[a, b] * X[i - a, j - b]
        out[i, j] = acc
    return out


def matmul(A, B):
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i, j in np.ndindex(*out.shape):
        acc = F.ZERO
        for k in range(A.shape[1]):
            if A[i, k].c and B[k, j].c:
                acc = acc + A[i, k] * B[k, j]
        out[i, j] = acc
    return out


TOL = {"float64": 1e-12, "float32": 1e-5}


@harness
def convm(ctx, length, rows, mode, stride=None, dtype="float64"):
    f = ctx.inp("f", (length,), DT[dtype])
    x = ctx.inp("x", (rows, 1), DT[dtype])
    kw = {} if mode is None else {"mode": mode}
    if stride is None:
        m = sm.construct_conv_matrix(f, rows, **kw)
    elif stride == "default":
        m = sm.construct_strided_conv_matrix(f, rows, **kw)
    else:
        m = sm.construct_strided_conv_matrix(f, rows, stride, **kw)
    ctx.check("dtype", m.dtype == DT[dtype], m.dtype)
    ctx.check("sparse", bool(m.is_sparse))
    md = mode or "valid"
    lo, hi = window(rows, length, md)
    want = conv_full(ctx.arr(x), list(ctx.arr(f)))[lo:hi]
    if stride is not None:
        s = 2 if stride == "default" else stride
        want = want[1 if md == "sameshift" else 0::s]
    ctx.check("shape", tuple(m.shape) == (want.shape[0], rows), f"{tuple(m.shape)} expected {(want.shape[0], rows)}")
    ctx.equal("conv", torch.sparse.mm(m, x), want, TOL[dtype])


@harness
def convm2(ctx, fshape, shape, mode, stride=None, sparse=True, dtype="float64"):
    f = ctx.inp("f", fshape, DT[dtype])
    x = ctx.inp("x", shape, DT[dtype])
    kw = {} if mode is None else {"mode": mode}
    if stride is None:
        m = sm.construct_conv2d_matrix(f, *shape, fully_sparse=sparse, **kw)
        md = mode or "valid"
    elif stride == "default":
        m = sm.construct_strided_conv2d_matrix(f, *shape, **kw)
        md = mode or "full"
    else:
        m = sm.construct_strided_conv2d_matrix(f, *shape, stride, **kw)
        md = mode or "full"
    (a, b), (c, d) = window(shape[0], fshape[0], md), window(shape[1], fshape[1], md)
    want = conv2_full(ctx.arr(x), ctx.arr(f))[a:b, c:d]
    if stride is not None:
        s = 2 if stride == "default" else stride
        o = 1 if md == "sameshift" else 0
        want = want[o::s, o::s]
    y = torch.sparse.mm(m, x.T.reshape(-1, 1))
    ctx.check("dtype", m.dtype == DT[dtype], m.dtype)
    ctx.equal("conv", y, want.T.reshape(-1, 1), TOL[dtype])


@harness
def bad_modes(ctx):
    f = torch.ones(3, dtype=torch.float64)
    for m in ("", "circular", "Full"):
        ctx.raises(f"1:{m}", lambda: sm.construct_conv_matrix(f, 8, mode=m), ValueError)
        ctx.raises(f"1s:{m}", lambda: sm.construct_strided_conv_matrix(f, 8, mode=m), ValueError)
        ctx.raises(f"2:{m}", lambda: sm.construct_conv2d_matrix(f[:, None], 8, 8, mode=m), ValueError)
        ctx.raises(f"2s:{m}", lambda: sm.construct_strided_conv2d_matrix(f[:, None], 8, 8, mode=m), ValueError)
    ctx.raises("batch_mm", lambda: sm.batch_mm(torch.ones(8, 8), torch.ones(1, 6, 8)), ValueError)
    s = torch.ones(2, 2).to_sparse()
    ctx.raises("cat:dense", lambda: sm.cat_sparse_identity_matrix(torch.ones(2, 2), 3), ValueError)
    ctx.raises("cat:rect", lambda: sm.cat_sparse_identity_matrix(torch.ones(2, 3).to_sparse(), 4), ValueError)
    ctx.raises("cat:short", lambda: sm.cat_sparse_identity_matrix(s, 1), ValueError)
    ctx.raises("row:size", lambda: sm.sparse_replace_row(s, 0, torch.ones(1, 3).to_sparse()), ValueError)


def sparse_inp(ctx, name, shape, pattern, dtype):
    """Sparse matrix with the given [(row, col)] entries and symbolic values; dense array of forms."""
    dense = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        dense[i] = F.ZERO
    if not pattern:
        return torch.zeros(shape, dtype=DT[dtype]).to_sparse(), dense
    v = ctx.inp(name, (len(pattern),), DT[dtype])
    a = ctx.arr(v)
    for q, p in zip(a, pattern):
        dense[tuple(p)] = dense[tuple(p)] + q
    idx = torch.tensor(pattern, dtype=torch.int64).T
    return torch.sparse_coo_tensor(idx, v, size=tuple(shape), dtype=DT[dtype]), dense


def kron_arr(A, B):
    out = np.empty((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]), dtype=object)
    for i, j in np.ndindex(*out.shape):
        a, b = A[i // B.shape[0], j // B.shape[1]], B[i % B.shape[0], j % B.shape[1]]
        out[i, j] = a * b if a.c and b.c else F.ZERO
    return out


@harness
def kron(ctx, sa, pa, sb, pb, dtype="float64"):
    a, A = sparse_inp(ctx, "a", sa, pa, dtype)
    b, B = sparse_inp(ctx, "b", sb, pb, dtype)
    k = sm.sparse_kron(a, b)
    ctx.check("dtype", k.dtype == DT[dtype], k.dtype)
    ctx.equal("kron", k.to_dense(), kron_arr(A, B), TOL[dtype])


@harness
def diag(ctx, n, offset, rows, cols, dtype="float64"):
    v = ctx.inp("v", (n,), DT[dtype])
    d = sm.sparse_diag(v, offset, rows, cols)
    V = ctx.arr(v)
    want = np.empty((rows, cols), dtype=object)
    for i, j in np.ndindex(rows, cols):
        p = i if offset >= 0 else j
        want[i, j] = V[p] if j - i == offset and 0 <= p < n else F.ZERO
    ctx.check("dtype", d.dtype == DT[dtype], d.dtype)
    ctx.equal("diag", d.to_dense(), want, TOL[dtype])


@harness
def replace(ctx, shape, pattern, row_index, rowpat, dtype="float64"):
    m, M = sparse_inp(ctx, "m", shape, pattern, dtype)
    r, R = sparse_inp(ctx, "r", (1, shape[1]), rowpat, dtype)
    y = sm.sparse_replace_row(m, row_index, r)
    want = M.copy()
    want[row_index] = R[0]
    ctx.check("dtype", y.dtype == DT[dtype], y.dtype)
    ctx.equal("replace", y.to_dense(), want, TOL[dtype])


@harness
def cat_eye(ctx, n, pattern, new, dtype="float64"):
    m, M = sparse_inp(ctx, "m", (n, n), pattern, dtype)
    y = sm.cat_sparse_identity_matrix(m, new)
    want = np.empty((new, new), dtype=object)
    for i, j in np.ndindex(new, new):
        want[i, j] = M[i, j] if i < n and j < n else F.const(1.0) if i == j else F.ZERO
    ctx.check("dtype", y.dtype == DT[dtype], y.dtype)
    ctx.equal("cat", y.to_dense(), want, TOL[dtype])


@harness
def bmm(ctx, m, n, batch, k, pattern=None, dtype="float64"):
    if pattern is None:
        a = ctx.inp("a", (m, n), DT[dtype])
        A = ctx.arr(a)
    else:
        a, A = sparse_inp(ctx, "a", (m, n), pattern, dtype)
    x = ctx.inp("x", (batch, n, k), DT[dtype])
    y = sm.batch_mm(a, x)
    X = ctx.arr(x)
    want = np.empty((batch, m, k), dtype=object)
    for b in range(batch):
        want[b] = matmul(A, X[b])
    ctx.equal("bmm", y, want, TOL[dtype])


@harness
def dim_mm(ctx, m, shape, dim, pattern, dtype="float64"):
    a, A = sparse_inp(ctx, "a", (m, shape[dim]), pattern, dtype)
    x = ctx.inp("x", shape, DT[dtype])
    y = sm._batch_dim_mm(a, x, dim)
    X = np.moveaxis(ctx.arr(x), dim, -1)
    want = np.empty(X.shape[:-1] + (m,), dtype=object)
    for idx in np.ndindex(*X.shape[:-1]):
        want[idx] = matmul(A, X[idx].reshape(-1, 1))[:, 0]
    ctx.equal("dim_mm", y, np.moveaxis(want, -1, dim), TOL[dtype])


@plan("C20")
def c20(tier, seed):
    rng = random.Random(seed)
    yield "bad_modes", {}
    top = 9 if tier == "quick" else 14
    for L in range(1, 8 if tier == "quick" else 11):
        for n in range(1, top):
            for mode in ("full", "same", "valid", "sameshift"):
                if mode == "valid" and n < L:
                    continue
                yield "convm", dict(length=L, rows=n, mode=mode)
                for stride in (1, 2, 3):
                    if mode == "sameshift" and n < 2:
                        continue
                    if stride != 2 and (n + L) % 3 and tier == "quick":
                        continue
                    yield "convm", dict(length=L, rows=n, mode=mode, stride=stride)
    for n, L in ((8, 3), (9, 4)):
        for s in (None, "default"):
            yield "convm", dict(length=L, rows=n, mode=None, stride=s)
        yield "convm", dict(length=L, rows=n, mode="same", stride=2, dtype="float32")
    hs = [(p, q) for p in range(1, 5) for q in range(1, 5)]
    ss = [(h, w) for h in range(1, 6) for w in range(1, 6)]
    grid = list(itertools.product(hs, ss, ("full", "same", "valid", "sameshift"), (None, 1, 2, 3), (True, False)))
    rng.shuffle(grid)
    n = 0
    for (p, q), (h, w), mode, stride, sparse in grid:
        if mode == "valid" and (h < p or w < q) or p * q * h * w > 300 or (stride is not None and not sparse):
            continue
        if mode == "sameshift" and stride and min(h, w) < 2:
            continue
        n += 1
        if n > (700 if tier == "quick" else 3000):
            break
        yield "convm2", dict(fshape=[p, q], shape=[h, w], mode=mode, stride=stride, sparse=sparse)
    for s in (None, "default"):
        yield "convm2", dict(fshape=[2, 3], shape=[4, 5], mode=None, stride=s)
        yield "convm2", dict(fshape=[2, 2], shape=[4, 5], mode="same", stride=s, dtype="float32")
    for (h, w) in ((8, 6), (7, 9)):
        yield "convm2", dict(fshape=[4, 4], shape=[h, w], mode="sameshift", stride=2)
        yield "convm2", dict(fshape=[3, 2], shape=[h, w], mode="full", stride=2)
    for _ in range(80 if tier == "quick" else 300):
        sa, sb = (rng.randint(1, 4), rng.randint(1, 4)), (rng.randint(1, 4), rng.randint(1, 4))
        pa, pb = ([list(i) for i in np.ndindex(*s) if rng.random() < .6] for s in (sa, sb))
        if rng.random() < .3 and pa:
            pa = pa + [pa[0]]          # duplicate entries add up
        yield "kron", dict(sa=sa, pa=pa, sb=sb, pb=pb, dtype=rng.choice(("float64", "float64", "float32")))
    for rows in range(1, 6):
        for cols in range(1, 6):
            for off in range(-cols - 1 if tier == "thorough" else -2, 4):
                for k in {1, min(rows, cols), max(rows, cols), 6}:
                    yield "diag", dict(n=k, offset=off, rows=rows, cols=cols)
    for _ in range(80 if tier == "quick" else 300):
        s = (rng.randint(1, 5), rng.randint(1, 5))
        pat = [list(i) for i in np.ndindex(*s) if rng.random() < .6]
        rp = [[0, j] for j in range(s[1]) if rng.random() < .6]
        yield "replace", dict(shape=s, pattern=pat, row_index=rng.randrange(s[0]), rowpat=rp)
        k = rng.randint(1, 5)
        pat = [list(i) for i in np.ndindex(k, k) if rng.random() < .5]
        yield "cat_eye", dict(n=k, pattern=pat, new=k + rng.randint(0, 3), dtype=rng.choice(("float64", "float32")))
        m, q, b, c = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3)
        pat = None if rng.random() < .4 else [list(i) for i in np.ndindex(m, q) if rng.random() < .7]
        yield "bmm", dict(m=m, n=q, batch=b, k=c, pattern=pat)
        nd = rng.randint(1, 4)
        shp = [rng.randint(1, 3) for _ in range(nd)]
        d = rng.randrange(nd)
        pat = [list(i) for i in np.ndindex(m, shp[d]) if rng.random() < .7]
        if hasattr(sm, "_batch_dim_mm"):          # not public
            yield "dim_mm", dict(m=m, shape=shp, dim=d if rng.random() < .5 else d - nd, pattern=pat)
