"""SymTensor: a torch.Tensor whose entries are symbolic forms.

The tensor stores a real torch tensor of *term ids* (float64, or complex128 with the
ids of the real and imaginary part).  Operations that only move data are executed by
torch itself on the id tensor, so shapes, strides, aliasing, errors and in-place
effects are torch's own.  Arithmetic is executed on the forms behind the ids.
"""
from __future__ import annotations

import itertools
import math
from fractions import Fraction

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode  # noqa: F401
from torch.overrides import TorchFunctionMode

from . import forms as F
from .forms import Form, ONE, SH

aten = torch.ops.aten


class Unsupported(Exception):
    """The engine cannot encode an operation (never a verdict about the code)."""


class NeedFactories(Exception):
    """A symbolic value is written into a concrete buffer: rerun with symbolic factories."""


class Fork(BaseException):
    """Raised to restart the run with another branch decision."""


class Engine:
    """State of one symbolic execution."""

    def __init__(self, factories=False, decisions=()):
        self.space = F.reset()
        self.terms = [F.ZERO]
        self._const_ids = {0.0: 0}
        self.factories = factories
        self.decisions = list(decisions)   # prescribed branch decisions
        self.compared = False       # some operation looked at the data
        self.taken = []                    # (smt condition, bool) along this path
        self.ops = {}
        self.detached = 0
        self.detach_events = []
        self.fresh = itertools.count()
        self.casts = 0

    # -- terms -------------------------------------------------------------------
    def new(self, form):
        if form is F.ZERO or (not form.c and not form.err):
            return 0
        self.terms.append(form)
        return len(self.terms) - 1

    def const_id(self, v):
        v = float(v)
        i = self._const_ids.get(v)
        if i is None:
            if math.isnan(v) or math.isinf(v):
                raise Unsupported("nan/inf constant")
            i = self.new(F.const(v))
            self._const_ids[v] = i
        return i

    def fresh_symbol(self, name, bound=None):
        return F.symbol(f"{name}{next(self.fresh)}", bound)

    def lift(self, t: torch.Tensor) -> torch.Tensor:
        """ids of a concrete tensor."""
        if t.is_sparse:
            t = t.to_dense()
        if t.is_complex():
            t = t.resolve_conj()
            re = self.lift(t.real.contiguous())
            im = self.lift(t.imag.contiguous())
            return torch.complex(re, im)
        flat = t.detach().to(torch.float64).flatten().tolist()
        ids = torch.tensor([self.const_id(v) for v in flat], dtype=torch.float64)
        return ids.reshape(t.shape)

    def arr(self, ids: torch.Tensor):
        """object array of forms for real ids."""
        out = np.empty(ids.numel(), dtype=object)
        terms = self.terms
        for n, i in enumerate(ids.flatten().tolist()):
            out[n] = terms[int(i)]
        return out.reshape(tuple(ids.shape))

    def ids_of(self, arr, shape=None):
        flat = [self.new(f) for f in arr.ravel().tolist()] if isinstance(arr, np.ndarray) else [self.new(f) for f in arr]
        t = torch.tensor(flat, dtype=torch.float64)
        return t.reshape(tuple(arr.shape) if shape is None else shape)


ENGINE: Engine | None = None


def engine() -> Engine:
    assert ENGINE is not None
    return ENGINE


PREC = {torch.float16: Fraction(1, 2**11), torch.bfloat16: Fraction(1, 2**8),
        torch.float32: Fraction(1, 2**24), torch.float64: Fraction(1, 2**53),
        torch.complex64: Fraction(1, 2**24), torch.complex128: Fraction(1, 2**53)}


class SymTensor(torch.Tensor):
    ids: torch.Tensor

    @staticmethod
    def __new__(cls, ids, dtype, requires_grad=False):
        r = torch.Tensor._make_wrapper_subclass(
            cls, ids.shape, strides=ids.stride(), storage_offset=ids.storage_offset(),
            dtype=dtype, device="cpu", requires_grad=requires_grad)
        r.ids = ids
        return r

    def __init__(self, *a, **k):
        pass

    def __repr__(self, *a, **k):
        return f"SymTensor{tuple(self.shape)}:{self.dtype}"

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return torch_function(func, types, args, kwargs or {})

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def forms(self):
        return engine().arr(self.ids)


def is_sym(x):
    return isinstance(x, SymTensor)


def wrap(ids, dtype):
    return SymTensor(ids, dtype)


# ------------------------------------------------------------------------------------
# argument helpers
# ------------------------------------------------------------------------------------
def tree_map(fn, x):
    if isinstance(x, (list, tuple)):
        y = [tree_map(fn, e) for e in x]
        if isinstance(x, tuple):
            return type(x)(*y) if hasattr(x, "_fields") else tuple(y)
        return y
    if isinstance(x, dict):
        return {k: tree_map(fn, v) for k, v in x.items()}
    return fn(x)


def flat(x, out):
    if isinstance(x, (list, tuple)):
        for e in x:
            flat(e, out)
    elif isinstance(x, dict):
        for e in x.values():
            flat(e, out)
    else:
        out.append(x)
    return out


def tensors_in(args, kwargs):
    return [x for x in flat([list(args), dict(kwargs)], []) if isinstance(x, torch.Tensor)]


def result_dtype(*xs):
    """dtype promotion of torch for the given operands."""
    meta = []
    for x in xs:
        if isinstance(x, torch.Tensor):
            meta.append(torch.empty((1,) * x.dim() if x.dim() else (), dtype=x.dtype, device="meta"))
        else:
            meta.append(x)
    with no_modes():
        if len(meta) == 1:
            return meta[0].dtype if isinstance(meta[0], torch.Tensor) else torch.get_default_dtype()
        d = torch.result_type(meta[0], meta[1])
        for m in meta[2:]:
            d = torch.promote_types(d, m.dtype)
        return d


class no_modes:
    def __enter__(self):
        self.a = torch._C.DisableTorchFunction()
        self.a.__enter__()

    def __exit__(self, *e):
        self.a.__exit__(*e)


def ids_like(x, cplx=False):
    """Term ids of a SymTensor, concrete tensor or number."""
    E = engine()
    if is_sym(x):
        i = x.ids
    elif isinstance(x, torch.Tensor):
        i = E.lift(x)
    elif isinstance(x, complex):
        i = torch.complex(torch.tensor(float(E.const_id(x.real)), dtype=torch.float64),
                          torch.tensor(float(E.const_id(x.imag)), dtype=torch.float64))
    else:
        i = torch.tensor(float(E.const_id(x)), dtype=torch.float64)
    if cplx and not i.is_complex():
        i = torch.complex(i, torch.zeros_like(i))
    return i


def all_const(x):
    if not is_sym(x):
        return True
    E = engine()
    ids = x.ids
    vals = torch.view_as_real(ids.resolve_conj()) if ids.is_complex() else ids
    t = E.terms
    return all(t[int(i)].is_const() for i in vals.flatten().tolist())


def concretize(x):
    """Real tensor of an all-constant SymTensor."""
    E = engine()
    t = E.terms

    def get(ids):
        return torch.tensor([t[int(i)].to_float() for i in ids.flatten().tolist()],
                            dtype=torch.float64).reshape(ids.shape)
    if x.ids.is_complex():
        v = torch.complex(get(x.ids.real), get(x.ids.imag))
    else:
        v = get(x.ids)
    return v.to(x.dtype)


# ------------------------------------------------------------------------------------
# data movement: run torch on the ids
# ------------------------------------------------------------------------------------
DATA_MOVEMENT = {
    "view", "_unsafe_view", "reshape", "_reshape_alias", "permute", "transpose", "t",
    "expand", "slice", "select", "squeeze", "unsqueeze", "cat", "stack", "split",
    "split_with_sizes", "chunk", "unbind", "index", "index_select", "gather", "flip",
    "roll", "clone", "alias", "as_strided", "unfold", "repeat", "repeat_interleave",
    "reflection_pad1d", "reflection_pad2d", "reflection_pad3d", "replication_pad1d",
    "replication_pad2d", "replication_pad3d", "narrow", "diagonal", "movedim", "rot90",
    "lift_fresh", "contiguous", "masked_select", "tril", "triu", "take", "swapaxes",
    "expand_as", "view_as", "tile", "hstack", "vstack", "unsafe_split",
    "unsafe_split_with_sizes", "split_copy", "fliplr", "flipud", "diag_embed",
    "new_zeros_dm", "_conj_physical_dm", "im2col", "diagonal_copy", "view_copy", "slice_copy",
    "select_copy", "permute_copy", "transpose_copy", "expand_copy", "squeeze_copy",
    "unsqueeze_copy", "tensor_split", "take_along_dim", "broadcast_to", "unflatten", "flatten",
}
SCATTER = {"slice_scatter", "select_scatter", "diagonal_scatter", "index_put", "index_put_",
           "masked_scatter", "scatter", "scatter_", "index_copy", "index_copy_", "masked_fill",
           "masked_fill_", "fill_", "fill", "zero_", "copy_", "as_strided_scatter", "index_fill",
           "index_fill_", "masked_scatter_", "set_"}


def dm(func, args, kwargs):
    E = engine()
    dts = [x for x in tensors_in(args, kwargs) if x.dtype.is_floating_point or x.dtype.is_complex or is_sym(x)]
    dtype = dts[0].dtype
    for d in dts[1:]:
        dtype = torch.promote_types(dtype, d.dtype)
    cplx = dtype.is_complex

    def conv(x):
        if is_sym(x):
            i = x.ids
            return torch.complex(i, torch.zeros_like(i)) if cplx and not i.is_complex() else i
        if isinstance(x, torch.Tensor) and (x.dtype.is_floating_point or x.dtype.is_complex):
            return ids_like(x, cplx)
        return x
    a = tree_map(conv, args)
    k = tree_map(conv, kwargs)
    k.pop("dtype", None)
    out = func(*a, **k)
    return tree_map(lambda o: wrap(o, dtype) if isinstance(o, torch.Tensor) and (o.dtype in (torch.float64, torch.complex128)) else o, out)


# ------------------------------------------------------------------------------------
# arithmetic
# ------------------------------------------------------------------------------------
def split_ids(ids):
    ids = ids.resolve_conj() if ids.is_complex() else ids
    return (ids.real, ids.imag) if ids.is_complex() else (ids, None)


def elementwise(fn, dtype, *ops):
    """Apply fn on broadcast forms of real operands."""
    E = engine()
    idl = [ids_like(o) for o in ops]
    b = torch.broadcast_tensors(*idl)
    like = b[0]
    # keep torch's memory format propagation for the first full-size operand
    for o in idl:
        if tuple(o.shape) == tuple(like.shape):
            like = o
            break
    out = torch.empty_like(like)
    cols = [x.flatten().tolist() for x in b]
    t = E.terms
    cache = {}
    res = []
    for key in zip(*cols):
        r = cache.get(key)
        if r is None:
            r = E.new(fn(*[t[int(i)] for i in key]))
            cache[key] = r
        res.append(float(r))
    out.copy_(torch.tensor(res, dtype=torch.float64).reshape(like.shape))
    return wrap(out, dtype)


def cplx_parts(x):
    """real and imaginary SymTensors/None of an operand."""
    if is_sym(x) or isinstance(x, torch.Tensor):
        if x.dtype.is_complex:
            ids = ids_like(x).resolve_conj()
            return wrap(ids.real, torch.float64), wrap(ids.imag, torch.float64)
        return (x if is_sym(x) else wrap(E_ids(x), torch.float64)), None
    if isinstance(x, complex):
        return x.real, x.imag
    return x, None


def E_ids(x):
    return ids_like(x)


def make_complex(re, im, dtype):
    ids = torch.complex(*torch.broadcast_tensors(ids_like(re), ids_like(im)))
    return wrap(ids, dtype)


def add2(a, b, alpha=1, dtype=None):
    if dtype.is_complex:
        ar, ai = cplx_parts(a)
        br, bi = cplx_parts(b)
        re = add2(ar, br, alpha, torch.float64)
        im = add2(0.0 if ai is None else ai, 0.0 if bi is None else bi, alpha, torch.float64)
        return make_complex(re, im, dtype)
    if alpha == 1:
        return elementwise(lambda x, y: x + y, dtype, a, b)
    k = F.const(alpha)
    return elementwise(lambda x, y: x + y * k, dtype, a, b)


def mul2(a, b, dtype):
    if dtype.is_complex:
        ar, ai = cplx_parts(a)
        br, bi = cplx_parts(b)
        f64 = torch.float64
        re = mul2(ar, br, f64)
        if ai is not None and bi is not None:
            re = add2(re, mul2(ai, bi, f64), -1, f64)
            im = add2(mul2(ar, bi, f64), mul2(ai, br, f64), 1, f64)
        elif ai is not None:
            im = mul2(ai, br, f64)
        elif bi is not None:
            im = mul2(ar, bi, f64)
        else:
            im = 0.0
        return make_complex(re, im, dtype)
    return elementwise(lambda x, y: x * y, dtype, a, b)


def require_const(x, what):
    if is_sym(x):
        if not all_const(x):
            raise Unsupported(what + " of a symbolic value")
        return concretize(x)
    return x


def div2(a, b, dtype):
    b = require_const(b, "division by")
    if isinstance(b, torch.Tensor):
        inv_ids = torch.tensor([engine().new(F.const(1 / Fraction(v))) for v in
                                b.detach().to(torch.float64).flatten().tolist()],
                               dtype=torch.float64).reshape(b.shape)
        return mul2(a, wrap(inv_ids, torch.float64), dtype)
    inv = F.const(1 / Fraction(b))
    if dtype.is_complex:
        ar, ai = cplx_parts(a)
        return make_complex(div2(ar, b, torch.float64), div2(0.0 if ai is None else ai, b, torch.float64), dtype)
    return elementwise(lambda x: x * inv, dtype, a)


def reduce_sum(x, dims, keepdim, dtype, scale=None):
    E = engine()
    if x.dtype.is_complex:
        re, im = cplx_parts(x)
        return make_complex(reduce_sum(re, dims, keepdim, torch.float64, scale),
                            reduce_sum(im, dims, keepdim, torch.float64, scale), dtype)
    ids = x.ids
    nd = ids.dim()
    if dims is None or (isinstance(dims, (list, tuple)) and len(dims) == 0):
        dims = list(range(nd))
    if isinstance(dims, int):
        dims = [dims]
    dims = [d % nd for d in dims] if nd else []
    keep = [d for d in range(nd) if d not in dims]
    p = ids.permute(keep + dims).reshape([ids.shape[d] for d in keep] + [-1])
    rows = p.reshape(-1, p.shape[-1]).tolist()
    t = E.terms
    n = p.shape[-1]
    k = ONE if scale is None else F.const_int(Fraction(1, n))[0]
    out = []
    for r in rows:
        f = F.lincomb([(k, t[int(i)]) for i in r])
        if scale is not None:
            f.err += n
        out.append(E.new(f))
    o = torch.tensor(out, dtype=torch.float64).reshape([ids.shape[d] for d in keep])
    if keepdim:
        o = o.reshape([1 if d in dims else ids.shape[d] for d in range(nd)])
    return wrap(o, dtype)


def dot_rows(weights, cols):
    """weights: list of (index, Form); cols: list of forms -> form."""
    return None


def const_fixed(ids):
    """fixed point ints (with err flags) for ids if all constant, else None."""
    t = engine().terms
    vals = [t[int(i)] for i in ids.flatten().tolist()]
    if not all(v.is_const() for v in vals):
        return None
    return vals


def matmul_ids(a, b):
    """a: [m,k] ids, b: [k,n] ids -> [m,n] ids."""
    E = engine()
    t = E.terms
    m, kk = a.shape
    n = b.shape[1]
    A = [[t[int(i)] for i in r] for r in a.tolist()]
    B = [[t[int(i)] for i in r] for r in b.t().tolist()]
    out = []
    for ra in A:
        na = [(k, f) for k, f in enumerate(ra) if f.c or f.err]
        aconst = all(f.is_const() and not f.err for _, f in na)
        for cb in B:
            if aconst:
                f = F.lincomb([(fa.const(), cb[k]) for k, fa in na if cb[k].c or cb[k].err])
            else:
                f = sum_products([(fa, cb[k]) for k, fa in na])
            out.append(E.new(f))
    return torch.tensor(out, dtype=torch.float64).reshape(m, n)


def sum_products(pairs):
    lin = []
    rest = F.ZERO
    for x, y in pairs:
        if (not x.c and not x.err) or (not y.c and not y.err):
            continue
        if x.is_const() and not x.err:
            lin.append((x.const(), y))
        elif y.is_const() and not y.err:
            lin.append((y.const(), x))
        else:
            rest = rest + x * y
    f = F.lincomb(lin)
    return f + rest if rest.c or rest.err else f


def mm(a, b, dtype):
    if dtype.is_complex:
        ar, ai = cplx_parts(a)
        br, bi = cplx_parts(b)
        f64 = torch.float64
        re = mm(ar, br, f64)
        zero = None
        if ai is not None and bi is not None:
            re = add2(re, mm(ai, bi, f64), -1, f64)
            im = add2(mm(ar, bi, f64), mm(ai, br, f64), 1, f64)
        elif ai is not None:
            im = mm(ai, br, f64)
        elif bi is not None:
            im = mm(ar, bi, f64)
        else:
            im = 0.0
        return make_complex(re, im, dtype)
    if a.shape[1] != b.shape[0]:
        raise RuntimeError(f"mat1 and mat2 shapes cannot be multiplied ({a.shape[0]}x{a.shape[1]} and {b.shape[0]}x{b.shape[1]})")
    return wrap(matmul_ids(ids_like(a), ids_like(b)), dtype)


def check_same_dtype(name, *ts):
    d = {t.dtype for t in ts if isinstance(t, torch.Tensor)}
    if len(d) > 1:
        raise RuntimeError(f"expected {name} operands to have the same dtype, got {d}")


def convolution(inp, weight, bias, stride, padding, dilation, transposed, output_padding, groups):
    E = engine()
    check_same_dtype("convolution", inp, weight)
    # shapes and argument errors from torch itself (meta kernels)
    with no_modes():
        meta = torch.ops.aten.convolution(
            torch.empty(inp.shape, device="meta"), torch.empty(weight.shape, device="meta"),
            None if bias is None else torch.empty(bias.shape, device="meta"),
            stride, padding, dilation, transposed, output_padding, groups)
    oshape = tuple(meta.shape)
    nd = inp.dim() - 2

    def ex(v):
        v = list(v)
        return v * nd if len(v) == 1 else v
    stride, padding, dilation = ex(stride), ex(padding), ex(dilation)
    t = E.terms
    X = E.arr(ids_like(inp))
    W = E.arr(ids_like(weight))
    N = X.shape[0]
    ksz = W.shape[2:]
    isz = X.shape[2:]
    osz = oshape[2:]
    wconst = all(w.is_const() and not w.err for w in W.ravel())
    out = np.empty(oshape, dtype=object)
    kpos = list(np.ndindex(*ksz))
    ipos = list(np.ndindex(*isz))
    if not transposed:
        cog = W.shape[0] // groups
        cig = W.shape[1]
        for opos in np.ndindex(*osz):
            taps = []
            for k in kpos:
                p = tuple(o * s - pd + kk * dl for o, s, pd, kk, dl in zip(opos, stride, padding, k, dilation))
                if all(0 <= q < m for q, m in zip(p, isz)):
                    taps.append((k, p))
            for n in range(N):
                for co in range(W.shape[0]):
                    g = co // cog
                    pairs = []
                    for ci in range(cig):
                        w = W[co, ci]
                        x = X[n, g * cig + ci]
                        for k, p in taps:
                            pairs.append((w[k], x[p]))
                    out[(n, co) + opos] = lc(pairs, wconst)
    else:
        cig = W.shape[0] // groups
        cog = W.shape[1]
        acc = {}
        for p in ipos:
            for k in kpos:
                o = tuple(q * s - pd + kk * dl for q, s, pd, kk, dl in zip(p, stride, padding, k, dilation))
                if all(0 <= a < m for a, m in zip(o, osz)):
                    acc.setdefault(o, []).append((k, p))
        for opos in np.ndindex(*osz):
            taps = acc.get(opos, ())
            for n in range(N):
                for co in range(oshape[1]):
                    g = co // cog
                    pairs = []
                    for ci in range(g * cig, (g + 1) * cig):
                        w = W[ci, co % cog]
                        x = X[n, ci]
                        for k, p in taps:
                            pairs.append((w[k], x[p]))
                    out[(n, co) + opos] = lc(pairs, wconst)
    if bias is not None:
        Bf = E.arr(ids_like(bias))
        for idx in np.ndindex(*oshape):
            out[idx] = out[idx] + Bf[idx[1]]
    return wrap(E.ids_of(out), inp.dtype)


def lc(pairs, wconst):
    if wconst:
        return F.lincomb([(w.const(), x) for w, x in pairs if (x.c or x.err) and w.c])
    return sum_products(pairs)


# ------------------------------------------------------------------------------------
# booleans and piecewise operations
# ------------------------------------------------------------------------------------
def smt_num(v):
    """SMT text of fixed point int v / 2**SH."""
    n = f"(/ {abs(v)}.0 {ONE}.0)" if v % ONE else f"{abs(v) // ONE}.0"
    return f"(- {n})" if v < 0 else n


def smt_form(f):
    parts = []
    for m, v in f.c.items():
        if m == 0:
            parts.append(smt_num(v))
        else:
            parts.append(f"(* {smt_num(v)} v{m})")
    if f.err:
        e = engine().fresh_symbol("rnd", f.err)
        (m,) = e.c
        parts.append(f"v{m}")
    if not parts:
        return "0.0"
    return parts[0] if len(parts) == 1 else "(+ " + " ".join(parts) + ")"


CMP = {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}


def near_zero(d):
    """Can the form be zero, as far as its interval tells?"""
    c = d.const() if d.c else 0
    return 2 * abs(c) <= d.bound()


def compare(op, a, b):
    E = engine()
    sp = E.space

    def one(x, y):
        d = x - y
        if d.is_const() and d.err == 0:
            c = d.const()
            v = {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0, "eq": c == 0, "ne": c != 0}[op]
            return 1 if v else 0
        E.compared = True
        if not near_zero(d):
            pos = d.const() > 0
            return 1 if {"lt": not pos, "le": not pos, "gt": pos, "ge": pos, "eq": False, "ne": True}[op] else 0
        s = smt_form(d)
        if op in CMP:
            txt = f"({CMP[op]} {s} 0.0)"
        elif op == "eq":
            txt = f"(= {s} 0.0)"
        else:
            txt = f"(not (= {s} 0.0))"
        sp.bools.append(txt)
        return len(sp.bools) - 1
    ia, ib = torch.broadcast_tensors(ids_like(a), ids_like(b))
    t = E.terms
    res = [one(t[int(i)], t[int(j)]) for i, j in zip(ia.flatten().tolist(), ib.flatten().tolist())]
    if all(r < 2 for r in res):
        return torch.tensor([bool(r) for r in res]).reshape(ia.shape)
    return SymTensor(torch.tensor(res, dtype=torch.float64).reshape(ia.shape), torch.bool)


def bool_ids(x):
    if is_sym(x):
        return x.ids
    return x.to(torch.float64)


def bool_op(fn, *xs):
    sp = engine().space
    b = torch.broadcast_tensors(*[bool_ids(x) for x in xs])
    res = []
    for key in zip(*[c.flatten().tolist() for c in b]):
        txt = fn(*[sp.bools[int(i)] for i in key])
        sp.bools.append(txt)
        res.append(len(sp.bools) - 1)
    return SymTensor(torch.tensor(res, dtype=torch.float64).reshape(b[0].shape), torch.bool)


def ite(c_txt, x, y, name):
    """Fresh symbol equal to If(c, x, y)."""
    bd = max(x.bound(), y.bound()) + 1
    r = engine().fresh_symbol(name, bd)
    (m,) = r.c
    engine().space.side.append(f"(= v{m} (ite {c_txt} {smt_form(x)} {smt_form(y)}))")
    return r


def where(c, a, b, dtype):
    E = engine()
    if dtype.is_complex:
        raise Unsupported("complex where")
    ci = bool_ids(c)
    ci, ia, ib = torch.broadcast_tensors(ci, ids_like(a), ids_like(b))
    t = E.terms
    sp = E.space
    out = []
    for k, i, j in zip(ci.flatten().tolist(), ia.flatten().tolist(), ib.flatten().tolist()):
        k = int(k)
        if k == 1:
            out.append(i)
        elif k == 0:
            out.append(j)
        elif i == j:
            out.append(i)
        else:
            out.append(E.new(ite(sp.bools[k], t[int(i)], t[int(j)], "ite")))
    return wrap(torch.tensor(out, dtype=torch.float64).reshape(ci.shape), dtype)


def f_abs(x):
    if x.is_const():
        return -x if x.const() < 0 else x
    engine().compared = True
    if not near_zero(x):
        return x if x.const() > 0 else -x
    return ite(f"(>= {smt_form(x)} 0.0)", x, -x, "abs")


def f_max(x, y):
    d = x - y
    if d.is_const():
        return x if d.const() >= 0 else y
    engine().compared = True
    if not near_zero(d):
        return x if d.const() > 0 else y
    return ite(f"(>= {smt_form(d)} 0.0)", x, y, "max")


def f_min(x, y):
    d = x - y
    if d.is_const():
        return y if d.const() >= 0 else x
    engine().compared = True
    if not near_zero(d):
        return y if d.const() > 0 else x
    return ite(f"(>= {smt_form(d)} 0.0)", y, x, "min")


def decide(txt):
    """Branch on a symbolic condition: follow the prescribed decision, default True."""
    E = engine()
    n = len(E.taken)
    val = E.decisions[n] if n < len(E.decisions) else True
    E.taken.append((txt, val))
    return val


def reduce_bool(x, dims, keepdim, word):
    E = engine()
    ids = x.ids
    nd = ids.dim()
    if dims is None:
        dims = list(range(nd))
    if isinstance(dims, int):
        dims = [dims]
    dims = [d % nd for d in dims]
    keep = [d for d in range(nd) if d not in dims]
    p = ids.permute(keep + dims).reshape([ids.shape[d] for d in keep] + [-1])
    out = []
    for r in p.reshape(-1, p.shape[-1]).tolist():
        E.space.bools.append(f"({word} " + " ".join(E.space.bools[int(i)] for i in r) + ")")
        out.append(len(E.space.bools) - 1)
    o = torch.tensor(out, dtype=torch.float64).reshape([ids.shape[d] for d in keep])
    return SymTensor(o, torch.bool)


def fold_axis(x, dim, keepdim, fn, dtype):
    """Fold fn along dim(s)."""
    E = engine()
    ids = x.ids
    nd = ids.dim()
    if dim is None:
        dims = list(range(nd))
    elif isinstance(dim, int):
        dims = [dim % nd]
    else:
        dims = [d % nd for d in dim]
    keep = [d for d in range(nd) if d not in dims]
    p = ids.permute(keep + dims).reshape([ids.shape[d] for d in keep] + [-1])
    out = []
    t = E.terms
    for r in p.reshape(-1, p.shape[-1]).tolist():
        f = t[int(r[0])]
        for i in r[1:]:
            f = fn(f, t[int(i)])
        out.append(E.new(f))
    o = torch.tensor(out, dtype=torch.float64).reshape([ids.shape[d] for d in keep])
    if keepdim:
        o = o.reshape([1 if d in dims else ids.shape[d] for d in range(nd)])
    return wrap(o, dtype)


def cumsum(x, dim, dtype):
    E = engine()
    if x.dtype.is_complex:
        re, im = cplx_parts(x)
        return make_complex(cumsum(re, dim, torch.float64), cumsum(im, dim, torch.float64), dtype)
    A = E.arr(x.ids)
    A = np.moveaxis(A, dim, 0)
    out = np.empty_like(A)
    s = None
    for i in range(A.shape[0]):
        s = A[i] if s is None else s + A[i]
        out[i] = s
    return wrap(E.ids_of(np.ascontiguousarray(np.moveaxis(out, 0, dim))), dtype)


# ------------------------------------------------------------------------------------
# casts
# ------------------------------------------------------------------------------------
def cast(x, dtype):
    E = engine()
    if dtype is None or dtype == x.dtype:
        return x.ids
    if x.dtype == torch.bool:
        raise Unsupported("cast of symbolic bool")
    if not (dtype.is_floating_point or dtype.is_complex):
        if all_const(x):
            raise Unsupported("integer cast of constant SymTensor")
        raise Unsupported("integer cast of a symbolic value")
    ids = x.ids
    if x.dtype.is_complex and not dtype.is_complex:
        ids = ids.resolve_conj().real
    if PREC[dtype] > PREC[x.dtype]:
        E.casts += 1
        u = PREC[dtype]
        un, ud = u.numerator, u.denominator

        def low(f):
            if f.is_const() and not f.err:
                v = torch.tensor(f.to_float(), dtype=torch.float64).to(dtype if not dtype.is_complex else torch.float32)
                return F.const(v.to(torch.float64).item())
            e = f.bound() * un // ud + 1
            return Form(f.c, f.err + e)
        parts = split_ids(ids)
        res = []
        for p in parts:
            if p is None:
                continue
            cache = {}
            o = []
            for i in p.flatten().tolist():
                if i not in cache:
                    cache[i] = E.new(low(E.terms[int(i)])) if i else 0
                o.append(cache[i])
            q = torch.empty_like(p)
            q.copy_(torch.tensor(o, dtype=torch.float64).reshape(p.shape))
            res.append(q)
        ids = res[0] if len(res) == 1 else torch.complex(res[0], res[1])
    else:
        ids = ids.clone()
    if dtype.is_complex and not ids.is_complex():
        ids = torch.complex(ids, torch.zeros_like(ids))
    return ids


def accumulate_at(ids, at, vals, dtype):
    """ids with vals added at the flat positions `at`, which may repeat."""
    flat_ids = ids.reshape(-1).clone()
    rounds = []
    for k, a in enumerate(at):
        r = next((r for r in rounds if a not in r), None)
        if r is None:
            r = {}
            rounds.append(r)
        r[a] = k
    for r in rounds:
        pos, take = torch.tensor(list(r)), torch.tensor(list(r.values()))
        cur = wrap(flat_ids[pos], dtype)
        flat_ids[pos] = ids_like(add2(cur, wrap(vals[take].clone(), dtype), 1, dtype))
    return flat_ids.reshape(ids.shape)


# ------------------------------------------------------------------------------------
# dispatch
# ------------------------------------------------------------------------------------
BIN = {"add", "sub", "mul", "div", "rsub", "maximum", "minimum", "true_divide", "__rsub__"}


def opname(func):
    return func._schema.name.split("::")[1]


def dispatch(func, args, kwargs):
    E = engine()
    name = opname(func)
    E.ops[name] = E.ops.get(name, 0) + 1
    out = _dispatch(func, name, args, kwargs)
    return out


def _inplace(func, name, args, kwargs):
    """Execute op_ as op followed by a write into the ids of the first argument."""
    self = args[0]
    base = name[:-1]
    op = getattr(aten, base)
    try:
        ov = getattr(op, func._overloadname)
    except AttributeError:
        ov = op.default
    r = _dispatch(ov, base, args, kwargs)
    if not is_sym(self):
        if is_sym(r):
            raise NeedFactories(name)
        return func(*args, **kwargs)
    if tuple(r.shape) != tuple(self.shape):
        raise RuntimeError(f"output with shape {list(self.shape)} doesn't match the broadcast shape {list(r.shape)}")
    if not torch.can_cast(r.dtype, self.dtype):
        raise RuntimeError(f"result type {r.dtype} can't be cast to the desired output type {self.dtype}")
    rid = cast(r, self.dtype) if is_sym(r) else ids_like(r)
    if self.ids.is_complex() and not rid.is_complex():
        rid = torch.complex(rid, torch.zeros_like(rid))
    self.ids.copy_(rid)
    return self


def _dispatch(func, name, args, kwargs):
    E = engine()
    if name == "detach":
        out = dm(aten.alias.default, args, kwargs)
        if DETACH_HOOK is not None:
            return DETACH_HOOK(out)
        return out
    if name in ("set_", "resize_", "resize_as_"):
        raise Unsupported(name)
    if name in DATA_MOVEMENT:
        syms_first = [a for a in tensors_in(args, kwargs)]
        if name in ("index",):
            idx = flat(args[1], [])
            if any(is_sym(i) for i in idx):
                raise Unsupported("symbolic index")
        if name == "clone":
            k = {k: v for k, v in kwargs.items() if k == "memory_format"}
            return dm(func, args, k)
        return dm(func, args, kwargs)
    if name == "constant_pad_nd":
        x, pad = args[0], args[1]
        v = args[2] if len(args) > 2 else kwargs.get("value", 0)
        c = E.const_id(v)
        ids = x.ids
        if ids.is_complex():
            re, im = split_ids(ids)
            out = torch.complex(aten.constant_pad_nd(re, pad, c), aten.constant_pad_nd(im, pad, 0))
        else:
            out = aten.constant_pad_nd(ids, pad, c)
        return wrap(out, x.dtype)
    if name == "copy_":
        dst, src = args[0], args[1]
        if not is_sym(dst):
            if all_const(src):
                dst.copy_(concretize(src))
                return dst
            raise NeedFactories("copy_")
        if is_sym(src):
            rid = cast(src, dst.dtype)
        else:
            rid = ids_like(src.to(dst.dtype))
        if dst.ids.is_complex() and not rid.is_complex():
            rid = torch.complex(rid, torch.zeros_like(rid))
        dst.ids.copy_(rid)
        return dst
    if name in ("fill_", "zero_"):
        dst = args[0]
        v = args[1] if len(args) > 1 else 0.0
        if not is_sym(dst):
            raise NeedFactories(name)
        if isinstance(v, torch.Tensor):
            rid = cast(v, dst.dtype) if is_sym(v) else ids_like(v)
            dst.ids.copy_(rid)
        else:
            dst.ids.fill_(float(E.const_id(v)))
        return dst
    if name in ("index_put_", "index_put", "_unsafe_index_put", "_index_put_impl_"):
        dst, idx, val = args[0], args[1], args[2]
        accumulate = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
        if any(is_sym(i) for i in flat(list(idx), []) if i is not None):
            raise Unsupported("symbolic index")
        if not is_sym(dst) and name.endswith("_"):
            raise NeedFactories(name)
        ids = dst.ids if name.endswith("_") else ids_like(dst).clone()
        vid = ids_like(val)
        if accumulate:
            cur = wrap(aten.index(ids, idx), dst.dtype)
            # duplicates are not merged by index; refuse them
            lin = torch.arange(ids.numel(), dtype=torch.float64).reshape(ids.shape)
            sel = aten.index(lin, idx).flatten().tolist()
            if len(set(sel)) != len(sel):
                vals = vid.expand(aten.index(lin, idx).shape).reshape(-1)
                ids.copy_(accumulate_at(ids, [int(v) for v in sel], vals, dst.dtype))
                return dst if name.endswith("_") else wrap(ids, dst.dtype)
            vid = add2(cur, wrap(vid, dst.dtype), 1, dst.dtype).ids
        aten.index_put_(ids, idx, vid, False)
        return dst if name.endswith("_") else wrap(ids, dst.dtype)
    if name in ("slice_scatter", "select_scatter", "diagonal_scatter", "masked_scatter", "as_strided_scatter",
                "index_copy", "scatter"):
        return dm(func, args, kwargs)
    if name in ("masked_fill", "masked_fill_"):
        x, m, v = args[:3]
        if is_sym(m):
            r = where(m, v, x, x.dtype)
        else:
            r = wrap(torch.where(m, ids_like(v), ids_like(x)), x.dtype)
        if name.endswith("_"):
            if not is_sym(x):
                raise NeedFactories(name)
            x.ids.copy_(r.ids)
            return x
        return r
    if name == "_to_copy" or name == "to":
        x = args[0]
        dt = kwargs.get("dtype")
        if x.dtype == torch.bool:
            if dt is None or dt == torch.bool:
                return SymTensor(x.ids.clone(), torch.bool)
            one = wrap(torch.tensor(float(E.const_id(1.0)), dtype=torch.float64), dt)
            zero = wrap(torch.tensor(0.0, dtype=torch.float64), dt)
            return where(x, one, zero, dt)
        if dt is not None and not (dt.is_floating_point or dt.is_complex):
            if all_const(x):
                return concretize(x).to(dt)
            raise Unsupported("integer cast of a symbolic value")
        ids = cast(x, dt)
        if ids is x.ids:
            mf = kwargs.get("memory_format")
            ids = ids.clone() if mf is None else ids.clone(memory_format=mf)
        return wrap(ids, dt or x.dtype)
    if name == "_local_scalar_dense":
        x = args[0]
        i = x.ids.flatten()[0]
        if x.dtype == torch.bool:
            k = int(i.item())
            if k < 2:
                return bool(k)
            return decide(E.space.bools[k])
        if x.dtype.is_complex:
            raise Unsupported("complex item")
        f = E.terms[int(i.item())]
        if f.is_const():
            return f.to_float()
        raise Unsupported("item() of a symbolic value")
    if name in ("is_nonzero",):
        x = args[0]
        b = compare("ne", x, 0.0)
        return bool(b) if not is_sym(b) else decide(E.space.bools[int(b.ids.flatten()[0].item())])
    # factories derived from a symbolic tensor
    if name in ("empty_like", "zeros_like", "ones_like", "full_like", "new_empty", "new_zeros", "new_ones",
                "new_full", "rand_like", "randn_like", "new_empty_strided", "empty_strided"):
        x = args[0]
        dt = kwargs.get("dtype") or x.dtype
        kw = {k: v for k, v in kwargs.items() if k in ("memory_format",) and v is not None}
        if not (dt.is_floating_point or dt.is_complex):
            with no_modes():
                shp = args[1] if name.startswith("new_") else x.shape
                if "zeros" in name or "empty" in name:
                    return torch.zeros(tuple(shp), dtype=dt)
                if "ones" in name:
                    return torch.ones(tuple(shp), dtype=dt)
                return torch.full(tuple(shp), kwargs.get("fill_value", args[-1]), dtype=dt)
        base = x.ids
        if dt.is_complex and not base.is_complex():
            base = torch.complex(base, torch.zeros_like(base))
        if base.is_complex() and not dt.is_complex:
            base = base.real.clone()
        if name.endswith("_like"):
            o = torch.zeros_like(base, **kw)
        elif name == "new_empty_strided":
            o = base.new_empty_strided(args[1], args[2]).zero_()
        else:
            o = base.new_zeros(tuple(args[1]))
        if "ones" in name:
            o.fill_(float(E.const_id(1.0)))
        elif "full" in name:
            v = args[-1] if not kwargs.get("fill_value") else kwargs["fill_value"]
            o.fill_(float(E.const_id(v)))
        elif "empty" in name:
            uninit(o)
        elif "rand" in name:
            raise Unsupported("random")
        return wrap(o, dt)
    if name in BIN:
        a, b = args[0], args[1]
        for x in (a, b):
            if is_sym(x) and x.dtype == torch.bool:
                raise Unsupported("arithmetic on symbolic bool")
        dt = result_dtype(a, b)
        alpha = kwargs.get("alpha", args[2] if len(args) > 2 and name in ("add", "sub", "rsub") else 1)
        if name == "add":
            return add2(a, b, alpha, dt)
        if name == "sub":
            return add2(a, b, -alpha, dt)
        if name == "rsub":
            return add2(b, a, -alpha, dt)
        if name == "mul":
            return mul2(a, b, dt)
        if name in ("div", "true_divide"):
            if kwargs.get("rounding_mode"):
                raise Unsupported("rounding division")
            if not (dt.is_floating_point or dt.is_complex):
                dt = torch.get_default_dtype()
            return div2(a, b, dt)
        if name == "maximum":
            return elementwise(f_max, dt, a, b)
        if name == "minimum":
            return elementwise(f_min, dt, a, b)
    if name == "neg" or name == "negative":
        x = args[0]
        return mul2(x, -1.0, x.dtype)
    if name == "_neg_view":
        return mul2(args[0], -1.0, args[0].dtype)
    if name in ("_conj", "conj_physical", "_conj_physical", "resolve_conj", "conj"):
        x = args[0]
        if not x.dtype.is_complex:
            return x
        re, im = split_ids(x.ids)
        return make_complex(wrap(re, torch.float64), mul2(wrap(im, torch.float64), -1.0, torch.float64), x.dtype)
    if name == "resolve_neg":
        return args[0]
    if name == "real":
        x = args[0]
        return wrap(x.ids.real, RT[x.dtype])
    if name == "imag":
        x = args[0]
        return wrap(x.ids.imag, RT[x.dtype])
    if name == "view_as_real":
        x = args[0]
        return wrap(torch.view_as_real(x.ids.resolve_conj()), RT[x.dtype])
    if name == "view_as_complex":
        x = args[0]
        return wrap(torch.view_as_complex(x.ids), {torch.float32: torch.complex64, torch.float64: torch.complex128}[x.dtype])
    if name == "complex":
        a, b = args
        return make_complex(a, b, {torch.float32: torch.complex64, torch.float64: torch.complex128}[a.dtype])
    if name in ("square",):
        return mul2(args[0], args[0], args[0].dtype)
    if name == "pow":
        a, b = args
        if is_sym(b):
            b = require_const(b, "exponent")
        if isinstance(b, torch.Tensor):
            if b.numel() != 1:
                raise Unsupported("tensor exponent")
            b = b.item()
        if not is_sym(a):
            raise Unsupported("pow base")
        if b == int(b) and b >= 0:
            return elementwise(lambda x: x ** int(b), result_dtype(a, b), a)
        raise Unsupported("pow")
    if name in ("sum", "mean"):
        x = args[0]
        if name == "sum" and func._overloadname == "default":
            dims, keep = None, False
        elif name == "mean" and func._overloadname == "default":
            dims, keep = None, False
        else:
            dims = args[1] if len(args) > 1 else kwargs.get("dim")
            keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
        dt = kwargs.get("dtype") or x.dtype
        if not is_sym(x):
            raise Unsupported("sum")
        if dt != x.dtype:
            x = wrap(cast(x, dt), dt)
        return reduce_sum(x, dims, keep, dt, scale=True if name == "mean" else None)
    if name == "cumsum":
        return cumsum(args[0], args[1], args[0].dtype)
    if name == "mm":
        check_same_dtype("mm", *args[:2])
        return mm(args[0], args[1], args[0].dtype)
    if name == "addmm":
        c, a, b = args[:3]
        check_same_dtype("addmm", a, b)
        beta, alpha = kwargs.get("beta", 1), kwargs.get("alpha", 1)
        r = mm(a, b, a.dtype)
        if alpha != 1:
            r = mul2(r, alpha, r.dtype)
        if beta != 0:
            r = add2(r, mul2(c, beta, r.dtype) if beta != 1 else c, 1, r.dtype)
        return r
    if name in ("mv",):
        a, b = args
        check_same_dtype("mv", a, b)
        r = mm(a, wrap(ids_like(b).reshape(-1, 1), b.dtype), a.dtype)
        return wrap(r.ids.reshape(-1), r.dtype)
    if name in ("dot", "vdot"):
        a, b = args
        check_same_dtype("dot", a, b)
        r = mm(wrap(ids_like(a).reshape(1, -1), a.dtype), wrap(ids_like(b).reshape(-1, 1), b.dtype), a.dtype)
        return wrap(r.ids.reshape(()), r.dtype)
    if name in ("bmm", "baddbmm"):
        if name == "baddbmm":
            c, a, b = args[:3]
        else:
            a, b = args[:2]
        check_same_dtype("bmm", a, b)
        ia, ib = ids_like(a), ids_like(b)
        if ia.shape[0] != ib.shape[0]:
            raise RuntimeError("batch sizes differ")
        parts = [mm(wrap(x, a.dtype), wrap(y, a.dtype), a.dtype).ids for x, y in zip(ia, ib)]
        r = wrap(torch.stack(parts) if parts else torch.zeros(0, ia.shape[1], ib.shape[2], dtype=torch.float64), a.dtype)
        if name == "baddbmm":
            r = add2(mul2(r, kwargs.get("alpha", 1), r.dtype), mul2(c, kwargs.get("beta", 1), r.dtype), 1, r.dtype)
        return r
    if name in ("convolution", "_convolution"):
        return convolution(*args[:9])
    if name in ("lt", "le", "gt", "ge", "eq", "ne"):
        if any(isinstance(x, torch.Tensor) and x.dtype == torch.bool for x in args[:2]):
            raise Unsupported("comparison of bools")
        return compare(name, args[0], args[1])
    if name == "equal":
        a, b = args[:2]
        if tuple(a.shape) != tuple(b.shape) or a.numel() == 0:
            return tuple(a.shape) == tuple(b.shape)
        c = compare("eq", a, b)
        return bool(c.all()) if not is_sym(c) else decide(E.space.bools[int(reduce_bool(c, None, False, "and").ids.flatten()[0].item())])
    if name in ("allclose", "isclose"):
        a, b = args[:2]
        rtol = args[2] if len(args) > 2 else kwargs.get("rtol", 1e-5)
        atol = args[3] if len(args) > 3 else kwargs.get("atol", 1e-8)
        if a.dtype.is_complex:
            raise Unsupported(name)
        dist = elementwise(f_abs, a.dtype, add2(a, b, -1, a.dtype))
        near = mul2(elementwise(f_abs, a.dtype, b), rtol, a.dtype)
        c = compare("le", dist, add2(near, torch.tensor(atol, dtype=a.dtype), 1, a.dtype))
        if name == "isclose":
            return c
        return bool(c.all()) if not is_sym(c) else decide(E.space.bools[int(reduce_bool(c, None, False, "and").ids.flatten()[0].item())])
    if name == "nan_to_num":
        return elementwise(lambda x: x, args[0].dtype, args[0])
    if name == "logical_not" or name == "bitwise_not":
        return bool_op(lambda a: f"(not {a})", args[0])
    if name in ("logical_and", "bitwise_and"):
        return bool_op(lambda a, b: f"(and {a} {b})", *args[:2])
    if name in ("logical_or", "bitwise_or"):
        return bool_op(lambda a, b: f"(or {a} {b})", *args[:2])
    if name in ("any", "all"):
        x = args[0]
        if x.dtype != torch.bool:
            x = compare("ne", x, 0.0)
            if not is_sym(x):
                return getattr(torch, name)(x, *args[1:], **kwargs)
        return reduce_bool(x, args[1] if len(args) > 1 else None, False, "or" if name == "any" else "and")
    if name in ("isnan", "isinf", "isneginf", "isposinf"):
        return torch.zeros(args[0].shape, dtype=torch.bool)
    if name in ("isfinite",):
        return torch.ones(args[0].shape, dtype=torch.bool)
    if name == "where":
        if len(args) != 3:
            raise Unsupported("where(cond)")
        c, a, b = args
        dt = result_dtype(a, b)
        return where(c, a, b, dt)
    if name == "abs":
        if args[0].dtype.is_complex:
            raise Unsupported("complex abs")
        return elementwise(f_abs, args[0].dtype, args[0])
    if name == "relu":
        return elementwise(lambda x: f_max(x, F.ZERO), args[0].dtype, args[0])
    if name in ("clamp", "clamp_min", "clamp_max"):
        x = args[0]
        lo = args[1] if name != "clamp_max" and len(args) > 1 else kwargs.get("min")
        hi = (args[1] if name == "clamp_max" else (args[2] if len(args) > 2 else None)) or kwargs.get("max")
        r = x
        if lo is not None:
            r = elementwise(f_max, x.dtype, r, lo)
        if hi is not None:
            r = elementwise(f_min, x.dtype, r, hi)
        return r
    if name in ("amax", "max") and len(args) < 3 and (name == "amax" or func._overloadname == "default"):
        return fold_axis(args[0], args[1] if len(args) > 1 else None, kwargs.get("keepdim", False), f_max, args[0].dtype)
    if name in ("amin", "min") and len(args) < 3 and (name == "amin" or func._overloadname == "default"):
        return fold_axis(args[0], args[1] if len(args) > 1 else None, kwargs.get("keepdim", False), f_min, args[0].dtype)
    if name in ("addcmul",):
        return add2(args[0], mul2(args[1], args[2], args[0].dtype), kwargs.get("value", 1), args[0].dtype)
    if name == "lerp":
        a, b, w = args
        return add2(a, mul2(add2(b, a, -1, a.dtype), w, a.dtype), 1, a.dtype)
    if name in ("index_add", "scatter_add", "index_add_", "scatter_add_"):
        dst, dim, idx, src = args[:4]
        if is_sym(idx) or kwargs.get("alpha", 1) != 1:
            raise Unsupported(name)
        if name.endswith("_") and not is_sym(dst):
            raise NeedFactories(name)
        ids = ids_like(dst)
        lin = torch.arange(ids.numel(), dtype=torch.float64).reshape(ids.shape)
        sid = ids_like(src)
        if name.startswith("index"):
            at = aten.index_select(lin, dim, idx)
        else:
            sid = sid[tuple(slice(0, n) for n in idx.shape)]
            at = aten.gather(lin, dim, idx)
        new = accumulate_at(ids.clone(), [int(v) for v in at.flatten().tolist()], sid.reshape(-1), dst.dtype)
        if name.endswith("_"):
            dst.ids.copy_(new)
            return dst
        return wrap(new, dst.dtype)
    if name == "mse_loss":
        a, b = args[:2]
        red = args[2] if len(args) > 2 else kwargs.get("reduction", 1)
        dt = result_dtype(a, b)
        d = add2(a, b, -1, dt)
        q = mul2(d, d, dt)
        return q if red == 0 or not is_sym(q) else reduce_sum(q, None, False, dt, scale=True if red == 1 else None)
    if name == "addmv":
        c, a, b = args[:3]
        r = mm(a, wrap(ids_like(b).reshape(-1, 1), b.dtype), a.dtype)
        r = mul2(wrap(r.ids.reshape(-1), r.dtype), kwargs.get("alpha", 1), r.dtype)
        return add2(mul2(c, kwargs.get("beta", 1), r.dtype), r, 1, r.dtype)
    if name.endswith("_") and not name.endswith("__") and hasattr(aten, name[:-1]):
        return _inplace(func, name, args, kwargs)
    # constants only: let torch compute
    ts = tensors_in(args, kwargs)
    if all(all_const(t) for t in ts) and not func._schema.is_mutable:
        conv = lambda x: concretize(x) if is_sym(x) else x  # noqa: E731
        return func(*tree_map(conv, args), **tree_map(conv, kwargs))
    raise Unsupported(f"{func} on symbolic values")


RT = {torch.complex64: torch.float32, torch.complex128: torch.float64,
      torch.float32: torch.float32, torch.float64: torch.float64}
DETACH_HOOK = None


def uninit(o):
    E = engine()
    v = o.view(-1) if o.is_contiguous() else None
    n = o.numel()
    ids = []
    for _ in range(n):
        f = E.fresh_symbol("uninit")
        E.space.uninit.add(next(iter(f.c)))
        ids.append(E.new(f))
    o.copy_(torch.tensor(ids, dtype=torch.float64).reshape(o.shape))


# ------------------------------------------------------------------------------------
# torch function level: composite operations whose C++ decomposition would leave the
# dispatcher, sparse products, FFT and tensor factories
# ------------------------------------------------------------------------------------
def torch_function(func, types, args, kwargs):
    h = TF.get(func)
    if h is not None:
        r = h(func, args, kwargs)
        if r is not NotImplemented:
            return r
    with torch._C.DisableTorchFunctionSubclass():
        return func(*args, **kwargs)


TF = {}


def tf(*funcs):
    def deco(h):
        for f in funcs:
            TF[f] = h
        return h
    return deco


@tf(torch.isfinite, torch.Tensor.isfinite)
def tf_isfinite(func, args, kwargs):
    x = args[0] if args else kwargs["input"]
    return torch.ones(tuple(x.shape), dtype=torch.bool) if is_sym(x) else NotImplemented


@tf(torch.nn.functional.pad, torch._C._nn.pad)
def tf_pad(func, args, kwargs):
    def parse(input, pad, mode="constant", value=None):
        return input, pad, mode, value
    x, pad, mode, value = parse(*args, **kwargs)
    if not is_sym(x):
        return NotImplemented
    E = engine()
    E.ops["pad:" + str(mode)] = E.ops.get("pad:" + str(mode), 0) + 1
    pad = [int(p) for p in pad]

    def run(ids):
        if mode == "constant":
            return torch.nn.functional.pad(ids, pad, mode, float(E.const_id(value or 0.0)))
        return torch.nn.functional.pad(ids, pad, mode)
    if x.ids.is_complex():
        re, im = split_ids(x.ids)
        return wrap(torch.complex(run(re), run(im)), x.dtype)
    return wrap(run(x.ids), x.dtype)


def coo_of(t):
    """(rows, cols, values, shape) of a sparse real matrix."""
    t = t.coalesce()
    i = t.indices()
    return i[0].tolist(), i[1].tolist(), t.values().to(torch.float64).tolist(), tuple(t.shape)


def sparse_mm(a, b):
    E = engine()
    if a.dtype != b.dtype:
        raise RuntimeError(f"expected operands of the same dtype, got {a.dtype} and {b.dtype}")
    if a.shape[1] != b.shape[0]:
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
    if getattr(a, "is_sparse", False) and not is_sym(a):
        r, c, v, shape = coo_of(a)
        B = E.arr(ids_like(b))
        rows = [[] for _ in range(shape[0])]
        for i, j, w in zip(r, c, v):
            rows[i].append((F.const_int(w)[0], j))
        out = np.empty((shape[0], B.shape[1]), dtype=object)
        for i, row in enumerate(rows):
            for n in range(B.shape[1]):
                out[i, n] = F.lincomb([(w, B[j, n]) for w, j in row if w])
        return wrap(E.ids_of(out), b.dtype)
    return mm(a, b, a.dtype)


@tf(torch.sparse.mm, torch.mm, torch.Tensor.mm, torch.matmul, torch.Tensor.matmul, torch.Tensor.__matmul__)
def tf_mm(func, args, kwargs):
    a, b = args[:2]
    if getattr(a, "is_sparse", False) and is_sym(b) and not isinstance(b, SymSparse):
        if b.dim() != 2:
            raise Unsupported("sparse matmul with non-matrix")
        return sparse_mm(a, b)
    if isinstance(a, SymSparse) or isinstance(b, SymSparse):
        return symsparse_mm(a, b)
    if is_sym(a) and getattr(b, "is_sparse", False):
        return sparse_mm(b.t(), a.t()).t()
    if func is torch.sparse.mm:
        with torch._C.DisableTorchFunctionSubclass():
            return torch.mm(a, b)
    return NotImplemented


@tf(torch.as_tensor, torch.asarray)
def tf_as_tensor(func, args, kwargs):
    data = args[0] if args else kwargs.get("data")
    if not is_sym(data):
        return NotImplemented
    dt = kwargs.get("dtype") or (args[1] if len(args) > 1 else None)
    if dt is None or dt == data.dtype:
        return data
    return data.to(dt)


@tf(torch.tensor)
def tf_tensor(func, args, kwargs):
    data = args[0] if args else kwargs.get("data")
    dt = kwargs.get("dtype")
    if is_sym(data):
        x = data.detach().clone()
        return x if dt is None else x.to(dt)
    if isinstance(data, (list, tuple)) and any(is_sym(x) for x in flat(data, [])):
        def build(d):
            if isinstance(d, (list, tuple)):
                return torch.stack([build(e) for e in d])
            if is_sym(d):
                return d.detach().reshape(())
            return torch.tensor(d, dtype=dt or torch.get_default_dtype())
        r = build(data)
        return r if dt is None else r.to(dt)
    return NotImplemented


def _fft_n(x, n, dim):
    n = x.shape[dim] if n is None else n
    return n


class SpecTensor:
    """A spectrum kept symbolically: the pointwise product of DFTs of time signals."""

    def __init__(self, factors, n, dtype):
        self.factors = factors  # list of [.., n] SymTensor or real tensors, axis last
        self.n = n
        self.dtype = dtype

    def __mul__(self, o):
        if isinstance(o, SpecTensor):
            if o.n != self.n:
                raise RuntimeError("The size of tensor a must match the size of tensor b")
            return SpecTensor(self.factors + o.factors, self.n, torch.promote_types(self.dtype, o.dtype))
        if isinstance(o, torch.Tensor):
            # a concrete spectrum: take it back to the time domain
            return SpecTensor(self.factors + [torch.fft.ifft(o, dim=-1)], self.n, torch.promote_types(self.dtype, o.dtype))
        if isinstance(o, (int, float, complex)):
            return SpecTensor([self.factors[0] * o] + self.factors[1:], self.n, self.dtype)
        raise Unsupported("spectrum product")

    __rmul__ = __mul__

    @property
    def shape(self):
        return torch.broadcast_shapes(*[f.shape for f in self.factors])

    def __getattr__(self, name):
        raise Unsupported("spectrum." + name)

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if func in (torch.fft.ifft,):
            return ifft(func, args, kwargs)
        if func in (torch.mul, torch.Tensor.mul, torch.Tensor.__mul__, torch.Tensor.__rmul__):
            a, b = args
            return a * b if isinstance(a, SpecTensor) else b * a
        raise Unsupported(f"{func} on a spectrum")


@tf(torch.fft.fft)
def fft(func, args, kwargs):
    def parse(input, n=None, dim=-1, norm=None):
        return input, n, dim, norm
    x, n, dim, norm = parse(*args, **kwargs)
    if not is_sym(x):
        return NotImplemented
    if norm not in (None, "backward"):
        raise Unsupported("fft norm")
    if dim not in (-1, x.dim() - 1):
        raise Unsupported("fft axis")
    n = x.shape[-1] if n is None else int(n)
    if n < x.shape[-1]:
        x = x[..., :n]
    elif n > x.shape[-1]:
        x = torch.nn.functional.pad(x, (0, n - x.shape[-1]))
    E = engine()
    E.ops["fft"] = E.ops.get("fft", 0) + 1
    dt = x.dtype if x.dtype.is_complex else {torch.float32: torch.complex64, torch.float64: torch.complex128}[x.dtype]
    return SpecTensor([x], n, dt)


@tf(torch.fft.ifft)
def ifft(func, args, kwargs):
    def parse(input, n=None, dim=-1, norm=None):
        return input, n, dim, norm
    x, n, dim, norm = parse(*args, **kwargs)
    if not isinstance(x, SpecTensor):
        return NotImplemented
    if norm not in (None, "backward") or n not in (None, x.n) or dim not in (-1, len(x.shape) - 1):
        raise Unsupported("ifft arguments")
    r = x.factors[0]
    for f in x.factors[1:]:
        r = circ_conv(r, f, x.n)
    return r.to(x.dtype) if isinstance(r, torch.Tensor) and r.dtype != x.dtype else r


def circ_conv(a, b, n):
    """circular convolution of length n along the last axis; one operand concrete."""
    E = engine()
    if is_sym(a) and is_sym(b):
        ca, cb = all_const(a), all_const(b)
        if ca:
            a = concretize(a)
        elif cb:
            b = concretize(b)
        else:
            raise Unsupported("product of two symbolic spectra")
    if not is_sym(a):
        a, b = b, a
    # a symbolic [..., n], b concrete [..., n] (1-d kernel or broadcast over leading axes)
    if b.dim() > 1:
        lead = b.reshape(-1, b.shape[-1])
        if lead.shape[0] != 1:
            raise Unsupported("batched kernel spectrum")
        b = lead[0]
    shape = a.shape
    ids = ids_like(a)
    if ids.is_complex():
        raise Unsupported("complex symbolic signal")
    rows = ids.reshape(-1, n).tolist()

    def kern(k):
        # entries that are zero up to FFT rounding are kept as they are
        return [(i, F.const_int(v)[0]) for i, v in enumerate(k.to(torch.float64).tolist()) if v]
    parts = [kern(b.real), kern(b.imag)] if b.is_complex() else [kern(b)]
    t = E.terms
    outs = []
    for k in parts:
        o = []
        for r in rows:
            xs = [(j, t[int(i)]) for j, i in enumerate(r) if i]
            acc = [[] for _ in range(n)]
            for j, f in xs:
                for i, w in k:
                    acc[(i + j) % n].append((w, f))
            o.append([E.new(F.lincomb(a_)) for a_ in acc])
        outs.append(torch.tensor(o, dtype=torch.float64).reshape(shape))
    cdt = torch.complex64 if a.dtype in (torch.float32, torch.complex64) and b.dtype in (torch.float32, torch.complex64) else torch.complex128
    im = outs[1] if len(outs) > 1 else torch.zeros_like(outs[0])
    return wrap(torch.complex(outs[0], im), cdt)


# ------------------------------------------------------------------------------------
# symbolic sparse COO matrices
# ------------------------------------------------------------------------------------
class SymSparse(SymTensor):
    """A sparse matrix with concrete pattern and symbolic values (dense ids + pattern)."""
    idx: torch.Tensor
    val: SymTensor
    coal: bool

    @staticmethod
    def __new__(cls, idx, val, size, coal=False):
        size = tuple(int(s) for s in size)
        ids = torch.zeros(size, dtype=torch.float64)
        r = torch.Tensor._make_wrapper_subclass(cls, size, strides=ids.stride(), dtype=val.dtype, device="cpu")
        r.idx, r.val, r.coal = idx, val, coal
        r.ids = None
        return r

    is_sparse = True
    layout = torch.sparse_coo

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return symsparse_function(func, args, kwargs or {})

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        if opname(func) == "detach":
            s = args[0]
            return SymSparse(s.idx, s.val, tuple(s.shape), s.coal)
        raise Unsupported(f"{func} on a symbolic sparse matrix")


def ss_coalesce(s):
    if s.coal:
        return s
    E = engine()
    rows = s.idx.t().tolist()
    acc = {}
    vid = s.val.ids.tolist()
    for p, v in zip(rows, vid):
        acc.setdefault(tuple(p), []).append(v)
    keys = sorted(acc)
    vals = []
    for k in keys:
        if len(acc[k]) == 1:
            vals.append(acc[k][0])
        else:
            vals.append(E.new(F.lincomb([(ONE, E.terms[int(i)]) for i in acc[k]])))
    idx = torch.tensor(keys, dtype=torch.int64).t().reshape(len(s.shape), -1)
    return SymSparse(idx, wrap(torch.tensor(vals, dtype=torch.float64), s.dtype), tuple(s.shape), True)


def ss_from_real(t):
    t = t.coalesce()
    return SymSparse(t.indices(), wrap(ids_like(t.values()), t.dtype), tuple(t.shape), True)


def ss_dense(s):
    s = ss_coalesce(s)
    ids = torch.zeros(tuple(s.shape), dtype=torch.float64)
    if s.idx.numel():
        ids[tuple(s.idx)] = s.val.ids
    return wrap(ids, s.dtype)


def symsparse_mm(a, b):
    E = engine()
    asp = isinstance(a, SymSparse) or getattr(a, "is_sparse", False)
    bsp = isinstance(b, SymSparse) or getattr(b, "is_sparse", False)
    if a.shape[1] != b.shape[0]:
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
    if a.dtype != b.dtype:
        raise RuntimeError("expected operands of the same dtype")
    A = ss_coalesce(a if isinstance(a, SymSparse) else ss_from_real(a)) if asp else None
    if asp and bsp:
        B = ss_coalesce(b if isinstance(b, SymSparse) else ss_from_real(b))
        brows = {}
        for (i, j), v in zip(B.idx.t().tolist(), B.val.ids.tolist()):
            brows.setdefault(i, []).append((j, v))
        acc = {}
        t = E.terms
        for (i, k), v in zip(A.idx.t().tolist(), A.val.ids.tolist()):
            for j, w in brows.get(k, ()):
                acc.setdefault((i, j), []).append((t[int(v)], t[int(w)]))
        keys = sorted(acc)
        vals = [E.new(sum_products(acc[k])) for k in keys]
        idx = torch.tensor(keys, dtype=torch.int64).t().reshape(2, -1)
        return SymSparse(idx, wrap(torch.tensor(vals, dtype=torch.float64), a.dtype), (a.shape[0], b.shape[1]), True)
    if asp:
        B = E.arr(ids_like(b))
        rows = [[] for _ in range(a.shape[0])]
        t = E.terms
        for (i, k), v in zip(A.idx.t().tolist(), A.val.ids.tolist()):
            rows[i].append((k, t[int(v)]))
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i, row in enumerate(rows):
            for n in range(b.shape[1]):
                out[i, n] = sum_products([(f, B[k, n]) for k, f in row])
        return wrap(E.ids_of(out), b.dtype)
    r = symsparse_mm(ss_t(b), a.t())
    return r.t()


def ss_t(s):
    return SymSparse(s.idx.flip(0), s.val, (s.shape[1], s.shape[0]), False)


def ss_add(a, b, alpha=1):
    A = a if isinstance(a, SymSparse) else ss_from_real(a)
    B = b if isinstance(b, SymSparse) else ss_from_real(b)
    if tuple(A.shape) != tuple(B.shape):
        raise RuntimeError("add: expected sizes to match")
    v = B.val if alpha == 1 else B.val * alpha
    return SymSparse(torch.cat([A.idx, B.idx], 1), torch.cat([A.val, v]), tuple(A.shape), False)


def symsparse_function(func, args, kwargs):
    name = getattr(func, "__name__", str(func))
    E = engine()
    E.ops["sparse:" + name] = E.ops.get("sparse:" + name, 0) + 1
    T = torch.Tensor
    if func in (torch.sparse.mm, torch.mm, T.mm, torch.matmul, T.matmul, T.__matmul__):
        return symsparse_mm(*args[:2])
    if name in ("__get__",):
        with torch._C.DisableTorchFunctionSubclass():
            own = getattr(func, "__self__", None)
            prop = getattr(own, "__name__", "")
            if prop == "T" or prop == "mT":
                return ss_t(args[0])
            if prop == "is_sparse":
                return True
            if prop == "layout":
                return torch.sparse_coo
            return func(*args, **kwargs)
    s = args[0] if args and isinstance(args[0], torch.Tensor) else None
    if name in ("coalesce",):
        return ss_coalesce(s)
    if name == "is_coalesced":
        return s.coal
    if name in ("indices", "_indices"):
        if name == "indices" and not s.coal:
            raise RuntimeError("Cannot get indices on an uncoalesced tensor, please call .coalesce() first")
        return s.idx
    if name in ("values", "_values"):
        if name == "values" and not s.coal:
            raise RuntimeError("Cannot get values on an uncoalesced tensor, please call .coalesce() first")
        return s.val
    if name in ("_nnz",):
        return s.idx.shape[1]
    if name in ("to_dense",):
        return ss_dense(s)
    if name in ("to_sparse", "to_sparse_coo"):
        return s
    if name in ("transpose", "t", "swapaxes"):
        return ss_t(s)
    if name in ("add", "__add__", "__radd__", "__iadd__", "add_"):
        r = ss_add(args[0], args[1], kwargs.get("alpha", 1))
        if name in ("__iadd__", "add_") and isinstance(s, SymSparse):
            s.idx, s.val, s.coal = r.idx, r.val, False
            return s
        return r
    if name in ("sub", "__sub__"):
        return ss_add(args[0], args[1], -1)
    if name in ("mul", "__mul__", "__rmul__", "div", "__truediv__", "neg", "__neg__"):
        base = s if isinstance(s, SymSparse) else args[1]
        if name in ("neg", "__neg__"):
            return SymSparse(base.idx, -base.val, tuple(base.shape), base.coal)
        o = args[1] if base is s else args[0]
        if isinstance(o, torch.Tensor) and o.numel() != 1:
            raise Unsupported("elementwise sparse product")
        return SymSparse(base.idx, getattr(base.val, "__truediv__" if "div" in name else "__mul__")(o), tuple(base.shape), base.coal)
    if name in ("unsqueeze",):
        d = args[1] % (s.dim() + 1)
        z = torch.zeros(1, s.idx.shape[1], dtype=torch.int64)
        return SymSparse(torch.cat([s.idx[:d], z, s.idx[d:]]), s.val, tuple(s.shape[:d]) + (1,) + tuple(s.shape[d:]), s.coal)
    if name == "select":
        d, i = args[1], int(args[2])
        d %= s.dim()
        i %= s.shape[d]
        m = s.idx[d] == i
        keep = [k for k in range(s.dim()) if k != d]
        return SymSparse(s.idx[keep][:, m], s.val[m], tuple(s.shape[k] for k in keep), s.coal)
    if name in ("clone", "detach", "contiguous"):
        return SymSparse(s.idx.clone(), s.val.clone(), tuple(s.shape), s.coal)
    if name == "zeros_like":
        return SymSparse(torch.zeros(s.dim(), 0, dtype=torch.int64), wrap(torch.zeros(0, dtype=torch.float64), s.dtype), tuple(s.shape), True)
    if name in ("cat",):
        lst, d = args[0], (args[1] if len(args) > 1 else kwargs.get("dim", 0))
        lst = [x if isinstance(x, SymSparse) else ss_from_real(x) for x in lst]
        off = 0
        ii, vv = [], []
        for x in lst:
            i = x.idx.clone()
            i[d] += off
            off += x.shape[d]
            ii.append(i)
            vv.append(x.val)
        shp = list(lst[0].shape)
        shp[d] = off
        return SymSparse(torch.cat(ii, 1), torch.cat(vv), shp, False)
    if name == "index_select":
        d, sel = args[1], args[2].tolist()
        A = ss_coalesce(s)
        ii, vv = [], []
        for n, r in enumerate(sel):
            m = A.idx[d] == r
            i = A.idx[:, m].clone()
            i[d] = n
            ii.append(i)
            vv.append(A.val[m])
        shp = list(s.shape)
        shp[d] = len(sel)
        return SymSparse(torch.cat(ii, 1), torch.cat(vv), shp, False)
    if name in ("size", "dim", "numel", "shape", "type", "is_floating_point", "is_complex", "__len__", "element_size",
                "data_ptr", "__hash__", "stride", "is_contiguous", "dense_dim", "sparse_dim"):
        if name == "sparse_dim":
            return s.dim()
        with torch._C.DisableTorchFunctionSubclass():
            return func(*args, **kwargs)
    if name == "to":
        dt = kwargs.get("dtype") or next((a for a in args[1:] if isinstance(a, torch.dtype)), None)
        return s if dt is None or dt == s.dtype else SymSparse(s.idx, s.val.to(dt), tuple(s.shape), s.coal)
    raise Unsupported(f"sparse operation {name}")


def sparse_coo(func, args, kwargs):
    a = list(args)
    idx = a[0] if a else kwargs["indices"]
    val = a[1] if len(a) > 1 else kwargs["values"]
    size = a[2] if len(a) > 2 else kwargs.get("size")
    if is_sym(idx):
        idx = require_const(idx, "sparse index")
    if not is_sym(val):
        return NotImplemented
    dt = kwargs.get("dtype")
    if dt is not None and dt != val.dtype:
        val = val.to(dt)
    idx = idx.to(torch.int64)
    if size is None:
        size = [int(m) + 1 for m in idx.max(1).values.tolist()]
    elif idx.numel():
        for d, m in enumerate(idx.max(1).values.tolist()):
            if m >= size[d]:
                raise RuntimeError("size is inconsistent with indices")
        if idx.min() < 0:
            raise RuntimeError("found negative index")
    return SymSparse(idx, val, size, kwargs.get("is_coalesced") or False)


TF[torch.sparse_coo_tensor] = sparse_coo

FACTORIES = {torch.zeros: 0.0, torch.ones: 1.0, torch.empty: None, torch.full: "full",
             torch.zeros_like: 0.0, torch.ones_like: 1.0, torch.empty_like: None, torch.full_like: "full"}


class SymMode(TorchFunctionMode):
    """Active during a symbolic run: factory interception."""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        E = engine()
        if func in (torch.tensor, torch.as_tensor, torch.asarray, torch.sparse_coo_tensor):
            r = TF[func](func, args, kwargs)
            if r is not NotImplemented:
                return r
        elif E.factories and func in FACTORIES:
            with no_modes():
                like = func in (torch.zeros_like, torch.ones_like, torch.empty_like, torch.full_like)
                if like and (is_sym(args[0])):
                    pass
                else:
                    real = func(*args, **kwargs)
                    if real.dtype.is_floating_point and not real.is_sparse:
                        ids = torch.zeros(real.shape, dtype=torch.float64)
                        kind = FACTORIES[func]
                        if kind is None:
                            uninit(ids)
                        elif kind == "full":
                            ids.fill_(float(E.const_id(real.flatten()[0].item())) if real.numel() else 0.0)
                        else:
                            ids.fill_(float(E.const_id(kind)))
                        return wrap(ids, real.dtype)
                    return real
        return func(*args, **kwargs)


@tf(torch.Tensor.to_sparse)
def tf_to_sparse(func, args, kwargs):
    """Dense symbolic matrix to COO: every entry that is not identically zero is stored."""
    x = args[0]
    if not is_sym(x) or isinstance(x, SymSparse):
        return NotImplemented
    if x.ids.is_complex() or len(args) > 1 or kwargs:
        raise Unsupported("to_sparse arguments")
    E = engine()
    keep = torch.tensor([bool(E.terms[int(i)].c) for i in x.ids.flatten().tolist()], dtype=torch.bool)
    idx = torch.nonzero(keep.reshape(tuple(x.shape))).t().contiguous()
    return SymSparse(idx, wrap(x.ids.flatten()[keep], x.dtype), tuple(x.shape), True)
