"""Interpreter for the graphs torch.jit.trace records (operators the C++ interpreter cannot run on symbolic
tensors: spectra, sparse products).  The concrete replay always runs the traced function itself."""
import torch

from . import symtensor as S

PYTHON = {"fft_fft": torch.fft.fft, "fft_ifft": torch.fft.ifft, "fft_rfft": torch.fft.rfft, "fft_irfft": torch.fft.irfft,
          "pad": torch.nn.functional.pad, "_sparse_mm": torch.sparse.mm, "mm": torch.mm, "matmul": torch.matmul, "bmm": torch.bmm,
          "to_dense": torch.Tensor.to_dense}

DTYPES = {3: torch.int32, 4: torch.int64, 5: torch.float16, 6: torch.float32, 7: torch.float64, 8: torch.complex32,
          9: torch.complex64, 10: torch.complex128, 11: torch.bool, 15: torch.bfloat16}
LAYOUTS = {0: torch.strided, 1: torch.sparse_coo, 2: torch.sparse_csr}


def value(v):
    return v.toIValue()


def scalar(x):
    return x.item() if isinstance(x, torch.Tensor) and not S.is_sym(x) else x


def run(traced, args):
    g = traced.inlined_graph
    env = {}
    ins = [i for i in g.inputs() if "__torch__" not in str(i.type())]
    for i, a in zip(ins, args):
        env[i.debugName()] = a
    for node in g.nodes():
        step(node, env, traced)
    out = [env[o.debugName()] for o in g.outputs()]
    return out[0] if len(out) == 1 else tuple(out)


def step(node, env, traced):
    k = node.kind()
    outs = list(node.outputs())

    def put(v):
        env[outs[0].debugName()] = v
    if k == "prim::Constant":
        return put(value(outs[0]))
    if k == "prim::GetAttr":
        base = env.get(next(node.inputs()).debugName(), traced)
        return put(getattr(base, node.s("name")))
    a = [env[i.debugName()] for i in node.inputs()]
    if k in ("prim::ListConstruct", "prim::TupleConstruct"):
        return put(list(a) if k[6] == "L" else tuple(a))
    if k in ("prim::ListUnpack", "prim::TupleUnpack"):
        for o, v in zip(outs, a[0]):
            env[o.debugName()] = v
        return None
    if k == "prim::NumToTensor":
        with S.no_modes():
            return put(a[0] if isinstance(a[0], torch.Tensor) else torch.tensor(a[0]))
    if k in ("aten::Int", "aten::ScalarImplicit", "aten::IntImplicit", "aten::FloatImplicit", "aten::Float"):
        v = scalar(a[0])
        return put(int(v) if k in ("aten::Int", "aten::IntImplicit") else v)
    if not k.startswith("aten::"):
        raise S.Unsupported(f"graph node {k}")
    name = k[6:]
    schema = node.schema()
    over = schema.split("(")[0].split(".")[1] if "." in schema.split("(")[0] else "default"
    if name == "size" and over == "int":
        return put(a[0].shape[a[1]])
    a = [int(v) if isinstance(v, torch.Tensor) and v.dim() == 0 and not S.is_sym(v) and "int" in str(i.type()) else v
         for v, i in zip(a, node.inputs())]
    if all(not isinstance(v, torch.Tensor) for v in a) and name in ("add", "sub", "mul", "floor_divide", "remainder", "neg", "div"):
        p = a[0]
        q = a[1] if len(a) > 1 else None
        return put({"add": lambda: p + q, "sub": lambda: p - q, "mul": lambda: p * q, "floor_divide": lambda: p // q,
                    "remainder": lambda: p % q, "neg": lambda: -p, "div": lambda: p / q}[name]())
    if name in PYTHON and any(S.is_sym(t) or not isinstance(t, torch.Tensor) for t in a[:2]):
        f = PYTHON[name]
        if name.startswith("fft"):
            return put(f(a[0], n=a[1], dim=a[2], norm=a[3]))
        if name == "to_dense":
            return put(a[0].to_dense())
        if name == "mm" and any(isinstance(v, torch.Tensor) and v.layout != torch.strided for v in a):
            f = torch.sparse.mm
        return put(f(*a))
    if name == "mul" and over == "Tensor":
        return put(a[0] * a[1])
    op = getattr(getattr(torch.ops.aten, name), over)
    kw, pos = {}, []
    for arg, v in zip(op._schema.arguments, a):
        t = str(arg.real_type)
        if isinstance(v, int) and not isinstance(v, bool):
            v = DTYPES.get(v, v) if "ScalarType" in t else LAYOUTS.get(v, v) if "Layout" in t else v
        if arg.kwarg_only:
            kw[arg.name] = v
        else:
            pos.append(v)
    a = pos
    if any(S.is_sym(t) for t in S.tensors_in(a, {})):
        r = op(*a, **kw)
    else:                       # constants of the trace
        with S.no_modes():
            r = op(*a, **kw)
    if len(outs) == 1:
        return put(r)
    for o, v in zip(outs, r):
        env[o.debugName()] = v
    return None
