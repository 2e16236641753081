"""Integer formulas over small domains as bit-vector formulas (interval arithmetic excludes overflow)."""
import z3

WIDTH = 48
LIMIT = 1 << (WIDTH - 2)


class TooWide(Exception):
    pass


class Bits:
    def __init__(self, dom):
        self.dom = dom
        self.memo = {}
        self.extra = []
        self.var = {n: z3.BitVec(f"bv_{n}", WIDTH) for n in dom}

    def bounds(self):
        return [z3.And(v >= lo, v <= hi) for (n, (lo, hi)) in self.dom.items() for v in [self.var[n]]]

    def val(self, e, lo, hi):
        if lo < -LIMIT or hi > LIMIT:
            raise TooWide
        return e, lo, hi

    def num(self, e):
        k = e.get_id()
        if k not in self.memo:
            self.memo[k] = (self._num(e), e)        # e is kept alive: ids are reused otherwise
        return self.memo[k][0]

    def _num(self, e):
        if z3.is_int_value(e):
            v = e.as_long()
            return self.val(z3.BitVecVal(v, WIDTH), v, v)
        d = e.decl().kind()
        if d == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            n = e.decl().name()
            if n not in self.var:
                raise TooWide
            return (self.var[n], *self.dom[n])
        ch = e.children()
        if d == z3.Z3_OP_ITE:
            known = self.decided(ch[0])
            if known is not None:
                return self.num(ch[1] if known else ch[2])
            a, b = self.num(ch[1]), self.num(ch[2])
            return z3.If(self.bool(ch[0]), a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        a = [self.num(x) for x in ch]
        if d == z3.Z3_OP_UMINUS:
            return self.val(-a[0][0], -a[0][2], -a[0][1])
        if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
            r = a[0]
            for y in a[1:]:
                if d == z3.Z3_OP_ADD:
                    r = self.val(r[0] + y[0], r[1] + y[1], r[2] + y[2])
                elif d == z3.Z3_OP_SUB:
                    r = self.val(r[0] - y[0], r[1] - y[2], r[2] - y[1])
                else:
                    c = [p * q for p in r[1:] for q in y[1:]]
                    r = self.val(r[0] * y[0], min(c), max(c))
            return r
        if d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            (x, lo, hi), (y, bl, bh) = a                # x = y q + r with 0 <= r < |y|
            size = max(abs(bl), abs(bh))
            ay = z3.If(y < 0, -y, y) if bl < 0 else y
            k = max(0, -lo)                             # shift into the non-negative range
            self.val(x, lo, hi + k * size)
            s = x + ay * z3.BitVecVal(k, WIDTH) if k else x
            if d == z3.Z3_OP_MOD:
                r, lo, hi = z3.URem(s, ay), 0, max(size - 1, 0)
            else:
                r = z3.UDiv(s, ay) - z3.BitVecVal(k, WIDTH) if k else z3.UDiv(s, ay)
                m = max(abs(lo), abs(hi))
                if bl < 0:
                    r, lo, hi = z3.If(y < 0, -r, r), -m, m
                else:
                    lo, hi = min(lo, 0) if lo < 0 else 0, max(hi, 0)
            if bl <= 0 <= bh:                           # a zero divisor gives an arbitrary value, as over the integers
                z = z3.BitVec(f"by_zero_{len(self.extra)}", WIDTH)
                self.extra.append(z3.And(z >= lo, z <= hi))
                r = z3.If(y == 0, z, r)
            return r, lo, hi
        raise TooWide

    def decided(self, c):
        """Truth of an inequality that the intervals alone settle, else None."""
        d = c.decl().kind()
        if d not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            return None
        p, q = self.num(c.arg(0)), self.num(c.arg(1))
        if d in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            p, q = q, p
        strict = d in (z3.Z3_OP_LT, z3.Z3_OP_GT)        # p < q or p <= q
        if p[2] < q[1] or (not strict and p[2] == q[1]):
            return True
        if p[1] > q[2] or (strict and p[1] == q[2]):
            return False
        return None

    def bool(self, e):
        k = e.get_id()
        if k not in self.memo:
            self.memo[k] = (self._bool(e), e)
        return self.memo[k][0]

    def _bool(self, e):
        d = e.decl().kind()
        ch = e.children()
        if d in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return e
        if d == z3.Z3_OP_NOT:
            return z3.Not(self.bool(ch[0]))
        if d == z3.Z3_OP_AND:
            return z3.And([self.bool(x) for x in ch])
        if d == z3.Z3_OP_OR:
            return z3.Or([self.bool(x) for x in ch])
        if d == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.bool(ch[0]), self.bool(ch[1]))
        if d == z3.Z3_OP_ITE:
            return z3.If(*[self.bool(x) for x in ch])
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if z3.is_bool(ch[0]):
                r = self.bool(ch[0]) == self.bool(ch[1])
            else:
                r = self.num(ch[0])[0] == self.num(ch[1])[0]
            return r if d == z3.Z3_OP_EQ else z3.Not(r)
        op = {z3.Z3_OP_LE: lambda p, q: p <= q, z3.Z3_OP_LT: lambda p, q: p < q,
              z3.Z3_OP_GE: lambda p, q: p >= q, z3.Z3_OP_GT: lambda p, q: p > q}.get(d)
        if op is None:
            raise TooWide
        return op(self.num(ch[0])[0], self.num(ch[1])[0])      # signed comparisons


def solve(assertions, dom, timeout):
    """("sat", values) / ("unsat", None) / ("unknown", None)"""
    b = Bits(dom)
    try:
        f = [b.bool(a) for a in assertions]
    except TooWide:
        return "unknown", None
    s = z3.SolverFor("QF_BV")
    s.set("timeout", timeout)
    s.add(*b.bounds(), *b.extra, *f)
    r = s.check()
    if r != z3.sat:
        return ("unsat" if r == z3.unsat else "unknown"), None
    m = s.model()
    return "sat", {n: (m[v].as_signed_long() if m[v] is not None else dom[n][0]) for n, v in b.var.items()}
