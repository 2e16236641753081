"""Polynomial forms over symbolic reals in fixed-point arithmetic with error bounds.

A form denotes  sum_m c_m * m + e,  |e| <= err,  where the m are monomials over the
symbols, every symbol lies in [-1, 1] (or in its declared box), the c_m are integers
in units of 2**-SH and err is an integer in the same unit.  Rounding introduced by the
fixed-point arithmetic is accumulated in err, so a form always encloses the exact
real-arithmetic value.
"""
from __future__ import annotations

from fractions import Fraction

import numpy as np

SH = 160
ONE = 1 << SH
HALF = 1 << (SH - 1)


class Space:
    """Symbols, monomials and side constraints of one symbolic run."""

    def __init__(self):
        self.names = ["1"]          # monomial id -> printable name
        self.deg = [0]
        self.factors = [()]         # monomial id -> sorted tuple of symbol monomial ids
        self._by_factors = {(): 0}
        self.side = []              # SMT-LIB constraints on extra symbols
        self.box = {}               # mono id -> bound (int, units of 2**-SH) if not 1
        self.uninit = set()         # symbols that denote uninitialised memory
        self.bools = ["false", "true"]  # id -> smt text

    def symbol(self, name, bound=None):
        mid = len(self.names)
        self.names.append(name)
        self.deg.append(1)
        self.factors.append((mid,))
        self._by_factors[(mid,)] = mid
        if bound is not None:
            self.box[mid] = bound
        return mid

    def mono_mul(self, a, b):
        if a == 0:
            return b
        if b == 0:
            return a
        key = tuple(sorted(self.factors[a] + self.factors[b]))
        mid = self._by_factors.get(key)
        if mid is None:
            mid = len(self.names)
            self.names.append("*".join(self.names[f] for f in key))
            self.deg.append(len(key))
            self.factors.append(key)
            self._by_factors[key] = mid
            bound = ONE
            for f in key:
                bound = (bound * self.box.get(f, ONE) >> SH) + 1
            if bound > ONE + len(key):
                self.box[mid] = bound
        return mid


SPACE = Space()


def reset():
    global SPACE
    SPACE = Space()
    return SPACE


class Form:
    __slots__ = ("c", "err")

    def __init__(self, c, err=0):
        self.c = c
        self.err = err

    # -- queries ---------------------------------------------------------------
    def is_const(self):
        c = self.c
        return (not c) or (len(c) == 1 and 0 in c)

    def const(self):
        return self.c.get(0, 0)

    def to_float(self):
        return float(Fraction(self.const(), ONE))

    def bound(self):
        b = self.err
        box = SPACE.box
        for m, v in self.c.items():
            v = abs(v)
            b += v if m not in box else (v * box[m] >> SH) + 1
        return b

    def evaluate(self, values):
        """Evaluate at values[symbol id] (floats); error part ignored."""
        s = 0.0
        fac = SPACE.factors
        for m, v in self.c.items():
            p = v / ONE
            for f in fac[m]:
                p *= values[f]
            s += p
        return s

    # -- arithmetic --------------------------------------------------------------
    def __add__(self, o):
        if not isinstance(o, Form):
            o = const(o)
        a, b = self.c, o.c
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, v in b.items():
            w = r.get(m, 0) + v
            if w:
                r[m] = w
            else:
                r.pop(m, None)
        return Form(r, self.err + o.err)

    __radd__ = __add__

    def __neg__(self):
        return Form({m: -v for m, v in self.c.items()}, self.err)

    def __sub__(self, o):
        if not isinstance(o, Form):
            o = const(o)
        r = dict(self.c)
        for m, v in o.c.items():
            w = r.get(m, 0) - v
            if w:
                r[m] = w
            else:
                r.pop(m, None)
        return Form(r, self.err + o.err)

    def __rsub__(self, o):
        return const(o) - self

    def __mul__(self, o):
        if not isinstance(o, Form):
            o = const(o)
        if o.is_const():
            return self.scale(o.const(), o.err)
        if self.is_const():
            return o.scale(self.const(), self.err)
        mm = SPACE.mono_mul
        r = {}
        n = 0
        for ma, va in self.c.items():
            for mb, vb in o.c.items():
                p = va * vb
                q = p >> SH
                if q << SH != p:
                    n += 1
                m = mm(ma, mb)
                w = r.get(m, 0) + q
                if w:
                    r[m] = w
                else:
                    r.pop(m, None)
        err = n
        if self.err or o.err:
            err += ((self.bound() * o.err + o.bound() * self.err) >> SH) + 2
        return Form(r, err)

    __rmul__ = __mul__

    def scale(self, k, kerr=0):
        """Multiply by the constant k (fixed point int) known up to kerr."""
        if k == ONE and not kerr:
            return self
        if k == 0 and not kerr:
            return ZERO
        r = {}
        n = 0
        for m, v in self.c.items():
            p = v * k
            q = p >> SH
            if q << SH != p:
                n += 1
            if q:
                r[m] = q
        err = n
        if self.err:
            err += (self.err * abs(k) >> SH) + 1
        if kerr:
            err += (self.bound() * kerr >> SH) + 1
        return Form(r, err)

    def __truediv__(self, o):
        if isinstance(o, Form):
            if not o.is_const() or o.err:
                raise TypeError("division by a symbolic form")
            o = Fraction(o.const(), ONE)
        return self * recip(o)

    def __pow__(self, n):
        if n != int(n) or n < 0:
            raise TypeError("non-integer power of a form")
        r = const(1)
        for _ in range(int(n)):
            r = r * self
        return r

    def __repr__(self):
        t = [f"{v / ONE:.6g}*{SPACE.names[m]}" for m, v in list(self.c.items())[:8]]
        return "Form(" + " + ".join(t) + (" ..." if len(self.c) > 8 else "") + ")"


ZERO = Form({})


def recip(v):
    f = 1 / Fraction(v)
    return const(f)


_const_cache = {}


def const_int(v):
    """Fixed point integer and rounding flag for a number."""
    r = _const_cache.get(v)
    if r is None:
        f = Fraction(v)
        n = f.numerator << SH
        q = n // f.denominator
        r = (q, 0 if q * f.denominator == n else 1)
        if len(_const_cache) < 200000:
            _const_cache[v] = r
    return r


def const(v):
    if isinstance(v, Form):
        return v
    if isinstance(v, (np.floating, np.integer)):
        v = v.item()
    q, e = const_int(v)
    return Form({0: q} if q else {}, e)


def symbol(name, bound=None):
    return Form({SPACE.symbol(name, bound): ONE})


def lincomb(pairs):
    """sum of k*form for pairs (k fixed-point int, form); one pass, tracked rounding."""
    r = {}
    get = r.get
    err = 0
    n = 0
    for k, f in pairs:
        if k == ONE:
            for m, v in f.c.items():
                r[m] = get(m, 0) + v
        else:
            for m, v in f.c.items():
                r[m] = get(m, 0) + (v * k >> SH)
            n += len(f.c)
        if f.err:
            err += (f.err * abs(k) >> SH) + 1
    for m in [m for m, v in r.items() if not v]:
        del r[m]
    return Form(r, err + n)
