"""Exact evaluation of sympy expressions as truncated Laurent series in x whose
coefficients are polynomials in the statistics."""

from fractions import Fraction
from functools import lru_cache
from math import isqrt

import sympy


class Unsupported(Exception):
    pass


class Poly:
    """A polynomial in the statistics: sorted ((name, exponent), ...) -> coefficient."""

    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    @staticmethod
    def symbol(name):
        return Poly({((name, 1),): 1})

    @staticmethod
    def lift(x):
        return x if isinstance(x, Poly) else Poly({(): x} if x else {})

    def __add__(self, o):
        o = Poly.lift(o)
        d = dict(self.d)
        for m, c in o.d.items():
            c = d.get(m, 0) + c
            if c:
                d[m] = c
            else:
                del d[m]
        return Poly(d)

    __radd__ = __add__

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return Poly({m: c * o for m, c in self.d.items()} if o else {})
        d = {}
        for m, c in self.d.items():
            for m2, c2 in o.d.items():
                m3 = _join(m, m2)
                c3 = d.get(m3, 0) + c * c2
                if c3:
                    d[m3] = c3
                else:
                    del d[m3]
        return Poly(d)

    __rmul__ = __mul__

    def __pow__(self, n):
        if n == 0:
            return 1
        if len(self.d) == 1:
            ((m, c),) = self.d.items()
            return Poly({tuple((k, e * n) for k, e in m): c**n})
        out = self
        for _ in range(n - 1):
            out = out * self
        return out

    def __neg__(self):
        return self * -1

    def __bool__(self):
        return bool(self.d)

    def __eq__(self, o):
        return self.d == Poly.lift(o).d

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __repr__(self):
        return repr(self.d)


def _join(m, m2):
    if not m:
        return m2
    if not m2:
        return m
    d = dict(m)
    for k, e in m2:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def constant(c):
    """The coefficient as a number."""
    if isinstance(c, Poly):
        if set(c.d) != {()}:
            raise Unsupported(f"division by {c}")
        c = c.d[()]
    return Fraction(c)


class Ser:
    """sum c[i] x^(v+i), known up to x^(v+len(c)-1)."""

    def __init__(self, v, c):
        self.v = v
        self.c = list(c)

    def prec(self):
        return self.v + len(self.c)

    def at(self, n):
        if n < self.v:
            return 0
        return self.c[n - self.v]

    def __add__(self, o):
        v = min(self.v, o.v)
        p = min(self.prec(), o.prec())
        return Ser(v, [self.at(n) + o.at(n) for n in range(v, p)])

    def __mul__(self, o):
        k = min(len(self.c), len(o.c))
        out = [0] * k
        for i, a in enumerate(self.c[:k]):
            if a:
                for j in range(k - i):
                    b = o.c[j]
                    if b:
                        out[i + j] += a * b
        return Ser(self.v + o.v, out)

    def scale(self, s):
        return Ser(self.v, [s * a for a in self.c])

    def strip(self):
        i = 0
        while i < len(self.c) and not self.c[i]:
            i += 1
        if i == len(self.c):
            raise Unsupported("series without a known non-zero coefficient")
        return Ser(self.v + i, self.c[i:])

    def inverse(self):
        s = self.strip()
        lead = 1 / constant(s.c[0])
        out = [lead]
        for n in range(1, len(s.c)):
            out.append(sum(s.c[i] * out[n - i] for i in range(1, n + 1)) * -lead)
        return Ser(-s.v, out)

    def sqrt(self):
        s = self.strip()
        if s.v % 2:
            raise Unsupported("odd valuation under a square root")
        lead = constant(s.c[0])
        if lead < 0:
            raise Unsupported("negative leading coefficient under a square root")
        a, b = isqrt(lead.numerator), isqrt(lead.denominator)
        if a * a != lead.numerator or b * b != lead.denominator:
            raise Unsupported("irrational leading coefficient")
        out = [Fraction(a, b)]
        for n in range(1, len(s.c)):
            rest = sum(out[i] * out[n - i] for i in range(1, n))
            out.append((s.c[n] + rest * -1) * (1 / (2 * out[0])))
        return Ser(s.v // 2, out)


class Evaluator:
    """`functions`: name -> callable(stat values, length) giving the list of the first
    coefficients."""

    def __init__(self, functions, length):
        self.functions = functions
        self.length = length

    def const(self, value):
        return Ser(0, [value] + [0] * (self.length - 1))

    def number(self, expr):
        """An expression in the statistics only."""
        if expr.is_Integer:
            return int(expr)
        if expr.is_Rational:
            return Fraction(int(expr.p), int(expr.q))
        if expr.is_Symbol:
            if str(expr) == "x":
                raise Unsupported("x inside an argument")
            return Poly.symbol(str(expr))
        if expr.is_Add:
            return sum(map(self.number, expr.args))
        if expr.is_Mul:
            out = 1
            for a in expr.args:
                out *= self.number(a)
            return out
        if expr.is_Pow and expr.exp.is_Integer:
            e = int(expr.exp)
            b = self.number(expr.base)
            return b**e if e >= 0 else (1 / constant(b)) ** -e
        raise Unsupported(f"argument {expr}")

    def __call__(self, expr):
        if expr.is_Integer:
            return self.const(int(expr))
        if expr.is_Rational:
            return self.const(Fraction(int(expr.p), int(expr.q)))
        if expr.is_Symbol:
            if str(expr) == "x":
                return Ser(1, [1] + [0] * (self.length - 1))
            return self.const(Poly.symbol(str(expr)))
        if expr.is_Add:
            out = self(expr.args[0])
            for a in expr.args[1:]:
                out = out + self(a)
            return out
        if expr.is_Mul:
            out = self(expr.args[0])
            for a in expr.args[1:]:
                out = out * self(a)
            return out
        if expr.is_Pow:
            base = self(expr.base)
            e = expr.exp
            if not e.is_Rational or int(e.q) not in (1, 2):
                raise Unsupported(f"power {expr}")
            if int(e.q) == 2:
                base = base.sqrt()
            n = int(e.p)
            if n < 0:
                base, n = base.inverse(), -n
            out = self.const(1)
            for _ in range(n):
                out = out * base
            return out
        if isinstance(expr, sympy.core.function.AppliedUndef):
            name = expr.func.__name__
            if name not in self.functions:
                raise KeyError(name)
            xarg, *stats = expr.args
            factor = sympy.sympify(xarg) / sympy.Symbol("x")
            if factor.has(sympy.Symbol("x")):
                raise Unsupported(f"first argument {xarg}")
            f = self.number(factor)
            coeffs = self.functions[name](tuple(map(self.number, stats)), self.length)
            return Ser(0, [c * f**n for n, c in enumerate(coeffs)])
        raise Unsupported(f"{type(expr).__name__}: {expr}")


def class_series(comb_class):
    """The true series of a class of the kit, for an Evaluator."""

    def f(values, length):
        return _class_series(comb_class, values, length)

    return f


@lru_cache(maxsize=5000)
def _class_series(comb_class, values, length):
    if len(values) != len(comb_class.stats):
        raise ValueError(f"{len(values)} statistics for {comb_class!r}")
    out = []
    for n in range(length):
        total = 0
        for params, count in comb_class.true_terms(n).items():
            term = count
            for v, p in zip(values, params):
                if p:
                    term *= v**p
            total += term
        out.append(total)
    return out


def equation_error(eq, classes, length, low):
    """A message, or None.  `classes`: function name -> class.  The coefficients of
    both sides are compared up to x^(low-1)."""
    if eq == True:  # noqa: E712  (sympy's true)
        return None
    if eq == False:  # noqa: E712
        return f"the equation is {eq}"
    ev = Evaluator({k: class_series(c) for k, c in classes.items()}, length)
    lhs, rhs = ev(eq.lhs), ev(eq.rhs)
    top = min(lhs.prec(), rhs.prec())
    if top < low:
        raise Unsupported(f"only {top} coefficients are known")
    for n in range(min(lhs.v, rhs.v), top):
        if Poly.lift(lhs.at(n)) != Poly.lift(rhs.at(n)):
            return f"coefficients of x^{n} differ in {eq.lhs} = {eq.rhs}"
    return None
