"""Symbolic values and path exploration.

A symbolic number is a Laurent polynomial with rational coefficients over named
variables.  Derived quantities (square roots, absolute values, sines, non-monomial
denominators, rounded prints) are fresh variables with a *definition* that is asserted in
the solver.  Comparisons become z3 formulas; ``bool()`` of a formula that the current path
neither implies nor refutes forks the path (depth-first re-execution).
"""
import itertools
import math
import time
from fractions import Fraction

import z3


class EngineSignal(BaseException):
    """Base of the exceptions that steer the engine (never caught by 'except Exception')."""


class Unsupported(EngineSignal):
    """The code did something with a symbolic value that the engine cannot encode."""


class PathInfeasible(EngineSignal):
    """The assumptions made so far are unsatisfiable: the path is dropped."""


class PathLimit(EngineSignal):
    """A stated bound (depth of decisions, time) was hit."""


class Hangs(PathLimit):
    """The code under analysis does not seem to end."""


class PropertyViolated(EngineSignal):
    def __init__(self, label, model, detail=""):
        super().__init__(label)
        self.label = label
        self.model = model
        self.detail = detail


# --------------------------------------------------------------------------------------
# exact rationals
# --------------------------------------------------------------------------------------
def rat(x):
    """The rational a Python number stands for.

    Binary floats written in source (0.1, 1/3, 1.602e-19) stand for the number meant by
    the author: the simplest fraction that rounds to the same double.
    """
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if hasattr(x, "dtype") and not isinstance(x, float):
        x = x.item()
        return rat(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported(f"non-finite float {x}")
        if x == int(x) and abs(x) < 2**53:
            return Fraction(int(x))
        f = Fraction(x).limit_denominator(2000)
        if float(f) == x:
            return f
        return Fraction(repr(float(x)))
    raise TypeError(f"not a real number: {type(x)}")


class Var:
    __slots__ = (
        "id",
        "name",
        "is_int",
        "positive",
        "nonneg",
        "rule",
        "z",
        "cons",
        "base",
        "numeric",
    )

    def __init__(self, id, name, is_int=False, positive=False, nonneg=False, base=True):
        self.id = id
        self.name = name
        self.is_int = is_int
        self.positive = positive
        self.nonneg = nonneg or positive
        self.rule = None  # (power, replacement poly)
        self.z = z3.Int(name) if is_int else z3.Real(name)
        self.cons = []  # defining constraints (z3)
        self.base = base
        self.numeric = None  # callable(env)->float, for derived variables


CUR = None  # the current context


def ctx():
    if CUR is None:
        raise RuntimeError("no symbolic context")
    return CUR


# --------------------------------------------------------------------------------------
# polynomials: dict  monomial -> Fraction ; monomial = tuple of (var id, exponent)
# --------------------------------------------------------------------------------------
def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        n = d.get(v, 0) + e
        if n:
            d[v] = n
        else:
            del d[v]
    return tuple(sorted(d.items()))


def p_const(c):
    c = rat(c)
    return {(): c} if c else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + c
        if n:
            r[m] = n
        else:
            del r[m]
    return r


def p_scale(a, k):
    if not k:
        return {}
    return {m: c * k for m, c in a.items()}


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return p_scale(b, a[()])
    if len(b) == 1 and () in b:
        return p_scale(a, b[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            elif m in r:
                del r[m]
    return p_reduce(r)


def p_pow(a, n):
    if n == 0:
        return {(): Fraction(1)}
    r = a
    for _ in range(n - 1):
        r = p_mul(r, a)
    return r


def p_reduce(p):
    """Apply the rewrite rules v^k -> replacement of defined variables."""
    if CUR is None:
        return p
    vs = CUR.vars
    while True:
        todo = None
        for m in p:
            for v, e in m:
                rule = vs[v].rule
                if rule is not None and e >= rule[0]:
                    todo = True
                    break
            if todo:
                break
        if not todo:
            return p
        out = {}
        for m, c in p.items():
            hit = None
            for v, e in m:
                rule = vs[v].rule
                if rule is not None and e >= rule[0]:
                    hit = (v, e, rule)
                    break
            if hit is None:
                n = out.get(m, 0) + c
                if n:
                    out[m] = n
                else:
                    del out[m]
                continue
            v, e, (k, rep) = hit
            rest = tuple((a, b) for a, b in m if a != v)
            q, r0 = divmod(e, k)
            if r0:
                rest = _mono_mul(rest, ((v, r0),))
            term = {rest: c}
            for _ in range(q):
                acc = {}
                for m1, c1 in term.items():
                    for m2, c2 in rep.items():
                        mm = _mono_mul(m1, m2)
                        n = acc.get(mm, 0) + c1 * c2
                        if n:
                            acc[mm] = n
                        elif mm in acc:
                            del acc[mm]
                term = acc
            for m1, c1 in term.items():
                n = out.get(m1, 0) + c1
                if n:
                    out[m1] = n
                elif m1 in out:
                    del out[m1]
        p = out


def p_clear(p):
    """Multiply by a positive quantity so that no exponent is negative; reduce."""
    if CUR is None:
        return p
    vs = CUR.vars
    for _ in range(20):
        mins = {}
        for m in p:
            for v, e in m:
                if e < 0 and e < mins.get(v, 0):
                    mins[v] = e
        if not mins:
            return p
        mono = []
        for v, e in mins.items():
            e = -e
            if not vs[v].positive and e % 2:
                e += 1
            mono.append((v, e))
        mono = tuple(sorted(mono))
        p = p_reduce({_mono_mul(m, mono): c for m, c in p.items()})
    raise Unsupported("cannot clear denominators")


def p_vars(p):
    s = set()
    for m in p:
        for v, _ in m:
            s.add(v)
    return s


def p_key(p):
    return tuple(sorted(p.items()))


def _zrat(c, is_int=False):
    if is_int and c.denominator == 1:
        return z3.IntVal(c.numerator)
    return z3.Q(c.numerator, c.denominator)


def p_z3(p):
    vs = ctx().vars
    if not p:
        return z3.RealVal(0)
    allint = all(c.denominator == 1 for c in p.values()) and all(
        vs[v].is_int for v in p_vars(p)
    )
    terms = []
    for m, c in sorted(p.items()):
        f = []
        for v, e in m:
            z = vs[v].z
            if vs[v].is_int and not allint:
                z = z3.ToReal(z)
            f += [z] * e
        if not f:
            terms.append(_zrat(c, allint))
        else:
            prod = f[0] if len(f) == 1 else z3.Product(*f)
            terms.append(prod if c == 1 else _zrat(c, allint) * prod)
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)


def p_num(p, env):
    """Numeric (float) value of a polynomial in an environment var id -> float."""
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for v, e in m:
            t *= num_var(v, env) ** e
        s += t
    return s


def num_var(v, env):
    if v not in env:
        var = ctx().vars[v]
        if var.numeric is None:
            raise KeyError(var.name)
        env[v] = var.numeric(env)
    return env[v]


# --------------------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------------------
NUMS = (int, float, Fraction)


def as_poly(x):
    if isinstance(x, Sym):
        return x.p
    if isinstance(x, NUMS) or (hasattr(x, "dtype") and getattr(x, "shape", None) == ()):
        try:
            return p_const(x)
        except TypeError:
            return None
    return None


def _isqrt_frac(c):
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def _is_complex(o):
    return isinstance(o, complex) or (
        getattr(getattr(o, "dtype", None), "kind", "") == "c" and getattr(o, "shape", None) == ()
    )


# squared cosine -> acute angle in units of pi
_SPECIAL = {
    Fraction(0): Fraction(1, 2),
    Fraction(1, 4): Fraction(1, 3),
    Fraction(1, 2): Fraction(1, 4),
    Fraction(3, 4): Fraction(1, 6),
    Fraction(1): Fraction(0),
}


def _p_sqrt(q):
    """The polynomial whose square is q, if there is one."""
    vs = sorted({v for m in q for v, _ in m})

    def order(m):
        d = dict(m)
        return [d.get(v, 0) for v in vs]

    if any(e < 0 for m in q for _, e in m):
        return None
    lead = max(q, key=order)
    c = _isqrt_frac(q[lead]) if q[lead] > 0 else None
    if c is None or any(e % 2 for _, e in lead):
        return None
    head = tuple((v, e // 2) for v, e in lead)
    root = {head: c}
    rest = p_add(q, {lead: -q[lead]})
    inv = tuple((v, -e) for v, e in head)
    for _ in range(len(q)):
        if not rest:
            return root
        l = max(rest, key=order)
        m = _mono_mul(l, inv)
        if any(e < 0 for _, e in m) or m in root:
            return None
        t = {m: rest[l] / (2 * c)}
        # (root + t)^2 = root^2 + 2 root t + t^2
        step = p_add(p_scale(p_mul(root, t), 2), p_mul(t, t))
        rest = p_add(rest, p_scale(step, -1))
        root = p_add(root, t)
    return root if not rest else None


def _with_list(x, o, op, mul=False):
    """A numpy number and a list: the list is converted to an array."""
    if type(o) in (list, tuple) and o and not (mul and x.is_int):
        from . import symnp

        return op(x, symnp.numpy.array(o))
    return NotImplemented


class Sym:
    """A symbolic (or exact constant) real or integer number."""

    __slots__ = ("p",)
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p

    # -- structure
    @property
    def is_const(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    @property
    def const(self):
        return self.p.get((), Fraction(0))

    @property
    def is_int(self):
        if CUR is None:
            return self.is_const and self.const.denominator == 1
        vs = CUR.vars
        return all(c.denominator == 1 for c in self.p.values()) and all(
            vs[v].is_int and e > 0 for m in self.p for v, e in m
        )

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic number")

    # -- arithmetic
    def __add__(self, o):
        q = as_poly(o)
        if q is None:
            if _is_complex(o):
                return SymC.lift(o) + self
            return _with_list(self, o, lambda x, y: y + x)
        return Sym(p_add(self.p, q))

    __radd__ = __add__

    def __sub__(self, o):
        q = as_poly(o)
        if q is None:
            if _is_complex(o):
                return SymC.lift(self) - SymC.lift(o)
            return _with_list(self, o, lambda x, y: x - y)
        return Sym(p_add(self.p, p_scale(q, -1)))

    def __rsub__(self, o):
        q = as_poly(o)
        if q is None:
            if _is_complex(o):
                return SymC.lift(o) - self
            return _with_list(self, o, lambda x, y: y - x)
        return Sym(p_add(q, p_scale(self.p, -1)))

    def __mul__(self, o):
        q = as_poly(o)
        if q is None:
            if _is_complex(o):
                return SymC.lift(o) * self
            return _with_list(self, o, lambda x, y: y * x, True)
        return Sym(p_mul(self.p, q))

    __rmul__ = __mul__

    def __truediv__(self, o):
        q = as_poly(o)
        if q is None:
            if _is_complex(o):
                return SymC.lift(self) / SymC.lift(o)
            return _with_list(self, o, lambda x, y: x / y)
        return Sym(p_mul(self.p, p_inverse(q)))

    def __rtruediv__(self, o):
        q = as_poly(o)
        if q is None:
            if _is_complex(o):
                return SymC.lift(o) / self
            return _with_list(self, o, lambda x, y: y / x)
        return Sym(p_mul(q, p_inverse(self.p)))

    def __pow__(self, n):
        if isinstance(n, Sym):
            if not n.is_const:
                raise Unsupported("symbolic exponent")
            n = n.const
        n = rat(n)
        if n.denominator == 1:
            n = n.numerator
            if n >= 0:
                return Sym(p_pow(self.p, n))
            return Sym(p_pow(p_inverse(self.p), -n))
        if n.denominator == 2:
            r = self.sqrt()
            return r ** n.numerator
        if n == Fraction(1, 3):
            return self.cbrt()
        raise Unsupported(f"power {n}")

    def __rpow__(self, o):
        if self.is_const:
            return Sym(p_const(o)) ** self
        raise Unsupported("symbolic exponent")

    def __neg__(self):
        return Sym(p_scale(self.p, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.is_const:
            return Sym(p_const(abs(self.const)))
        return ctx().absval(self)

    fabs = __abs__
    absolute = __abs__

    def __floordiv__(self, o):
        q = as_poly(o)
        if q is None:
            return NotImplemented
        return ctx().floor(self / Sym(q))

    def __rfloordiv__(self, o):
        return Sym(as_poly(o)) // self

    def __mod__(self, o):
        o = Sym(as_poly(o))
        return self - o * (self // o)

    def __rmod__(self, o):
        return Sym(as_poly(o)) % self

    def __divmod__(self, o):
        return self // o, self % o

    def floor(self):
        return ctx().floor(self)

    def ceil(self):
        return -ctx().floor(-self)

    __floor__ = floor
    __ceil__ = ceil

    def __trunc__(self):
        if self.is_int:
            return self
        if self >= 0:
            return self.floor()
        return self.ceil()

    def __round__(self, n=None):
        if n is None:
            n = 0
        if self.is_int and n >= 0:
            return self
        return ctx().rounded(self, n)

    def rint(self):
        return self.__round__(0)

    def is_integer(self):
        return self.is_int

    # -- numpy object-loop methods
    def sqrt(self):
        return ctx().sqrt(self)

    def cbrt(self):
        return ctx().cbrt(self)

    def square(self):
        return self * self

    def cos(self):
        return ctx().cossin(self)[0]

    def sin(self):
        return ctx().cossin(self)[1]

    def tan(self):
        c, s = ctx().cossin(self)
        return s / c

    def arccos(self):
        return ctx().arccos(self)

    def arcsin(self):
        return ctx().opaque("arcsin", self)

    def arctan2(self, o):
        return ctx().arctan2(self, o)

    def deg2rad(self):
        return self * ctx().pi / 180

    radians = deg2rad

    def rad2deg(self):
        return self * 180 / ctx().pi

    degrees = rad2deg

    def exp(self):
        if self.is_const and self.const == 0:
            return ONE
        raise Unsupported("exp of a real symbolic number")

    def log(self):
        raise Unsupported("log")

    def conjugate(self):
        return self

    conj = conjugate

    def reciprocal(self):
        return 1 / self

    def sign(self):
        if self > 0:
            return ONE
        if self < 0:
            return -ONE
        return ZERO

    def isfinite(self):
        return True

    def isnan(self):
        return False

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    @property
    def T(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def astype(self, t):
        return self

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
            # every number compares with nan and infinities in the same way
            return {"==": 0.0 == o, "!=": 0.0 != o, "<": 0.0 < o, "<=": 0.0 <= o, ">": 0.0 > o, ">=": 0.0 >= o}[op]
        q = as_poly(o)
        if q is None:
            return NotImplemented
        d = p_add(self.p, p_scale(q, -1))
        return rel(d, op)

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __hash__(self):
        if self.is_const:
            return hash(self.const)
        if self.is_int:
            return hash(self.__index__())
        raise Unsupported("hash of a symbolic real")

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __index__(self):
        if self.is_const and self.const.denominator == 1:
            return self.const.numerator
        if self.is_int:
            return ctx().concretise(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __int__(self):
        return self.__trunc__().__index__()

    def __float__(self):
        if self.is_const:
            return float(self.const)
        raise Unsupported("float() of a symbolic number")

    def __complex__(self):
        return complex(float(self))

    # -- text
    def __format__(self, spec):
        if self.is_const and not (CUR is not None and CUR.tokens_for_constants):
            if self.is_int and not any(ch in spec for ch in "eEfFgG"):
                return format(int(self.const), spec)
            return format(float(self.const), spec)
        return ctx().print_number(self, spec)

    def __str__(self):
        return self.__format__("")

    def __repr__(self):
        if self.is_const:
            c = self.const
            return repr(int(c)) if c.denominator == 1 else repr(float(c))
        return f"Sym({self.describe()})"

    def describe(self):
        vs = CUR.vars if CUR is not None else None
        out = []
        for m, c in list(self.p.items())[:6]:
            out.append(
                f"{c}"
                + "".join(
                    f"*{vs[v].name if vs else v}" + (f"^{e}" if e != 1 else "")
                    for v, e in m
                )
            )
        return " + ".join(out) + (" + ..." if len(self.p) > 6 else "")

    # -- arrays
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import symnp

        return symnp.array_ufunc(ufunc, method, *inputs, **kwargs)


def p_inverse(q):
    if not q:
        raise ZeroDivisionError("division by zero")
    if len(q) == 1:
        ((m, c),) = q.items()
        for v, _ in m:
            if v != 0:  # variable 0 is pi
                ctx().need_nonzero(v)
        return {tuple((v, -e) for v, e in m): 1 / c}
    w = ctx().denominator(q)
    return w


ZERO = Sym({})
ONE = Sym({(): Fraction(1)})


def C(x):
    """Exact constant."""
    if isinstance(x, Sym):
        return x
    return Sym(p_const(x))


# --------------------------------------------------------------------------------------
# complex
# --------------------------------------------------------------------------------------
class SymC:
    __slots__ = ("re", "im")
    __array_priority__ = 1001

    def __init__(self, re, im=0):
        self.re = C(re)
        self.im = C(im)

    @staticmethod
    def lift(x):
        if isinstance(x, SymC):
            return x
        if isinstance(x, complex):
            return SymC(x.real, x.imag)
        if hasattr(x, "dtype") and getattr(x, "shape", None) == ():
            x = x.item() if not isinstance(x, Sym) else x
            if isinstance(x, complex):
                return SymC(x.real, x.imag)
        q = as_poly(x)
        if q is None:
            return None
        return SymC(Sym(q), ZERO)

    @staticmethod
    def make(re, im):
        return SymC(re, im)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __add__(self, o):
        o = SymC.lift(o)
        if o is None:
            return NotImplemented
        return SymC(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = SymC.lift(o)
        if o is None:
            return NotImplemented
        return SymC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = SymC.lift(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        o = SymC.lift(o)
        if o is None:
            return NotImplemented
        return SymC(
            self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re
        )

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymC.lift(o)
        if o is None:
            return NotImplemented
        if o.im.is_const and o.im.const == 0:
            return SymC(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        return SymC(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        return SymC.lift(o) / self

    def __neg__(self):
        return SymC(-self.re, -self.im)

    def __pos__(self):
        return self

    def __pow__(self, n):
        n = rat(n) if not isinstance(n, Sym) else n.const
        if n.denominator != 1 or n < 0:
            raise Unsupported("complex power")
        r = SymC(1, 0)
        for _ in range(int(n)):
            r = r * self
        return r

    def conjugate(self):
        return SymC(self.re, -self.im)

    conj = conjugate

    def exp(self):
        c, s = ctx().cossin(self.im)
        if not (self.re.is_const and self.re.const == 0):
            raise Unsupported("exp of a complex number with a real part")
        return SymC(c, s)

    def __abs__(self):
        return (self.re * self.re + self.im * self.im).sqrt()

    absolute = __abs__

    def square(self):
        return self * self

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __eq__(self, o):
        o = SymC.lift(o)
        if o is None:
            return NotImplemented
        return b_and([self.re == o.re, self.im == o.im])

    def __ne__(self, o):
        return b_not(self == o)

    __hash__ = None

    def __bool__(self):
        return bool(self != 0)

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __repr__(self):
        return f"({self.re!r}+{self.im!r}j)"

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import symnp

        return symnp.array_ufunc(ufunc, method, *inputs, **kwargs)


# --------------------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------------------
def rel(d, op):
    """d op 0 as bool or SymBool."""
    if not d or (len(d) == 1 and () in d):
        c = d.get((), Fraction(0))
        return {
            "==": c == 0,
            "!=": c != 0,
            "<": c < 0,
            "<=": c <= 0,
            ">": c > 0,
            ">=": c >= 0,
        }[op]
    d = p_clear(d)
    if not d or (len(d) == 1 and () in d):
        return rel(d, op)
    e = p_z3(d)
    z = {
        "==": lambda: e == 0,
        "!=": lambda: e != 0,
        "<": lambda: e < 0,
        "<=": lambda: e <= 0,
        ">": lambda: e > 0,
        ">=": lambda: e >= 0,
    }[op]()
    return SymBool(z, p_vars(d))


class SymBool:
    __slots__ = ("z", "vs")
    __array_priority__ = 1000

    def __init__(self, z, vs):
        self.z = z
        self.vs = frozenset(vs)

    def __bool__(self):
        return ctx().decide(self)

    def __and__(self, o):
        return b_and([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return b_or([self, o])

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def logical_not(self):
        return b_not(self)

    def logical_and(self, o):
        return b_and([self, o])

    def logical_or(self, o):
        return b_or([self, o])

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.z == o.z, self.vs | o.vs)
        if isinstance(o, bool):
            return self if o else b_not(self)
        return NotImplemented

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    def __repr__(self):
        return f"SymBool({self.z})"

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import symnp

        return symnp.array_ufunc(ufunc, method, *inputs, **kwargs)


def _b(x):
    if isinstance(x, SymBool):
        return x
    return bool(x)


def b_and(xs):
    zs, vs = [], set()
    for x in xs:
        x = _b(x)
        if x is False:
            return False
        if x is True:
            continue
        zs.append(x.z)
        vs |= x.vs
    if not zs:
        return True
    return SymBool(z3.And(*zs) if len(zs) > 1 else zs[0], vs)


def b_or(xs):
    zs, vs = [], set()
    for x in xs:
        x = _b(x)
        if x is True:
            return True
        if x is False:
            continue
        zs.append(x.z)
        vs |= x.vs
    if not zs:
        return False
    return SymBool(z3.Or(*zs) if len(zs) > 1 else zs[0], vs)


def b_not(x):
    x = _b(x)
    if isinstance(x, bool):
        return not x
    return SymBool(z3.Not(x.z), x.vs)


def sym_eq(a, b):
    """Structural equality of keys (tuples, numbers, anything) as bool or SymBool."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return b_and([sym_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, Sym) or isinstance(b, Sym):
        if as_poly(a) is None or as_poly(b) is None:
            return False
        return C(a) == C(b)
    r = a == b
    if isinstance(r, SymBool):
        return r
    return bool(r)


def has_sym(key):
    if isinstance(key, Sym):
        return not key.is_const
    if isinstance(key, (tuple, frozenset)):
        return any(has_sym(k) for k in key)
    return hasattr(type(key), "__symstr__")


# --------------------------------------------------------------------------------------
# statistics shared by all paths of a check
# --------------------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.forks = 0
        self.functions = set()
        self.notes = set()
        self.unknown_labels = []

    def merge(self, d):
        for k in ("queries", "unsat", "sat", "unknown", "solver_s", "obligations", "forks"):
            setattr(self, k, getattr(self, k) + d[k])
        self.functions |= set(d["functions"])
        self.notes |= set(d["notes"])
        self.unknown_labels += d["unknown_labels"]

    def asdict(self):
        return dict(
            queries=self.queries,
            unsat=self.unsat,
            sat=self.sat,
            unknown=self.unknown,
            solver_s=self.solver_s,
            obligations=self.obligations,
            forks=self.forks,
            functions=sorted(self.functions),
            notes=sorted(self.notes),
            unknown_labels=self.unknown_labels[:50],
        )


# --------------------------------------------------------------------------------------
# the symbolic context: one execution path
# --------------------------------------------------------------------------------------
PI_ID = 0


def _leading(p):
    return min(p)


class Guard:
    """z3 does not always obey its timeout: `until` is watched by a thread of the worker."""

    until = None
    total = 0  # time spent here

    def __init__(self, ms):
        self.ms = ms

    def __enter__(self):
        self.start = time.time()
        Guard.until = self.start + 15 + 2 * self.ms / 1000

    def __exit__(self, *_):
        Guard.until = None
        Guard.total += time.time() - self.start


class Context:
    symbolic = True

    def __init__(self, prefix=(), stats=None, options=None):
        self.prefix = list(prefix)
        self.trace = []  # [(kind, value, alternatives)]
        self.stats = stats or Stats()
        self.opt = dict(
            branch_ms=4000, prop_ms=20000, max_decisions=400, max_values=12
        )
        self.opt.update(options or {})
        self.vars = []
        self.by_name = {}
        self.path = []  # [(z3, frozenset vars)]
        self.inputs = {}  # harness inputs: name -> description
        self.choices = {}
        self.tokens = {}
        self.token_cache = {}
        self.token_n = 0
        self.token_neg = False
        self.tokens_for_constants = False
        self.expand_trig = False
        self.cache = {}
        self.soft_labels = []
        self.violations = []
        pi = self._var("pi", base=False, positive=True)
        pi.cons.append(
            z3.And(pi.z > z3.Q(314159265, 10**8), pi.z < z3.Q(314159266, 10**8))
        )
        pi.numeric = lambda env: math.pi
        self.pi = Sym({((PI_ID, 1),): Fraction(1)})

    # -- variables ---------------------------------------------------------------------
    def _var(self, name, **kw):
        if name in self.by_name:
            raise RuntimeError(f"duplicate variable {name}")
        v = Var(len(self.vars), name, **kw)
        self.vars.append(v)
        self.by_name[name] = v
        return v

    @staticmethod
    def sym(v):
        return Sym({((v.id, 1),): Fraction(1)})

    # -- solver ------------------------------------------------------------------------
    def _closure(self, vs):
        """Constraints connected with the variables vs."""
        seen = set(vs)
        cons, used = [], set()
        changed = True
        defs_done = set()
        while changed:
            changed = False
            for v in list(seen):
                if v in defs_done:
                    continue
                defs_done.add(v)
                var = self.vars[v]
                for c in var.cons:
                    cons.append(c)
                if var.rule is not None:
                    new = p_vars(var.rule[1]) - seen
                    if new:
                        seen |= new
                        changed = True
                extra = getattr(self, "_links", {}).get(v)
                if extra and not extra <= seen:
                    seen |= extra
                    changed = True
            for i, (z, pv) in enumerate(self.path):
                if i not in used and pv & seen:
                    used.add(i)
                    cons.append(z)
                    if not pv <= seen:
                        seen |= pv
                        changed = True
        return cons, seen

    def link(self, v, others):
        if not hasattr(self, "_links"):
            self._links = {}
        self._links.setdefault(v, set()).update(others)

    def _solve(self, cons, ms, want_model=False):
        with Guard(2 * ms if ms > 500 else ms):
            return self._solve_(cons, ms, want_model)

    def _solve_(self, cons, ms, want_model):
        t = time.time()
        s = z3.Solver()
        s.set("timeout", int(ms))
        s.add(*cons)
        r = s.check()
        if r == z3.unknown and ms > 500:
            # nlsat alone
            try:
                has_int = any("Int" in c.sexpr() and "to_real" in c.sexpr() for c in cons)
            except Exception:
                has_int = True
            if not has_int:
                s2 = z3.Tactic("qfnra-nlsat").solver()
                s2.set("timeout", int(ms))
                s2.add(*cons)
                try:
                    r = s2.check()
                    s = s2
                except z3.Z3Exception:
                    r = z3.unknown
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        if want_model:
            return r, (s.model() if r == z3.sat else None)
        return r

    def _possible(self, b):
        cons, _ = self._closure(b.vs)
        return self._solve(cons + [b.z], self.opt["branch_ms"])

    def add(self, b):
        b = _b(b)
        if b is True:
            return
        if b is False:
            raise PathInfeasible()
        self.path.append((b.z, b.vs))

    def assume(self, b):
        """Precondition."""
        b = _b(b)
        if b is True:
            return
        if b is False:
            raise PathInfeasible()
        i = len(self.trace)
        if i < len(self.prefix):
            self.trace.append(("a", True, []))
            self.add(b)
            return
        r = self._possible(b)
        if r == z3.unsat:
            raise PathInfeasible()
        self.trace.append(("a", True, []))
        self.add(b)

    def decide(self, b):
        i = len(self.trace)
        if i >= self.opt["max_decisions"]:
            raise PathLimit("too many decisions on one path")
        if i < len(self.prefix):
            kind, val, _ = self.prefix[i]
            self.trace.append((kind, val, []))
            self.add(b if val else b_not(b))
            return val
        nb = b_not(b)
        rt = self._possible(b)
        if rt == z3.unsat:
            self.trace.append(("f", False, []))
            self.add(nb)
            return False
        rf = self._possible(nb)
        if rf == z3.unsat:
            self.trace.append(("f", True, []))
            self.add(b)
            return True
        self.stats.forks += 1
        self.trace.append(("b", True, [False]))
        self.add(b)
        return True

    def implied(self, b):
        """True if the path implies b (no fork)."""
        b = _b(b)
        if isinstance(b, bool):
            return b
        return self._possible(b_not(b)) == z3.unsat

    def choose(self, n):
        """Non-deterministic choice among n alternatives (structural fork)."""
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i][1]
            self.trace.append(("n", k, []))
            return k
        self.trace.append(("n", 0, list(range(1, n))))
        return 0

    def concretise(self, x):
        for _ in range(self.opt["max_values"]):
            i = len(self.trace)
            if i < len(self.prefix):
                kind, (v, eq), _ = self.prefix[i]
                self.trace.append((kind, (v, eq), []))
                c = x == v
                self.add(c if eq else b_not(c))
                if eq:
                    return v
                continue
            cons, _ = self._closure(p_vars(x.p))
            r, m = self._solve(cons, self.opt["branch_ms"], want_model=True)
            if r != z3.sat:
                raise Unsupported("cannot concretise an integer")
            v = m.eval(p_z3(x.p), model_completion=True)
            if z3.is_int_value(v):
                v = v.as_long()
            else:
                v = int(v.as_fraction())
            c = x == v
            if isinstance(c, bool):
                return v
            if self._possible(b_not(c)) == z3.unsat:
                self.trace.append(("c", (v, True), []))
            else:
                self.trace.append(("c", (v, True), [(v, False)]))
            self.add(c)
            return v
        raise PathLimit("too many values of a symbolic integer")

    # -- derived quantities -------------------------------------------------------------
    def need_nonzero(self, v):
        var = self.vars[v]
        if var.positive or v in self.cache.setdefault("nonzero", set()):
            return
        s = self.sym(var)
        z = s == 0
        if isinstance(z, bool):
            if z:
                raise ZeroDivisionError("division by zero")
        elif bool(z):
            raise Unsupported("division by zero on a feasible path")
        self.cache["nonzero"].add(v)
        if var.nonneg:
            var.positive = True

    def _normalise(self, p):
        """p = k * mono * q with q having no common monomial and leading coefficient 1."""
        mins = None
        for m in p:
            d = dict(m)
            if mins is None:
                mins = d
            else:
                mins = {
                    v: min(e, d.get(v, 0))
                    for v, e in itertools.chain(
                        mins.items(), ((v, 0) for v in d if v not in mins)
                    )
                }
                mins = {v: min(mins.get(v, 0), d.get(v, 0)) for v in set(mins) | set(d)}
        mono = tuple(sorted((v, e) for v, e in mins.items() if e))
        inv = tuple((v, -e) for v, e in mono)
        q = {_mono_mul(m, inv): c for m, c in p.items()}
        k = q[_leading(q)]
        q = {m: c / k for m, c in q.items()}
        return k, mono, q

    def denominator(self, q):
        k, mono, q = self._normalise(q)
        for v, _ in mono:
            self.need_nonzero(v)
        inv = {tuple((v, -e) for v, e in mono): 1 / k}
        if len(q) == 1:
            return inv
        # clear negative exponents of other variables
        key = ("den", p_key(q))
        if key not in self.cache:
            z = rel(q, "==")
            if isinstance(z, bool):
                if z:
                    raise ZeroDivisionError("division by zero")
            elif bool(z):
                raise Unsupported("division by zero on a feasible path")
            var = self._var(f"den!{len(self.vars)}", base=False)
            if any(e < 0 for m in q for _, e in m):
                # q = cleared / mono2
                qq = q
            else:
                qq = q
            var.rule = (1, qq)
            qc = {
                m: c
                for m, c in p_add(
                    {((var.id, 1),): Fraction(1)}, p_scale(qq, -1)
                ).items()
            }
            self._define(var, qc)
            if self._obviously_positive(qq):
                var.positive = True
            self.cache.setdefault("nonzero", set()).add(var.id)
            var.cons.append(var.z != 0)
            self.cache[key] = var
        var = self.cache[key]
        return p_mul(inv, {((var.id, -1),): Fraction(1)})

    def _define(self, var, poly_zero):
        """Assert the defining equation poly_zero == 0 of var (clearing denominators)."""
        save = var.rule
        var.rule = None
        pc = p_clear(poly_zero)
        var.rule = save
        var.cons.append(p_z3(pc) == 0)
        self.link(var.id, p_vars(pc) - {var.id})

    def _obviously_positive(self, p):
        """Sum of positive terms."""
        strict = False
        for m, c in p.items():
            if c < 0:
                return False
            ok = all(e % 2 == 0 or self.vars[v].nonneg for v, e in m)
            if not ok:
                return False
            if all(self.vars[v].positive for v, e in m):
                strict = True
        return strict

    def _obviously_nonneg(self, p):
        return all(
            c >= 0 and all(e % 2 == 0 or self.vars[v].nonneg for v, e in m)
            for m, c in p.items()
        )

    def sqrt(self, x):
        p = x.p
        if not p:
            return ZERO
        # clear negative powers with even exponents: sqrt(p) = sqrt(p*M)/sqrt(M)
        mult = ONE
        for _ in range(20):
            mins = {}
            for m in p:
                for v, e in m:
                    if e < 0:
                        mins[v] = min(e, mins.get(v, 0))
            if not mins:
                break
            mono = tuple(sorted((v, -e + (-e) % 2) for v, e in mins.items()))
            for v, e in mono:
                mult = mult * self._abs_var(v) ** (e // 2)
            p = p_reduce({_mono_mul(m, mono): c for m, c in p.items()})
        if not p:
            return ZERO
        k, mono, q = self._normalise(p)
        if k < 0:
            k, q = -k, p_scale(q, -1)
        out = ONE
        odd = []
        for v, e in mono:
            if e // 2:
                out = out * self._abs_var(v) ** (e // 2)
            if e % 2:
                odd.append((v, 1))
        if odd:
            q = p_mul(q, {tuple(odd): Fraction(1)})
        r = _isqrt_frac(k)
        if r is not None:
            out = out * C(r)
        elif len(q) == 1 and () in q:
            q = p_scale(q, k)
        else:
            out = out * self.sqrt(C(k))
        root = _p_sqrt(q) if 2 < len(q) < 60 else None
        if root is not None:
            root = Sym(root)
            out = out * (root if bool(root >= 0) else -root)
        elif q != {(): Fraction(1)}:
            key = ("sqrt", p_key(q))
            if key not in self.cache:
                if not self._obviously_nonneg(q):
                    ok = rel(q, ">=")
                    if isinstance(ok, bool):
                        if not ok:
                            raise Unsupported("square root of a negative number")
                    elif not bool(ok):
                        raise Unsupported("square root of a negative number")
                var = self._var(f"sqrt!{len(self.vars)}", base=False, nonneg=True)
                var.positive = self._obviously_positive(q)
                var.rule = (2, q)
                var.cons.append(var.z >= 0)
                self._define(
                    var, p_add({((var.id, 2),): Fraction(1)}, p_scale(q, -1))
                )
                self.cache[key] = var
            out = out * self.sym(self.cache[key])
        return out / mult

    def mark_positive(self, x):
        """x, a square root of a number known to be positive on this path."""
        if len(x.p) == 1:
            ((m, c),) = x.p.items()
            if len(m) == 1 and m[0][1] == 1 and c > 0:
                var = self.vars[m[0][0]]
                if not var.positive:
                    var.positive = var.nonneg = True
                    var.cons.append(var.z > 0)
        return x

    def _abs_var(self, v):
        var = self.vars[v]
        s = self.sym(var)
        if var.nonneg:
            return s
        return self.absval(s)

    def cbrt(self, x):
        if x.is_const:
            for d in (1,):
                c = x.const
                s = -1 if c < 0 else 1
                n = round(abs(c.numerator) ** (1 / 3))
                dd = round(c.denominator ** (1 / 3))
                if n**3 == abs(c.numerator) and dd**3 == c.denominator:
                    return C(Fraction(s * n, dd))
        key = ("cbrt", p_key(x.p))
        if key not in self.cache:
            var = self._var(f"cbrt!{len(self.vars)}", base=False)
            var.rule = (3, x.p)
            self._define(var, p_add({((var.id, 3),): Fraction(1)}, p_scale(x.p, -1)))
            ge = rel(x.p, ">=")
            if (isinstance(ge, bool) and ge) or (
                not isinstance(ge, bool) and self.implied(ge)
            ):
                var.nonneg = True
                var.cons.append(var.z >= 0)
            self.cache[key] = var
        return self.sym(self.cache[key])

    def absval(self, x):
        k, mono, q = self._normalise(x.p)
        out = C(abs(k))
        rest = []
        for v, e in mono:
            if self.vars[v].nonneg or e % 2 == 0:
                out = out * Sym({((v, e),): Fraction(1)})
            else:
                rest.append((v, e))
        if rest:
            q = p_mul(q, {tuple(rest): Fraction(1)})
        if q == {(): Fraction(1)}:
            return out
        if self._obviously_nonneg(q):
            return out * Sym(q)
        if self._obviously_nonneg(p_scale(q, -1)):
            return out * Sym(p_scale(q, -1))
        key = ("abs", p_key(q))
        if key not in self.cache:
            var = self._var(f"abs!{len(self.vars)}", base=False, nonneg=True)
            var.rule = (2, p_mul(q, q))
            if any(e < 0 for m in q for _, e in m):
                var.cons.append(var.z >= 0)
                self._define(
                    var,
                    p_add({((var.id, 2),): Fraction(1)}, p_scale(p_mul(q, q), -1)),
                )
            else:
                e = p_z3(q)
                if z3.is_int(e):
                    e = z3.ToReal(e)
                var.cons.append(var.z == z3.If(e >= 0, e, -e))
                self.link(var.id, p_vars(q))
            self.cache[key] = var
        return out * self.sym(self.cache[key])

    def floor(self, x):
        if x.is_int:
            return x
        if x.is_const:
            return C(math.floor(x.const))
        key = ("floor", p_key(x.p))
        if key not in self.cache:
            var = self._var(f"floor!{len(self.vars)}", base=False, is_int=True)
            f = self.sym(var)
            for c in (f <= x, x < f + 1):
                if not isinstance(c, bool):
                    var.cons.append(c.z)
            self.link(var.id, p_vars(p_clear(x.p)))
            self.cache[key] = var
        return self.sym(self.cache[key])

    def rounded(self, x, n):
        n = int(n)
        if x.is_const:
            return C(Fraction(round(x.const * Fraction(10) ** n)) / Fraction(10) ** n)
        key = ("round", n, p_key(x.p))
        if key not in self.cache:
            var = self._var(f"round!{len(self.vars)}", base=False, is_int=True)
            f = self.sym(var)
            t = x * C(Fraction(10) ** n)
            for c in (f - t <= Fraction(1, 2), t - f <= Fraction(1, 2)):
                if not isinstance(c, bool):
                    var.cons.append(c.z)
            self.link(var.id, p_vars(p_clear(x.p)))
            self.cache[key] = var
        return self.sym(self.cache[key]) / C(Fraction(10) ** n)

    def _mod_two_pi(self, p):
        out = {}
        for m, c in p.items():
            d = dict(m)
            if d.get(PI_ID) == 1 and all(
                v == PI_ID or (self.vars[v].is_int and e > 0) for v, e in m
            ):
                if len(m) > 1 or True:
                    n = c / 2
                    if len(m) > 1:
                        if n.denominator == 1:
                            continue
                        c = c - 2 * (c // 2) if c.denominator == 1 else c
                    else:
                        c = c - 2 * math.floor(n)
                        if c > 1:
                            c -= 2
                    if not c:
                        continue
            out[m] = c
        return out

    def cossin(self, x):
        p = self._mod_two_pi(x.p)
        if not p:
            return ONE, ZERO
        if self.expand_trig and len(p) > 1:
            m = _leading(p)
            first = Sym({m: p[m]})
            rest = Sym({k: v for k, v in p.items() if k != m})
            c1, s1 = self.cossin(first)
            c2, s2 = self.cossin(rest)
            return c1 * c2 - s1 * s2, s1 * c2 + c1 * s2
        sign = 1
        if p[_leading(p)] < 0:
            p = p_scale(p, -1)
            sign = -1
        if list(p) == [((PI_ID, 1),)]:
            c = p[((PI_ID, 1),)]
            known = {
                Fraction(1, 6): (C(3).sqrt() / 2, C(Fraction(1, 2))),
                Fraction(1, 4): (C(2).sqrt() / 2, C(2).sqrt() / 2),
                Fraction(1, 3): (C(Fraction(1, 2)), C(3).sqrt() / 2),
                Fraction(1, 2): (ZERO, ONE),
                Fraction(2, 3): (C(Fraction(-1, 2)), C(3).sqrt() / 2),
                Fraction(3, 4): (-C(2).sqrt() / 2, C(2).sqrt() / 2),
                Fraction(5, 6): (-C(3).sqrt() / 2, C(Fraction(1, 2))),
                Fraction(1): (-ONE, ZERO),
            }
            if c in known:
                cc, ss = known[c]
                return cc, ss * sign
        # an angle defined by its cosine and sine
        if len(p) == 1:
            ((m, c),) = p.items()
            if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
                base = self.cache.get(("angle", m[0][0]))
                if base is None and self.expand_trig and c != 1:
                    base = self.cossin(Sym({m: Fraction(1)}))
                if base is not None:
                    cc, ss = ONE, ZERO
                    for _ in range(c.numerator):
                        cc, ss = cc * base[0] - ss * base[1], ss * base[0] + cc * base[1]
                    return cc, ss * sign
        key = ("trig", p_key(p))
        if key not in self.cache:
            n = len(self.vars)
            cv = self._var(f"cos!{n}", base=False)
            sv = self._var(f"sin!{n}", base=False)
            sv.rule = (2, {(): Fraction(1), ((cv.id, 2),): Fraction(-1)})
            e = cv.z * cv.z + sv.z * sv.z == 1
            b = z3.And(cv.z <= 1, cv.z >= -1, sv.z <= 1, sv.z >= -1)
            cv.cons += [e, b]
            sv.cons += [e, b]
            self.link(cv.id, {sv.id})
            self.link(sv.id, {cv.id})
            self.cache[key] = (self.sym(cv), self.sym(sv))
        c, s = self.cache[key]
        return c, s * sign

    def arccos(self, x):
        """Angle in [0, pi] with the given cosine."""
        if x.is_const:
            t = {
                Fraction(1): Fraction(0),
                Fraction(0): Fraction(1, 2),
                Fraction(-1): Fraction(1),
                Fraction(1, 2): Fraction(1, 3),
                Fraction(-1, 2): Fraction(2, 3),
            }
            if x.const in t:
                return self.pi * C(t[x.const])
        t = _SPECIAL.get((x * x).const) if (x * x).is_const else None
        if t is not None:
            return self.pi * C(t if bool(x > 0) else 1 - t)
        for c in (x <= 1, x >= -1):
            if not bool(c):
                raise Unsupported("arccos outside [-1, 1]")
        key = ("arccos", p_key(x.p))
        if key not in self.cache:
            var = self._var(f"arccos!{len(self.vars)}", base=False, nonneg=True)
            piz = self.vars[PI_ID].z
            var.cons += [var.z >= 0, var.z <= piz]
            if self.implied(x < 1):
                var.positive = True
                var.cons.append(var.z > 0)
            if self.implied(x > -1):
                var.cons.append(var.z < piz)
            self.link(var.id, {PI_ID})
            self.cache[("angle", var.id)] = (x, (1 - x * x).sqrt())
            self.cache[key] = var
        return self.sym(self.cache[key])

    def arctan2(self, y, x):
        y, x = C(y), C(x)
        key = ("arctan2", p_key(y.p), p_key(x.p))
        if key not in self.cache:
            r2 = x * x + y * y
            if bool(r2 == 0):
                return ZERO
            r = r2.sqrt()
            c2 = (x / r) * (x / r)
            t = _SPECIAL.get(c2.const) if c2.is_const else None
            if t is not None:
                t = t if bool(x > 0) else 1 - t
                return self.pi * C(t if t in (0, 1) or bool(y > 0) else -t)
            var = self._var(f"arctan2!{len(self.vars)}", base=False)
            piz = self.vars[PI_ID].z
            var.cons += [var.z > -piz, var.z <= piz]
            self.link(var.id, {PI_ID})
            self.cache[("angle", var.id)] = (x / r, y / r)
            self.cache[key] = var
        return self.sym(self.cache[key])

    def opaque(self, name, x):
        key = (name, p_key(x.p))
        if key not in self.cache:
            self.cache[key] = self._var(f"{name}!{len(self.vars)}", base=False)
        return self.sym(self.cache[key])

    # -- printed numbers ----------------------------------------------------------------
    def print_number(self, x, spec):
        """Text standing for format(x, spec): a long unique decimal literal."""
        import re

        m = re.fullmatch(
            r"(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?(,)?(?:\.(\d+))?([a-zA-Z%])?", spec
        )
        if m is None:
            raise ValueError(f"Invalid format specifier '{spec}'")
        prec, typ = m.group(8), m.group(9)
        if typ == "d":
            if not x.is_int:
                raise ValueError("Unknown format code 'd' for object of type 'float'")
            key = ("d",)
        elif x.is_int and typ is None:
            key = ("d",)
        elif typ in ("f", "F"):
            key = ("f", int(prec) if prec is not None else 6)
        elif typ in ("e", "E"):
            key = ("e", int(prec) if prec is not None else 6)
        elif typ in ("g", "G"):
            n = int(prec) if prec is not None else 6
            key = ("e", max(n, 1) - 1)
        elif typ is None and prec is None:
            key = ("r",)
        elif typ is None:
            key = ("e", max(int(prec), 1) - 1)
        else:
            raise Unsupported(f"format spec {spec!r}")
        full = ("print",) + key + (p_key(x.p),)
        if full not in self.cache:
            if key[0] in ("d", "r"):
                y = x
            else:
                var = self._var(f"print!{len(self.vars)}", base=False)
                y = self.sym(var)
                if key[0] == "f":
                    tol = C(Fraction(1, 2 * 10 ** key[1]))
                else:
                    tol = C(Fraction(1, 2 * 10 ** key[1])) * abs(x)
                for c in (y - x <= tol, x - y <= tol):
                    if not isinstance(c, bool):
                        var.cons.append(c.z)
                        self.link(var.id, set(c.vs) - {var.id})
            self.token_n += 1
            body = f"{9700000000000000000 + self.token_n}"
            tok = body if key[0] == "d" else f"{body}.{self.token_n:010d}"
            if key[0] == "e":
                tok = f"1.{body}{self.token_n:010d}e+00"
            if self.token_neg:
                tok = "-" + tok
            self.tokens[tok] = y
            self.cache[full] = tok
        tok = self.cache[full]
        if m.group(3) == "+" and not tok.startswith("-"):
            return "+" + tok
        if m.group(3) == " " and not tok.startswith("-"):
            return " " + tok
        return tok

    def parse_number(self, s):
        t = s.strip()
        if t in self.tokens:
            return self.tokens[t]
        if t[:1] in "+-" and t[1:] in self.tokens:
            y = self.tokens[t[1:]]
            return -y if t[0] == "-" else y
        if t.startswith("--"):
            return None
        return None

    # -- models -------------------------------------------------------------------------
    def components(self, extra=()):
        """All constraints grouped by connected variables."""
        cons = [(z, set(vs)) for z, vs in self.path] + [
            (b.z, set(b.vs)) for b in extra
        ]
        for v in self.vars:
            for c in v.cons:
                vs = {v.id} | getattr(self, "_links", {}).get(v.id, set())
                if v.rule is not None:
                    vs |= p_vars(v.rule[1])
                cons.append((c, vs))
        parent = list(range(len(self.vars)))

        def find(a):
            while parent[a] != a:
                parent[a] = parent[parent[a]]
                a = parent[a]
            return a

        for _, vs in cons:
            vs = list(vs)
            for a in vs[1:]:
                parent[find(a)] = find(vs[0])
        groups = {}
        for z, vs in cons:
            if vs:
                groups.setdefault(find(next(iter(vs))), []).append(z)
            else:
                groups.setdefault(-1, []).append(z)
        members = {}
        for v in self.vars:
            members.setdefault(find(v.id), []).append(v)
        return groups, members

    def _all_at_once(self, base, cons, generic):
        """Generic values for all base variables together, or None."""
        if len(cons) > 400:
            return None
        for _ in range(4):
            vals, done = {}, set()
            ids = {v.id for v in base}
            for group in self.cache.get("units", []):
                if set(group) <= ids:
                    u = list(generic.choice(UNITS))
                    generic.shuffle(u)
                    for i, x in zip(group, u):
                        vals[i] = x * generic.choice([1, -1])
            for v in base:
                if v.id in vals:
                    continue
                if v.is_int:
                    vals[v.id] = Fraction(generic.choice([-2, -1, 0, 1, 2]))
                else:
                    sgn = 1 if v.nonneg or generic.random() < 0.6 else -1
                    vals[v.id] = Fraction(sgn * generic.randint(3, 39), 10)
            sub = [
                (v.z, z3.IntVal(int(vals[v.id])) if v.is_int else z3.Q(vals[v.id].numerator, vals[v.id].denominator))
                for v in base
            ]
            s = z3.Solver()
            s.set("timeout", 500)
            bad = False
            for c in cons:
                c = z3.simplify(z3.substitute(c, *sub))
                if z3.is_false(c):
                    bad = True
                    break
                s.add(c)
            if bad:
                continue
            self.stats.queries += 1
            with Guard(500):
                r = s.check()
            if r == z3.sat:
                return {
                    v.name: int(vals[v.id]) if v.is_int else float(vals[v.id]) for v in base
                }
        return None

    def model(self, extra=(), generic=None, ms=4000):
        """Values of the base variables on this path (plus extra conditions).

        generic: random.Random; then free variables get generic rational values first,
        each kept only when the solver says it is compatible.
        """
        groups, members = self.components(extra)
        env = {}
        for root, vs in members.items():
            cons = list(groups.get(root, []))
            base = [v for v in vs if v.base]
            if not base:
                continue
            s = z3.Solver()
            s.set("timeout", ms)
            s.add(*cons)
            quick = self._all_at_once(base, cons, generic) if generic is not None else None
            if quick is not None:
                env.update(quick)
                continue
            if generic is not None:
                ids = {v.id for v in base}
                done = set()
                for group in self.cache.get("units", []):
                    if not set(group) <= ids:
                        continue
                    for _ in range(4):
                        u = list(generic.choice(UNITS))
                        generic.shuffle(u)
                        u = [x * generic.choice([1, -1]) for x in u]
                        s.push()
                        s.add(*[self.vars[i].z == z3.Q(x.numerator, x.denominator) for i, x in zip(group, u)])
                        s.set("timeout", 400)
                        self.stats.queries += 1
                        with Guard(400):
                            r = s.check()
                        if r == z3.sat:
                            done.update(group)
                            break
                        s.pop()
                for v in base:
                    if v.id in done:
                        continue
                    if v.is_int:
                        val = z3.IntVal(generic.choice([-2, -1, 0, 1, 2]))
                    else:
                        num = generic.randint(3, 39)
                        sgn = 1 if v.nonneg or generic.random() < 0.6 else -1
                        val = z3.Q(sgn * num, 10)
                    s.push()
                    s.add(v.z == val)
                    s.set("timeout", 400)
                    self.stats.queries += 1
                    with Guard(400):
                        r = s.check()
                    if r != z3.sat:
                        s.pop()
                s.set("timeout", ms)
            t = time.time()
            with Guard(ms):
                r = s.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r != z3.sat:
                if r == z3.unsat:
                    return None
                t2 = z3.Tactic("qfnra-nlsat").solver()
                t2.set("timeout", ms)
                t2.add(*cons)
                try:
                    with Guard(ms):
                        r = t2.check()
                    if r != z3.sat:
                        return None
                    s = t2
                except z3.Z3Exception:
                    return None
            m = s.model()
            for v in base:
                val = m.eval(v.z, model_completion=True)
                env[v.name] = z3_number(val)
        return env


UNITS = [
    [Fraction(a, d), Fraction(b, d), Fraction(c, d)]
    for a, b, c, d in [(1, 2, 2, 3), (2, 3, 6, 7), (4, 4, 7, 9), (1, 4, 8, 9), (2, 6, 9, 11), (6, 6, 7, 11), (3, 4, 12, 13)]
]


def z3_number(val):
    if z3.is_int_value(val):
        return val.as_long()
    if z3.is_rational_value(val):
        f = Fraction(val.numerator_as_long(), val.denominator_as_long())
        return float(f)
    if z3.is_algebraic_value(val):
        a = val.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    raise Unsupported(f"model value {val}")
