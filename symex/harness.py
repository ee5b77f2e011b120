"""The interface a property harness is written against, symbolic and concrete.

The same harness runs (a) symbolically over all values of its inputs and (b) concretely,
on unpatched numpy and the real package, for replay of a counterexample.
"""
import math
import random
import shutil
import tempfile
from fractions import Fraction


class Violation(Exception):
    """Concrete run: the property does not hold."""

    def __init__(self, label, detail=""):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail


class Skip(Exception):
    """Concrete run: the inputs do not satisfy the precondition."""


class Base:
    def scratch(self):
        if getattr(self, "_tmp", None) is None:
            self._tmp = tempfile.mkdtemp(prefix="verif_")
        return self._tmp

    def close(self):
        if getattr(self, "_tmp", None) is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def reals(self, name, n, **kw):
        return [self.real(f"{name}{i}", **kw) for i in range(n)]

    def vector(self, name, **kw):
        return self.np.array(
            [self.real(f"{name}_{c}", **kw) for c in "xyz"], dtype=self.float
        )

    def matrix(self, name, **kw):
        return self.np.array(
            [[self.real(f"{name}_{a}{b}", **kw) for b in "xyz"] for a in "xyz"],
            dtype=self.float,
        )

    def ints(self, name, n=3, **kw):
        return tuple(self.int(f"{name}{i}", **kw) for i in range(n))

    def raises(self, fn, *exc):
        """The exception of the given types raised by fn(), or None."""
        try:
            fn()
        except exc as e:
            return e
        return None


# ---------------------------------------------------------------------------------------
class Concrete(Base):
    symbolic = False

    def __init__(self, env, choices, tol=1e-6):
        import numpy

        self.env = env
        self.choices = choices
        self.np = numpy
        self.float = float
        self.pi = math.pi
        self.checked = []
        self.tol = tol
        self.observed = []

    def _get(self, name, default):
        return self.env.get(name, default)

    def real(self, name, positive=False, nonzero=False, lo=None, hi=None):
        v = float(self._get(name, 1.0))
        if positive and v <= 0 or nonzero and v == 0:
            raise Skip(name)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Skip(name)
        return v

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, 0 if lo is None else lo))

    def unit(self, name):
        v = self.np.array([self._get(f"{name}_{c}", 1.0) for c in "xyz"], dtype=float)
        n = self.np.linalg.norm(v)
        if n == 0:
            raise Skip(name)
        return v / n

    def boolean(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, options):
        return options[self.choices.get(name, 0)]

    def assume(self, cond):
        if not bool(cond):
            raise Skip("assumption")

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def land(self, *xs):
        return all(bool(x) for x in xs)

    def lor(self, *xs):
        return any(bool(x) for x in xs)

    def lnot(self, x):
        return not bool(x)

    def exact(self, v):
        return v

    def frac(self, a, b=1):
        return a / b

    def sqrt(self, x):
        return math.sqrt(x)

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def cis(self, x):
        return complex(math.cos(x), math.sin(x))

    def eq(self, a, b, label, tol=None, scale=None):
        np = self.np
        self.checked.append(label)
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Violation(label, f"shape {a.shape} != {b.shape}")
        if a.size == 0:
            return
        if a.dtype == object or b.dtype == object:
            try:
                a, b = a.astype(complex), b.astype(complex)
            except (TypeError, ValueError):
                if not (a == b).all():
                    raise Violation(label, f"{a} != {b}")
                return
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            if np.isnan(a).any() or np.isnan(b).any():
                raise Violation(label, f"nan: {a} vs {b}")
            m = max(1e-3, float(np.abs(a).max()), float(np.abs(b).max()), abs(float(scale or 0)))
            d = float(np.abs(a - b).max())
            t = self.tol * m if tol is None else float(tol) + 1e-9 * m
            if d > t:
                raise Violation(label, f"{a.tolist()} != {b.tolist()} (difference {d:.3g})")
        elif not (a == b).all():
            raise Violation(label, f"{a.tolist()} != {b.tolist()}")

    def true(self, cond, label, detail=""):
        self.checked.append(label)
        if not bool(cond):
            raise Violation(label, detail or "condition is false")

    def le(self, a, b, label):
        """a <= b up to rounding."""
        self.checked.append(label)
        m = max(1e-12, abs(float(a)), abs(float(b)))
        if not float(a) <= float(b) + self.tol * m:
            raise Violation(label, f"{a} > {b}")

    def same(self, a, b, label):
        """Equality of non-numeric structure (strings, sets, lists of atoms...)."""
        self.checked.append(label)
        if a != b:
            raise Violation(label, f"{a!r} != {b!r}")

    def fail(self, label, detail=""):
        raise Violation(label, detail)

    @property
    def h5py(self):
        import h5py

        return h5py

    def neg_tokens(self, on=True):
        pass

    def expand_trig(self, on=True):
        pass

    def fresh(self, name, **kw):
        return self.real(name, **kw)

    def parse(self, text):
        """The number a printed text stands for."""
        return float(text)

    def num(self, v):
        """The text of a number in an input file."""
        return repr(v) if not isinstance(v, str) else v


# ---------------------------------------------------------------------------------------
class Symbolic(Base):
    symbolic = True

    def __init__(self, context, rng=None):
        from . import core, symnp

        self.core = core
        self.ctx = context
        self.np = symnp.numpy
        self.float = float
        self.pi = context.pi
        self.checked = []
        self.rng = rng or random.Random(1)
        self.units = context.cache.setdefault("units", [])

    # -- inputs
    def real(self, name, positive=False, nonzero=False, lo=None, hi=None):
        v = self.ctx._var(name, positive=positive, nonneg=positive or (lo is not None and lo >= 0))
        if lo is not None and lo > 0:
            v.positive = True
        if positive:
            v.cons.append(v.z > 0)
        if nonzero:
            v.cons.append(v.z != 0)
            self.ctx.cache.setdefault("nonzero", set()).add(v.id)
        if lo is not None:
            f = self.core.rat(lo)
            v.cons.append(v.z >= self.core.z3.Q(f.numerator, f.denominator))
        if hi is not None:
            f = self.core.rat(hi)
            v.cons.append(v.z <= self.core.z3.Q(f.numerator, f.denominator))
        return self.ctx.sym(v)

    fresh = real

    def int(self, name, lo=None, hi=None):
        v = self.ctx._var(name, is_int=True)
        if lo is not None:
            v.cons.append(v.z >= lo)
        if hi is not None:
            v.cons.append(v.z <= hi)
        return self.ctx.sym(v)

    def unit(self, name):
        vs = [self.ctx._var(f"{name}_{c}") for c in "xyz"]
        x, y, z = vs
        one = Fraction(1)
        z.rule = (2, {(): one, ((x.id, 2),): -one, ((y.id, 2),): -one})
        c = x.z * x.z + y.z * y.z + z.z * z.z == 1
        for v in vs:
            v.cons.append(c)
            self.ctx.link(v.id, {w.id for w in vs} - {v.id})
        self.units.append([v.id for v in vs])
        return self.np.array([self.ctx.sym(v) for v in vs], dtype=float)

    def boolean(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, options):
        k = self.ctx.choose(len(options)) if len(options) > 1 else 0
        self.ctx.choices[name] = k
        return options[k]

    def assume(self, cond):
        self.ctx.assume(cond)

    def implies(self, a, b):
        return self.core.b_or([self.core.b_not(a), b])

    def land(self, *xs):
        return self.core.b_and(xs)

    def lor(self, *xs):
        return self.core.b_or(xs)

    def lnot(self, x):
        return self.core.b_not(x)

    def exact(self, v):
        return self.core.C(v)

    def frac(self, a, b=1):
        return self.core.C(a) / b

    def sqrt(self, x):
        return self.core.C(x).sqrt()

    def cos(self, x):
        return self.core.C(x).cos()

    def sin(self, x):
        return self.core.C(x).sin()

    def cis(self, x):
        c, s = self.ctx.cossin(self.core.C(x))
        return self.core.SymC(c, s)

    # -- obligations
    def _flat(self, a):
        from . import symnp

        p = symnp.plain(a)
        return p.shape, [symnp._scalar(v) for v in p.reshape(-1)]

    def eq(self, a, b, label, tol=None, scale=None):
        core = self.core
        self.checked.append(label)
        sa, fa = self._flat(a)
        sb, fb = self._flat(b)
        if sa != sb:
            self._obligation(False, label, f"shape {sa} != {sb}")
            return
        parts, vs, big = [], set(), []
        trivially = True
        for x, y in zip(fa, fb):
            xs = (x.re, x.im) if isinstance(x, core.SymC) else (x,)
            ys = (y.re, y.im) if isinstance(y, core.SymC) else (y,)
            if len(xs) != len(ys):
                xs = (core.SymC.lift(x).re, core.SymC.lift(x).im)
                ys = (core.SymC.lift(y).re, core.SymC.lift(y).im)
            for u, w in zip(xs, ys):
                if core.as_poly(u) is None or core.as_poly(w) is None:
                    if bool(core.sym_eq(u, w)) is not True:
                        self._obligation(False, label, f"{u!r} != {w!r}")
                    continue
                if tol is not None:
                    t = core.C(tol)
                    ok = core.b_and([core.C(u) - w <= t, core.C(w) - u <= t])
                    if ok is True:
                        continue
                    trivially = False
                    parts.append(core.b_not(ok))
                    big.append(parts[-1])
                    continue
                d = core.C(u) - w
                c = core.p_clear(d.p)
                # both sides, brought over a common positive denominator
                l, r = _common(core, core.as_poly(u), core.as_poly(w))
                z = core.p_z3(l) != core.p_z3(r)
                parts.append(core.SymBool(z, core.p_vars(l) | core.p_vars(r)))
                if c:
                    trivially = False
                    # a visible difference, for a counterexample that survives rounding
                    dd = core.Sym(c)
                    lim = core.C(Fraction(1, 50))
                    big.append(core.b_or([dd >= lim, dd <= -lim]))
        bad = core.b_or(parts) if parts else False
        self._obligation(core.b_not(bad), label, "", big=big if not trivially else None)

    def true(self, cond, label, detail=""):
        self.checked.append(label)
        self._obligation(cond, label, detail)

    def le(self, a, b, label):
        self.checked.append(label)
        a, b = self.core.C(a), self.core.C(b)
        ok = a <= b
        self._obligation(ok, label, "", big=[a >= b + Fraction(1, 50)])

    def same(self, a, b, label):
        self.checked.append(label)
        r = self.core.sym_eq(a, b) if not isinstance(a, (list, set)) else None
        if r is None:
            r = self._struct_eq(a, b)
        self._obligation(r, label, f"{a!r} != {b!r}")

    def _struct_eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.core.b_and([self._struct_eq(x, y) for x, y in zip(a, b)])
        r = self.core.sym_eq(a, b)
        return r

    def fail(self, label, detail=""):
        self._obligation(False, label, detail)

    def _obligation(self, ok, label, detail, big=None):
        core, ctx = self.core, self.ctx
        ctx.stats.obligations += 1
        if not isinstance(ok, core.SymBool):
            ok = bool(ok)
        if ok is True:
            # decided by evaluation: still a (trivial) query, so that it is counted
            return
        if ok is False:
            raise core.PropertyViolated(label, None, detail)
        bad = core.b_not(ok)
        if big is not None and any(x is True for x in big):
            big = None
        cons, _ = ctx._closure(bad.vs)
        r = ctx._solve(cons + [bad.z], ctx.opt["prop_ms"])
        if r == core.z3.unsat:
            ctx.path.append((ok.z, ok.vs))
            return
        if r == core.z3.unknown:
            ctx.stats.unknown_labels.append(label)
            ctx.soft_labels.append((label, bad, big))
            return
        raise core.PropertyViolated(label, (bad, big), detail)

    @property
    def h5py(self):
        from . import extern

        return extern.h5py_proxy()

    def neg_tokens(self, on=True):
        self.ctx.token_neg = on

    def expand_trig(self, on=True):
        self.ctx.expand_trig = on

    def parse(self, text):
        v = self.ctx.parse_number(text)
        return self.core.C(float(text)) if v is None else v

    def num(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, self.core.Sym):
            return format(v, "")
        return repr(v)


def _common(core, l, r):
    """Both polynomials multiplied by the same positive monomial, no negative exponents."""
    vs = core.CUR.vars
    for _ in range(20):
        mins = {}
        for p in (l, r):
            for m in p:
                for v, e in m:
                    if e < 0 and e < mins.get(v, 0):
                        mins[v] = e
        if not mins:
            return l, r
        mono = []
        for v, e in mins.items():
            e = -e
            if not vs[v].positive and e % 2:
                e += 1
            mono.append((v, e))
        mono = tuple(sorted(mono))
        l = core.p_reduce({core._mono_mul(m, mono): c for m, c in l.items()})
        r = core.p_reduce({core._mono_mul(m, mono): c for m, c in r.items()})
    raise core.Unsupported("denominators")
