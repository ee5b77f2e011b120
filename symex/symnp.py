"""numpy as the analysed code sees it: every float array holds exact symbolic numbers.

Object-dtype arrays (class SymArray) carry Sym / SymC elements; numpy's own shape, slicing,
broadcasting, matmul and reduction machinery does the rest.  Only functions that need a
float C kernel (norm, det, inv, isclose, ...) are re-implemented here over exact numbers.
"""
import builtins
import types

import numpy as real_np

from . import core
from .core import C, ONE, ZERO, Fraction, Sym, SymBool, SymC, Unsupported, b_and, b_not, b_or

FLOATS = (float, real_np.floating)


def _scalar(x):
    """Exact version of one array element."""
    if isinstance(x, (Sym, SymC, SymBool)):
        return x
    if isinstance(x, (bool, real_np.bool_)):
        return bool(x)
    if isinstance(x, (int, real_np.integer)):
        return int(x)
    if isinstance(x, FLOATS):
        if x != x or x in (float("inf"), float("-inf")):
            return float(x)
        return C(float(x))
    if isinstance(x, Fraction):
        return C(x)
    if isinstance(x, (complex, real_np.complexfloating)):
        return SymC(x.real, x.imag)
    return x


def _to_float(x):
    if x is None:
        return float("nan")
    x = _scalar(x)
    if isinstance(x, bool):
        return C(int(x))
    if isinstance(x, int):
        return C(x)
    if isinstance(x, str):
        return sfloat(x)
    if isinstance(x, (Sym, float)):
        return x
    if isinstance(x, SymC):
        raise TypeError("can't convert complex to float")
    if isinstance(x, SymBool):
        return C(1) if x else C(0)
    if x is None:
        raise TypeError("float() argument must be a string or a real number")
    raise ValueError("setting an array element with a sequence.")


def _to_complex(x):
    x = _scalar(x)
    if isinstance(x, SymC):
        return x
    return SymC(_to_float(x), 0)


def _to_int(x):
    x = _scalar(x)
    if isinstance(x, Sym):
        return x if x.is_int and not x.is_const else int(x)
    return int(x)


# ------------------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, Sym) and (x.is_const or not x.is_int)

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, Sym))

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class sfloat(metaclass=_FloatMeta):
    """float() for the analysed modules."""

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, (str, bytes)) or hasattr(type(x), "__symstr__"):
            if hasattr(type(x), "__symstr__"):
                return x.to_float()
            if isinstance(x, bytes):
                x = x.decode()
            if core.CUR is not None:
                y = core.CUR.parse_number(x)
                if y is not None:
                    return y
            v = float(x)
            if v != v or v in (float("inf"), float("-inf")):
                return v
            try:
                return C(Fraction(x.strip()))
            except ValueError:
                return C(v)
        if isinstance(x, SymC):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        if isinstance(x, real_np.ndarray):
            if x.size == 1:
                return _to_float(x.reshape(-1)[0])
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        if isinstance(x, SymBool):
            return C(1) if x else C(0)
        v = float(x)
        if v != v or v in (float("inf"), float("-inf")):
            return v
        return C(v)

    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or isinstance(x, Sym) and x.is_int

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class sint(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            if x.is_const:
                return int(x.const)
            if x.is_int:
                return x
            return x.__trunc__()
        if hasattr(type(x), "__symstr__"):
            return x.to_int()
        if isinstance(x, str) and core.CUR is not None:
            y = core.CUR.parse_number(x)
            if y is not None:
                if not y.is_int:
                    raise ValueError(f"invalid literal for int() with base 10: {x!r}")
                return y
        return int(x, *a)

    from_bytes = int.from_bytes


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (complex, SymC))

    def __eq__(cls, o):
        return o is cls or o is complex

    def __hash__(cls):
        return hash(complex)


class scomplex(metaclass=_ComplexMeta):
    def __new__(cls, re=0, im=0):
        a = SymC.lift(re)
        return a + SymC(0, 1) * im


def _kind(dtype):
    """None | 'float' | 'complex' | 'int' | 'bool' | 'object' | 'other'"""
    if dtype is None:
        return None
    if dtype is sfloat or dtype is float or dtype in ("float", "float64", "f8", "d"):
        return "float"
    if dtype is scomplex or dtype is complex or dtype in ("complex", "complex128", "c16"):
        return "complex"
    if dtype is sint or dtype is int or dtype in ("int", "int64"):
        return "int"
    if dtype is bool or dtype == "bool":
        return "bool"
    if dtype is object or dtype == "object":
        return "object"
    try:
        k = real_np.dtype(dtype).kind
    except TypeError:
        return "other"
    return {"f": "float", "c": "complex", "i": "int", "u": "int", "b": "bool", "O": "object"}.get(
        k, "other"
    )


# -------------------------------------------------------------------------------- arrays
class SymArray(real_np.ndarray):
    __array_priority__ = 2000

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_wrap__(self, a, context=None):
        return a

    @property
    def __array_interface__(self):
        return {"__symarray__": self}

    def __deepcopy__(self, memo):
        return real_np.ndarray.copy(self)

    @property
    def real(self):
        return _map(self, lambda x: x.re if isinstance(x, SymC) else x)

    @property
    def imag(self):
        return _map(self, lambda x: x.im if isinstance(x, SymC) else ZERO)

    def conj(self):
        return _map(self, lambda x: x.conjugate() if hasattr(x, "conjugate") else x)

    conjugate = conj

    def all(self, axis=None, out=None, keepdims=False, **kw):
        if axis is None:
            return b_and(list(self.reshape(-1).view(real_np.ndarray)))
        return real_np.apply_along_axis(lambda r: b_and(list(r)), axis, self.view(real_np.ndarray))

    def any(self, axis=None, out=None, keepdims=False, **kw):
        if axis is None:
            return b_or(list(self.reshape(-1).view(real_np.ndarray)))
        return real_np.apply_along_axis(lambda r: b_or(list(r)), axis, self.view(real_np.ndarray))

    def astype(self, dtype, **kw):
        return wrap(_cast(self.view(real_np.ndarray), _kind(dtype)))

    def sum(self, axis=None, dtype=None, out=None, **kw):
        r = real_np.add.reduce(self.view(real_np.ndarray), axis=axis, **kw)
        return wrap(r)

    def mean(self, axis=None, **kw):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def round(self, decimals=0, out=None):
        return _map(self, lambda x: builtins.round(x, decimals))

    def tolist(self):
        return self.view(real_np.ndarray).tolist()

    def __format__(self, spec):
        return str(self)

    def __getitem__(self, k):
        return real_np.ndarray.__getitem__(self, _mask(k))

    def __setitem__(self, k, v):
        k = _mask(k)
        real_np.ndarray.__setitem__(self, k, plain(v) if isinstance(v, (real_np.ndarray, list, tuple)) else _scalar(v))

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __contains__(self, x):
        return bool((self == x).any())


def _mask(k):
    """A mask of symbolic conditions is decided entry by entry."""
    if isinstance(k, real_np.ndarray) and k.dtype == object and k.size:
        f = k.reshape(-1).view(real_np.ndarray)
        if all(isinstance(x, (bool, real_np.bool_, SymBool)) for x in f):
            return real_np.array([bool(x) for x in f], dtype=bool).reshape(k.shape)
    return k


def _map(a, f):
    p = a.view(real_np.ndarray)
    out = real_np.empty(p.shape, dtype=object)
    fo, fi = out.reshape(-1), p.reshape(-1)
    for i in range(fi.shape[0]):
        fo[i] = f(fi[i])
    if out.shape == ():
        return fo[0]
    return out.view(SymArray)


def wrap(r):
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, real_np.ndarray):
        if r.dtype == object:
            if r.shape == ():
                return r.item()
            return r.view(SymArray)
        if r.dtype.kind in "fc":
            return wrap(_cast(r, "float" if r.dtype.kind == "f" else "complex"))
        return r
    if isinstance(r, (real_np.floating, real_np.complexfloating)):
        return _scalar(r)
    return r


def plain(x):
    """Plain ndarray (object when symbolic) of anything array-like."""
    if isinstance(x, SymArray):
        return x.view(real_np.ndarray)
    if isinstance(x, real_np.ndarray):
        if x.dtype.kind in "fc":
            return _cast(x, "float" if x.dtype.kind == "f" else "complex")
        return x
    if isinstance(x, (Sym, SymC, SymBool)):
        a = real_np.empty((), dtype=object)
        a[()] = x
        return a
    ai = getattr(x, "__array_interface__", None)
    if isinstance(ai, dict) and "__symarray__" in ai:
        return ai["__symarray__"].view(real_np.ndarray)
    if isinstance(x, (list, tuple)):
        return _from_nested(x)
    if isinstance(x, (float, complex, real_np.floating, real_np.complexfloating)):
        return plain(_scalar(x))
    if isinstance(x, (map, filter, types.GeneratorType)):
        return real_np.array(x)
    if hasattr(x, "__array__"):
        return plain(real_np.asarray(x.__array__()))
    return real_np.asarray(x)


def _nested_shape(x):
    """Shape of a nested list; ValueError when ragged."""
    if isinstance(x, real_np.ndarray):
        return x.shape
    ai = None
    if not isinstance(x, (Sym, SymC, SymBool, str, bytes, int, float, complex)):
        ai = getattr(x, "__array_interface__", None)
    if isinstance(ai, dict):
        if "__symarray__" in ai:
            return ai["__symarray__"].shape
        return tuple(ai["shape"])
    if isinstance(x, (list, tuple, range)):
        if len(x) == 0:
            return (0,)
        shapes = [_nested_shape(y) for y in x]
        if any(s != shapes[0] for s in shapes):
            raise ValueError(
                "setting an array element with a sequence. The requested array has an "
                "inhomogeneous shape"
            )
        return (len(x),) + shapes[0]
    return ()


def _leaves(x):
    if isinstance(x, real_np.ndarray):
        if isinstance(x, SymArray):
            x = x.view(real_np.ndarray)
        yield from (_scalar(y) for y in x.reshape(-1))
    elif isinstance(x, (list, tuple, range)):
        for y in x:
            yield from _leaves(y)
    elif not isinstance(x, (Sym, SymC, SymBool, str, bytes, int, float, complex)) and isinstance(
        getattr(x, "__array_interface__", None), dict
    ):
        yield from _leaves(plain(x))
    else:
        yield _scalar(x)


def _from_nested(x):
    shape = _nested_shape(x)
    leaves = list(_leaves(x))
    if all(isinstance(v, (int, bool, str, bytes)) for v in leaves) and leaves:
        return real_np.array(leaves).reshape(shape)
    out = real_np.empty(len(leaves), dtype=object)
    for i, v in enumerate(leaves):
        out[i] = v
    return out.reshape(shape)


def _cast(a, kind):
    if isinstance(a, SymArray):
        a = a.view(real_np.ndarray)
    if kind is None or kind == "object":
        if a.dtype.kind in "fc":
            return _cast(a, "float" if a.dtype.kind == "f" else "complex")
        return a.copy()
    if kind in ("float", "complex"):
        f = _to_float if kind == "float" else _to_complex
        out = real_np.empty(a.size, dtype=object)
        for i, v in enumerate(a.reshape(-1)):
            out[i] = f(v)
        return out.reshape(a.shape)
    if kind == "int":
        vals = [_to_int(v) for v in a.reshape(-1)]
        if any(isinstance(v, Sym) for v in vals):
            out = real_np.empty(a.size, dtype=object)
            for i, v in enumerate(vals):
                out[i] = v
            return out.reshape(a.shape)
        return real_np.array(vals, dtype=int).reshape(a.shape)
    if kind == "bool":
        return real_np.array([bool(v) for v in a.reshape(-1)], dtype=bool).reshape(a.shape)
    raise Unsupported(f"dtype {kind}")


def is_symbolic_like(x):
    return isinstance(x, (Sym, SymC, SymBool, SymArray))


CMP = {
    real_np.equal: lambda a, b: a == b,
    real_np.not_equal: lambda a, b: a != b,
    real_np.less: lambda a, b: a < b,
    real_np.less_equal: lambda a, b: a <= b,
    real_np.greater: lambda a, b: a > b,
    real_np.greater_equal: lambda a, b: a >= b,
    real_np.logical_and: lambda a, b: b_and([_tb(a), _tb(b)]),
    real_np.logical_or: lambda a, b: b_or([_tb(a), _tb(b)]),
    real_np.bitwise_and: lambda a, b: b_and([a, b]),
    real_np.bitwise_or: lambda a, b: b_or([a, b]),
}


def _tb(x):
    if isinstance(x, (SymBool, bool)):
        return x
    return x != 0


def _dunder(name):
    def f(a):
        return getattr(C(a) if not isinstance(a, (Sym, SymC, SymBool)) else a, name)()

    return f


UNARY = {
    real_np.sqrt: _dunder("sqrt"),
    real_np.cbrt: _dunder("cbrt"),
    real_np.cos: _dunder("cos"),
    real_np.sin: _dunder("sin"),
    real_np.tan: _dunder("tan"),
    real_np.arccos: _dunder("arccos"),
    real_np.arcsin: _dunder("arcsin"),
    real_np.exp: _dunder("exp"),
    real_np.absolute: lambda a: abs(a),
    real_np.fabs: lambda a: abs(a),
    real_np.conjugate: lambda a: a.conjugate() if hasattr(a, "conjugate") else a,
    real_np.square: lambda a: a * a,
    real_np.reciprocal: lambda a: 1 / a,
    real_np.negative: lambda a: -a,
    real_np.positive: lambda a: a,
    real_np.deg2rad: _dunder("deg2rad"),
    real_np.radians: _dunder("deg2rad"),
    real_np.rad2deg: _dunder("rad2deg"),
    real_np.degrees: _dunder("rad2deg"),
    real_np.floor: _dunder("floor"),
    real_np.ceil: _dunder("ceil"),
    real_np.rint: _dunder("rint"),
    real_np.trunc: lambda a: C(a).__trunc__(),
    real_np.sign: _dunder("sign"),
    real_np.isfinite: lambda a: True,
    real_np.isnan: lambda a: False,
    real_np.isinf: lambda a: False,
    real_np.logical_not: lambda a: b_not(_tb(a)),
    real_np.invert: lambda a: b_not(a),
    real_np.log: _dunder("log"),
}
BINARY = {
    real_np.arctan2: lambda a, b: C(a).arctan2(b),
    real_np.maximum: lambda a, b: a if bool(a >= b) else b,
    real_np.minimum: lambda a, b: a if bool(a <= b) else b,
    real_np.fmax: lambda a, b: a if bool(a >= b) else b,
    real_np.fmin: lambda a, b: a if bool(a <= b) else b,
    real_np.hypot: lambda a, b: (C(a) * a + C(b) * b).sqrt(),
    real_np.power: lambda a, b: a**b,
    real_np.float_power: lambda a, b: C(a) ** b,
    real_np.true_divide: lambda a, b: _div(a, b),
    real_np.floor_divide: lambda a, b: a // b,
    real_np.remainder: lambda a, b: a % b,
}


def _div(a, b):
    if not isinstance(a, (Sym, SymC)) and not isinstance(b, (Sym, SymC)):
        a = C(a)
    return a / b


def _where_ufunc(ufunc, method, ins, out, where, kwargs):
    """A ufunc evaluated only where the mask holds (the mask is decided element by element)."""
    if method != "__call__" or ufunc is real_np.matmul or ufunc.nout != 1:
        raise Unsupported("ufunc where=")
    o = out[0] if isinstance(out, tuple) else out
    if o is None:
        raise Unsupported("ufunc where= without out=")
    if o.dtype != object:
        raise Unsupported("symbolic result written into a float array")
    mask = real_np.broadcast_to(plain(where), o.shape)
    ins = [real_np.broadcast_to(x, o.shape) for x in ins]
    target = o.view(real_np.ndarray)
    decided = {}
    for idx in real_np.ndindex(*o.shape):
        w = mask[idx]
        if isinstance(w, (bool, real_np.bool_)):
            yes = bool(w)
        else:
            if id(w) not in decided:
                decided[id(w)] = (bool(w), w)
            yes = decided[id(w)][0]
        if yes:
            r = array_ufunc(ufunc, method, *[x[idx] for x in ins], **kwargs)
            target[idx] = r.item() if isinstance(r, real_np.ndarray) else r
    return o


def array_ufunc(ufunc, method, *inputs, out=None, where=True, **kwargs):
    ins = [plain(x) for x in inputs]
    if where is not True:
        return _where_ufunc(ufunc, method, ins, out, where, kwargs)
    kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    if method == "__call__":
        if ufunc is real_np.matmul:
            r = ufunc(*[x if x.dtype == object else x.astype(object) for x in ins])
        else:
            f = CMP.get(ufunc) or UNARY.get(ufunc) or BINARY.get(ufunc)
            if f is not None:
                g = real_np.frompyfunc(f, ufunc.nin, 1)
                r = g(*ins)
            else:
                r = ufunc(
                    *[x if x.dtype == object else x.astype(object) for x in ins], **kwargs
                )
    elif method == "reduce" and ufunc in (real_np.logical_and, real_np.logical_or):
        a = ins[0].view(SymArray)
        axis = kwargs.get("axis", 0)
        r = a.all(axis=axis) if ufunc is real_np.logical_and else a.any(axis=axis)
        return r
    elif method == "reduce" and ufunc in (real_np.maximum, real_np.minimum):
        f = BINARY[ufunc]
        g = real_np.frompyfunc(f, 2, 1)
        r = g.reduce(ins[0], axis=kwargs.get("axis", 0))
    elif method == "at":
        raise Unsupported("ufunc.at")
    else:
        r = getattr(ufunc, method)(
            *[x if x.dtype == object else x.astype(object) for x in ins], **kwargs
        )
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, real_np.ndarray) and o.dtype != object:
            raise Unsupported("symbolic result written into a float array")
        real_np.ndarray.__setitem__(o.view(real_np.ndarray), ..., r)
        return o
    if not isinstance(r, real_np.ndarray) and not isinstance(r, tuple):
        return r
    return wrap(r)


# ----------------------------------------------------------------------- creation functions
def array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    kind = _kind(dtype)
    if kind == "other":
        return real_np.array(x, dtype=dtype)
    a = plain(x)
    r = _cast(a, kind)
    if ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    if r.dtype == object:
        return r.view(SymArray)
    return r


def asarray(x, dtype=None, order=None):
    if isinstance(x, SymArray) and _kind(dtype) in (None, "object"):
        return x
    if isinstance(x, SymArray) and _kind(dtype) == "float":
        if all(isinstance(v, Sym) for v in x.view(real_np.ndarray).reshape(-1)):
            return x
    if isinstance(x, real_np.ndarray) and x.dtype.kind in "iub" and _kind(dtype) in (None, "int"):
        return x
    return array(x, dtype=dtype)


def _filled(shape, value, dtype):
    k = _kind(dtype)
    if k in ("int", "bool"):
        return real_np.full(shape, value, dtype=int if k == "int" else bool)
    if k == "other":
        return real_np.full(shape, value, dtype=dtype)
    a = real_np.empty(shape, dtype=object)
    a.fill(C(value) if k != "complex" else SymC(value, 0))
    return a.view(SymArray)


def zeros(shape, dtype=float, order="C"):
    return _filled(shape, 0, dtype)


def ones(shape, dtype=float, order="C"):
    return _filled(shape, 1, dtype)


def empty(shape, dtype=float, order="C"):
    return _filled(shape, 0, dtype)


def full(shape, fill_value, dtype=None, order="C"):
    if dtype is None:
        v = _scalar(fill_value)
        if isinstance(v, int):
            return real_np.full(shape, v)
        a = real_np.empty(shape, dtype=object)
        a.fill(v)
        return a.view(SymArray)
    return _filled(shape, fill_value, dtype)


def _kind_of(a):
    if a.dtype == object:
        return complex if any(isinstance(v, SymC) for v in a.reshape(-1)) else float
    return a.dtype


def zeros_like(a, dtype=None, **kw):
    a = plain(a)
    return _filled(a.shape, 0, dtype or _kind_of(a))


def ones_like(a, dtype=None, **kw):
    a = plain(a)
    return _filled(a.shape, 1, dtype or _kind_of(a))


empty_like = zeros_like


def full_like(a, v, dtype=None, **kw):
    return full(plain(a).shape, v, dtype)


def eye(N, M=None, k=0, dtype=float, order="C"):
    e = real_np.eye(N, M, k, dtype=int)
    return wrap(_cast(e, _kind(dtype) or "float"))


def identity(n, dtype=float):
    return eye(n, dtype=dtype or float)


def linspace(a, b, n=50, endpoint=True, **kw):
    n = int(n)
    d = (n - 1) if endpoint else n
    a, b = asarray(a), asarray(b)
    return array([a + (b - a) * C(Fraction(i, d)) for i in range(n)], dtype=float)


# --------------------------------------------------------------------------- linear algebra
def norm(x, ord=None, axis=None, keepdims=False):
    a = plain(x)
    if a.dtype != object:
        a = _cast(a, "float")
    if ord not in (None, 2, "fro"):
        raise Unsupported(f"norm ord={ord}")
    if ord == 2 and a.ndim == 2 and axis is None:
        raise Unsupported("spectral norm")

    def sq(v):
        if isinstance(v, SymC):
            return v.re * v.re + v.im * v.im
        return C(v) * v

    def one(v):
        s = ZERO
        for t in v:
            s = s + sq(t)
        return s.sqrt()

    if axis is None:
        r = one(a.reshape(-1))
        if keepdims:
            return array([r]).reshape((1,) * a.ndim)
        return r
    if isinstance(axis, tuple):
        raise Unsupported("matrix norm over axes")
    m = real_np.moveaxis(a, axis, -1)
    out = real_np.empty(m.shape[:-1], dtype=object)
    for idx in real_np.ndindex(*m.shape[:-1]):
        out[idx] = one(m[idx])
    if keepdims:
        out = real_np.expand_dims(out, axis)
    return wrap(out)


def det(a):
    a = plain(a)
    n = a.shape[-1]
    if a.ndim != 2 or a.shape[0] != n:
        raise real_np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if a.dtype != object:
        a = _cast(a, "float")
    return _det(a)


def _det(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    s = ZERO
    for j in range(n):
        if isinstance(a[0, j], Sym) and a[0, j].is_const and a[0, j].const == 0:
            continue
        minor = real_np.delete(real_np.delete(a, 0, 0), j, 1)
        t = a[0, j] * _det(minor)
        s = s + t if j % 2 == 0 else s - t
    return s


def _inv_lower(a):
    n = a.shape[0]
    out = real_np.empty((n, n), dtype=object)
    out.fill(ZERO)
    for j in range(n):
        out[j, j] = 1 / a[j, j]
        for i in range(j + 1, n):
            t = ZERO
            for k in range(j, i):
                t = t - a[i, k] * out[k, j]
            out[i, j] = t / a[i, i]
    return out


def inv(a):
    a = plain(a)
    n = a.shape[0]
    if a.ndim != 2 or n != a.shape[1]:
        raise real_np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if a.dtype != object:
        a = _cast(a, "float")
    lower = all(_is_zero(a[i, j]) for i in range(n) for j in range(i + 1, n))
    upper = all(_is_zero(a[j, i]) for i in range(n) for j in range(i + 1, n))
    if lower or upper:
        for i in range(n):
            z = a[i, i] == 0
            if z if isinstance(z, bool) else bool(z):
                raise real_np.linalg.LinAlgError("Singular matrix")
        return wrap(_inv_lower(a) if lower else _inv_lower(a.T).T)
    d = _det(a)
    z = d == 0
    if z if isinstance(z, bool) else bool(z):
        raise real_np.linalg.LinAlgError("Singular matrix")
    out = real_np.empty((n, n), dtype=object)
    if n == 1:
        out[0, 0] = 1 / a[0, 0]
        return wrap(out)
    for i in range(n):
        for j in range(n):
            minor = real_np.delete(real_np.delete(a, i, 0), j, 1)
            t = _det(minor) / d
            out[j, i] = t if (i + j) % 2 == 0 else -t
    return wrap(out)


def solve(a, b):
    return matmul(inv(a), asarray(b))


def matmul(a, b):
    return array_ufunc(real_np.matmul, "__call__", a, b)


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = plain(a), plain(b)
    if a.shape == (3,) and b.shape == (3,):
        r = [
            a[1] * b[2] - a[2] * b[1],
            a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0],
        ]
        return array(r)
    return wrap(real_np.cross(a.astype(object), b.astype(object), axisa, axisb, axisc, axis))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    f = real_np.frompyfunc(lambda x, y: _isclose1(x, y, rtol, atol), 2, 1)
    r = f(plain(a), plain(b))
    return wrap(r) if isinstance(r, real_np.ndarray) else r


def _absle(d, t):
    """|d| <= t without introducing an absolute-value variable."""
    if isinstance(d, SymC):
        return (d.re * d.re + d.im * d.im) <= C(t) * C(t)
    return b_and([d <= t, -d <= t])


def _isclose1(x, y, rtol, atol):
    if isinstance(x, SymC) or isinstance(y, SymC):
        x, y = SymC.lift(x), SymC.lift(y)
        return _absle(x - y, C(atol) + C(rtol) * abs(y))
    x, y = C(x), C(y)
    return _absle(x - y, C(atol) + C(rtol) * abs(y))


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return b_and(list(r.reshape(-1).view(real_np.ndarray))) if isinstance(r, real_np.ndarray) else r


def array_equal(a, b, **kw):
    a, b = plain(a), plain(b)
    if a.shape != b.shape:
        return False
    return b_and([x == y for x, y in zip(a.reshape(-1), b.reshape(-1))])


def all_(a, axis=None, **kw):
    a = plain(a)
    if a.dtype != object:
        return real_np.all(a, axis=axis)
    return a.view(SymArray).all(axis=axis)


def any_(a, axis=None, **kw):
    a = plain(a)
    if a.dtype != object:
        return real_np.any(a, axis=axis)
    return a.view(SymArray).any(axis=axis)


def where(cond, *xy):
    c = plain(cond)
    if c.dtype == object:
        c = real_np.array([bool(v) for v in c.reshape(-1)]).reshape(c.shape)
    if not xy:
        return real_np.where(c)
    return wrap(real_np.where(c, plain(xy[0]), plain(xy[1])))


def real_(a):
    return asarray(a).real


def imag_(a):
    a = asarray(a)
    return a.imag


def einsum(*operands, **kw):
    kw.pop("optimize", None)
    kw.pop("dtype", None)
    ops = [o if isinstance(o, str) else plain(o) for o in operands]
    if any(isinstance(o, real_np.ndarray) and o.dtype == object for o in ops):
        ops = [o if isinstance(o, str) else o.astype(object) for o in ops]
    return wrap(real_np.einsum(*ops, **kw))


def cholesky(a):
    a = plain(a)
    n = a.shape[0]
    L = real_np.empty((n, n), dtype=object)
    L.fill(ZERO)
    for j in range(n):
        s = a[j, j]
        s = s.re if isinstance(s, SymC) else s
        for k in range(j):
            t = L[j, k]
            s = s - (t.re * t.re + t.im * t.im if isinstance(t, SymC) else t * t)
        if not bool(s > 0):
            raise real_np.linalg.LinAlgError("Matrix is not positive definite")
        L[j, j] = core.CUR.mark_positive(s.sqrt())
        for i in range(j + 1, n):
            t = a[i, j]
            for k in range(j):
                u = L[j, k]
                t = t - L[i, k] * (u.conjugate() if isinstance(u, SymC) else u)
            L[i, j] = t / L[j, j]
    return wrap(L)


def _is_zero(x):
    x = SymC.lift(x)
    return x.re.is_const and x.re.const == 0 and x.im.is_const and x.im.const == 0


def _blocks(a):
    """Indices of the diagonal blocks of a matrix (after a permutation)."""
    n = a.shape[0]
    left, out = list(range(n)), []
    while left:
        group, todo = [], [left.pop(0)]
        while todo:
            i = todo.pop()
            group.append(i)
            for j in list(left):
                if not (_is_zero(a[i, j]) and _is_zero(a[j, i])):
                    left.remove(j)
                    todo.append(j)
        out.append(sorted(group))
    return out


def eigh(a, UPLO="L"):
    """Eigenvalues and orthonormal eigenvectors of a Hermitian matrix of 1x1 and 2x2 blocks.

    The lower triangle is used, as in numpy.  Eigenvalues are in ascending order.
    """
    a = plain(a)
    n = a.shape[0]
    if UPLO != "L":
        raise Unsupported("eigh of the upper triangle")
    low = real_np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            x = _scalar(a[i, j])
            if i == j:
                low[i, i] = C(x.re if isinstance(x, SymC) else x)
            else:
                low[i, j] = x
                low[j, i] = x.conjugate() if isinstance(x, SymC) else x
    values, vectors = [], []

    def column(entries):
        v = [ZERO] * n
        for k, x in entries.items():
            v[k] = x
        return v

    for b in _blocks(low):
        if len(b) == 1:
            values.append(low[b[0], b[0]])
            vectors.append(column({b[0]: ONE}))
        elif len(b) == 2:
            i, j = b
            p, q, w = low[i, i], low[j, j], low[j, i]
            w2 = w.re * w.re + w.im * w.im if isinstance(w, SymC) else w * w
            if bool(w2 == 0):
                for k in b:
                    values.append(low[k, k])
                    vectors.append(column({k: ONE}))
                continue
            r = ((p - q) * (p - q) / 4 + w2).sqrt()
            c = (p + q) / 2
            t = r - (p - q) / 2  # upper eigenvalue minus p, positive because w is not zero
            m = (w2 + t * t).sqrt()
            wc = w.conjugate() if isinstance(w, SymC) else w
            values += [c + r, c - r]
            # (p - x) u + w* v = 0 for the upper eigenvalue x, the other one is orthogonal to it
            vectors.append(column({i: wc / m, j: t / m}))
            vectors.append(column({i: t / m, j: -w / m}))
        else:
            raise Unsupported("eigenvectors of a matrix larger than 2x2")
    order = list(range(n))
    for i in range(1, n):
        k = i
        while k > 0 and bool(values[order[k]] < values[order[k - 1]]):
            order[k], order[k - 1] = order[k - 1], order[k]
            k -= 1
    L = real_np.empty(n, dtype=object)
    U = real_np.empty((n, n), dtype=object)
    for k, o in enumerate(order):
        L[k] = values[o]
        for i in range(n):
            U[i, k] = vectors[o][i]
    return wrap(L), wrap(U)


def eig(a):
    """Eigenvalues and eigenvectors, Hermitian matrices only.

    Vectors of equal eigenvalues are not orthogonal in general.
    """
    p = plain(a)
    for i in range(p.shape[0]):
        for j in range(i + 1):
            d = SymC.lift(p[i, j]) - SymC.lift(p[j, i]).conjugate()
            if not _is_zero(d) and not core.CUR.implied(b_and([d.re == 0, d.im == 0])):
                raise Unsupported("eigenvalues of a matrix that is not Hermitian")
    L, U = eigh(a)
    for k in range(1, len(L)):
        if core.CUR.implied(L[k] == L[k - 1]):
            for i in range(len(L)):
                U[i, k] = U[i, k - 1] * C(Fraction(3, 5)) + U[i, k] * C(Fraction(4, 5))
    return L, U


def eigvalsh(a, UPLO="L"):
    return eigh(a, UPLO)[0]


def eigvals(a):
    return eig(a)[0]


def round_(a, decimals=0, out=None):
    if isinstance(a, real_np.ndarray):
        return asarray(a).round(decimals)
    return builtins.round(a, decimals)


def diag(v, k=0):
    a = plain(v)
    if a.ndim == 1 and a.dtype == object:
        n = a.shape[0] + abs(k)
        out = real_np.empty((n, n), dtype=object)
        out.fill(ZERO)
        for i in range(a.shape[0]):
            out[i + max(0, -k), i + max(0, k)] = a[i]
        return wrap(out)
    return wrap(real_np.diag(a, k))


def average(a, **kw):
    if kw:
        raise Unsupported("np.average options")
    return asarray(a).mean()


def mean(a, axis=None, **kw):
    return asarray(a, dtype=float).mean(axis=axis)


def kron(a, b):
    a, b = plain(a).astype(object), plain(b).astype(object)
    out = real_np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            out[
                i * b.shape[0] : (i + 1) * b.shape[0], j * b.shape[1] : (j + 1) * b.shape[1]
            ] = a[i, j] * b
    return wrap(out)


def loadtxt(f, **kw):
    raise Unsupported("np.loadtxt")


def _percent(fmt, values):
    """fmt % tuple(values) for symbolic numbers."""
    import re

    values, out, pos = list(values), [], 0
    for m in re.finditer(r"%(?:(%)|([-+ 0#]*)(\d+)?(?:\.(\d+))?[lhL]?([a-zA-Z]))", fmt):
        out.append(fmt[pos : m.start()])
        pos = m.end()
        if m.group(1):
            out.append("%")
            continue
        flags, width, prec, typ = m.group(2), m.group(3) or "", m.group(4), m.group(5)
        x = values.pop(0)
        spec = "<" if "-" in flags and width else ""
        spec += "+" if "+" in flags else " " if " " in flags else ""
        spec += "0" if "0" in flags and "-" not in flags and width else ""
        spec += width + ("" if prec is None else "." + prec)
        if typ in "sr":
            out.append(format(str(x), ("" if "-" in flags or not width else ">") + spec))
        elif typ in "di":
            out.append(format(C(x).__int__() if not isinstance(x, int) else x, spec + "d"))
        else:
            out.append(format(C(x), spec + typ))
    if values:
        raise TypeError("not all arguments converted during string formatting")
    return "".join(out) + fmt[pos:]


def savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
    X = asarray(X)
    if X.ndim == 1:
        X = X.reshape(-1, 1)
    if X.ndim != 2:
        raise ValueError(f"Expected 1D or 2D array, got {X.ndim}D array instead")
    if isinstance(fmt, (list, tuple)):
        if len(fmt) != X.shape[1]:
            raise AttributeError(f"fmt has wrong shape.  {fmt}")
        row = delimiter.join(fmt)
    elif fmt.count("%") == 1:
        row = delimiter.join([fmt] * X.shape[1])
    elif fmt.count("%") == X.shape[1]:
        row = fmt
    else:
        raise ValueError(f"fmt has wrong number of % formats:  {fmt}")
    own = not hasattr(fname, "write")
    fh = open(fname, "w", encoding=encoding or "utf-8") if own else fname
    try:
        if header:
            fh.write(comments + header.replace("\n", "\n" + comments) + newline)
        for r in X:
            fh.write(_percent(row, list(r)) + newline)
        if footer:
            fh.write(comments + footer.replace("\n", "\n" + comments) + newline)
    finally:
        if own:
            fh.close()


def _unsupported(name):
    def f(*a, **k):
        raise Unsupported(name)

    return f


class Proxy(types.ModuleType):
    """A module whose attributes default to those of the real one (arrays made exact)."""

    def __init__(self, real, overrides):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(overrides)

    def __getattr__(self, name):
        v = getattr(self.__dict__["_real"], name)
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or (
            callable(v) and type(v).__name__ == "_ArrayFunctionDispatcher"
        ):
            return _wrapped(v)
        if isinstance(v, real_np.ufunc):
            return _wrapped_ufunc(v)
        return v


_CACHE = {}


def _exact_in(x):
    """Make list / float array arguments exact before a real numpy function sees them."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, real_np.ndarray) and x.dtype.kind in "fc":
        return wrap(x)
    if isinstance(x, (list, tuple)) and any(
        isinstance(v, (SymArray, Sym, SymC, list, tuple, float)) for v in x
    ):
        return type(x)(_exact_in(v) for v in x) if type(x) in (list, tuple) else x
    return x


def _wrapped(f):
    if f not in _CACHE:

        def g(*a, **k):
            if "dtype" in k and _kind(k["dtype"]) in ("float", "complex", "object"):
                k["dtype"] = object
            return wrap(f(*[_exact_in(x) for x in a], **k))

        g.__name__ = getattr(f, "__name__", "f")
        _CACHE[f] = g
    return _CACHE[f]


class _UfuncProxy:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        return array_ufunc(self.u, "__call__", *a, **k) if any(
            is_symbolic_like(plain_if_seq(x)) or isinstance(x, float) for x in a
        ) else wrap(self.u(*[plain_if_seq(x) for x in a], **k))

    def __getattr__(self, n):
        if n in ("reduce", "accumulate", "outer", "reduceat"):

            def m(*a, **k):
                if any(is_symbolic_like(plain_if_seq(x)) for x in a):
                    return array_ufunc(self.u, n, *a, **k)
                return wrap(getattr(self.u, n)(*a, **k))

            return m
        return getattr(self.u, n)


def plain_if_seq(x):
    if isinstance(x, (list, tuple)):
        a = plain(x)
        return a.view(SymArray) if a.dtype == object else a
    if isinstance(x, real_np.ndarray) and x.dtype.kind in "fc":
        return wrap(x)
    ai = None
    if not isinstance(x, (real_np.ndarray, Sym, SymC, SymBool, int, float, complex, str)):
        ai = getattr(x, "__array_interface__", None)
    if isinstance(ai, dict) and "__symarray__" in ai:
        return ai["__symarray__"]
    return x


_UF = {}


def _wrapped_ufunc(u):
    if u not in _UF:
        _UF[u] = _UfuncProxy(u)
    return _UF[u]


def _fft(*a, **k):
    raise Unsupported("fft")


def finfo(dtype=float):
    return real_np.finfo(real_np.float64)


def clip(a, a_min=None, a_max=None, out=None, **kw):
    def one(x):
        if a_min is not None and bool(C(x) < a_min):
            return C(a_min)
        if a_max is not None and bool(C(x) > a_max):
            return C(a_max)
        return x

    if isinstance(a, (Sym, int, float)):
        return one(a)
    return _map(array(a), one)


random = Proxy(
    real_np.random,
    dict(random=_unsupported("random"), rand=_unsupported("rand"), uniform=_unsupported("uniform")),
)

PI = Sym({((core.PI_ID, 1),): Fraction(1)})

linalg = Proxy(
    real_np.linalg,
    dict(
        norm=norm,
        det=det,
        inv=inv,
        solve=solve,
        cholesky=cholesky,
        eig=eig,
        eigh=eigh,
        eigvals=eigvals,
        eigvalsh=eigvalsh,
        svd=_unsupported("svd"),
        lstsq=_unsupported("lstsq"),
        pinv=_unsupported("pinv"),
        matrix_rank=_unsupported("matrix_rank"),
    ),
)

numpy = Proxy(
    real_np,
    dict(
        linalg=linalg,
        finfo=finfo,
        clip=clip,
        random=random,
        array=array,
        asarray=asarray,
        asanyarray=asarray,
        ascontiguousarray=asarray,
        zeros=zeros,
        ones=ones,
        empty=empty,
        full=full,
        zeros_like=zeros_like,
        ones_like=ones_like,
        empty_like=empty_like,
        full_like=full_like,
        eye=eye,
        identity=identity,
        linspace=linspace,
        cross=cross,
        isclose=isclose,
        allclose=allclose,
        array_equal=array_equal,
        all=all_,
        any=any_,
        where=where,
        real=real_,
        imag=imag_,
        einsum=einsum,
        matmul=matmul,
        round=round_,
        around=round_,
        diag=diag,
        mean=mean,
        average=average,
        kron=kron,
        loadtxt=loadtxt,
        genfromtxt=loadtxt,
        fromstring=_unsupported("fromstring"),
        savetxt=savetxt,
        pi=PI,
        float64=sfloat,
        float_=sfloat,
        double=sfloat,
        complex128=scomplex,
        complex_=scomplex,
    ),
)
