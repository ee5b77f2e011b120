"""Environment of the analysed code outside its own Python source: scipy, h5py."""
import types

import numpy as real_np

from . import core, symnp
from .core import C, Sym, SymC, Unsupported


class Rotation:
    """scipy.spatial.transform.Rotation restricted to rotation vectors (Rodrigues formula)."""

    def __init__(self, m):
        self._m = m

    @classmethod
    def from_rotvec(cls, v, degrees=False):
        np = symnp.numpy
        v = np.array(v, dtype=float)
        if v.shape != (3,):
            raise Unsupported("Rotation.from_rotvec of several vectors")
        if degrees:
            v = v * symnp.PI / 180
        t = np.linalg.norm(v)
        if bool(t == 0):
            return cls(np.eye(3))
        n = v / t
        K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]], dtype=float)
        return cls(np.eye(3) + K * np.sin(t) + (K @ K) * (1 - np.cos(t)))

    @classmethod
    def from_matrix(cls, m):
        return cls(symnp.numpy.array(m, dtype=float))

    def as_matrix(self):
        return self._m.copy()

    def apply(self, v):
        return symnp.numpy.array(v, dtype=float) @ self._m.T

    def inv(self):
        return Rotation(self._m.T)

    def __mul__(self, o):
        return Rotation(self._m @ o._m)

    def __getattr__(self, n):
        raise Unsupported(f"scipy Rotation.{n}")


# ------------------------------------------------------------------------------ h5py
def _encode(x):
    """Replace symbolic numbers by unique doubles that stand for them in a real HDF5 file."""
    ctx = core.CUR
    if isinstance(x, Sym):
        if x.is_const:
            v = float(x.const)
            ctx.tokens[("f8", v)] = x
            return v
        key = ("h5", core.p_key(x.p))
        if key not in ctx.cache:
            ctx.token_n += 1
            if x.is_int:
                v = 4611686018000000000 + ctx.token_n
            else:
                v = 1.0e77 + ctx.token_n * 1.0e63
            ctx.cache[key] = v
            ctx.tokens[("f8" if not x.is_int else "i8", v)] = x
        return ctx.cache[key]
    if isinstance(x, symnp.SymArray):
        p = x.view(real_np.ndarray)
        vals = [_encode(v) for v in p.reshape(-1)]
        return real_np.array(vals).reshape(p.shape)
    if isinstance(x, (list, tuple)) and _has_sym(x):
        return _encode(symnp.array(x))
    if isinstance(x, SymC):
        raise Unsupported("complex number in an HDF5 file")
    return x


def _has_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    return isinstance(x, (Sym, symnp.SymArray))


def _decode1(v):
    ctx = core.CUR
    if isinstance(v, (float, real_np.floating)):
        t = ctx.tokens.get(("f8", float(v)))
        return t if t is not None else C(float(v))
    if isinstance(v, (int, real_np.integer)) and not isinstance(v, (bool, real_np.bool_)):
        t = ctx.tokens.get(("i8", int(v)))
        return t if t is not None else v
    return v


def _decode(v):
    if isinstance(v, real_np.ndarray) and v.dtype.kind == "f":
        out = real_np.empty(v.shape, dtype=object)
        fo = out.reshape(-1)
        for i, t in enumerate(v.reshape(-1)):
            fo[i] = _decode1(t)
        return symnp.wrap(out)
    if isinstance(v, real_np.ndarray) and v.dtype.kind in "iu":
        vals = [_decode1(t) for t in v.reshape(-1)]
        if any(isinstance(t, Sym) for t in vals):
            out = real_np.empty(v.size, dtype=object)
            for i, t in enumerate(vals):
                out[i] = t
            return symnp.wrap(out.reshape(v.shape))
        return v
    return _decode1(v)


def _h5_proxy():
    import h5py

    def lift(o):
        if isinstance(o, h5py.Dataset):
            return Dataset(o)
        if isinstance(o, h5py.Group):
            return Group(o)
        return o

    class Attrs:
        def __init__(self, a):
            self._a = a

        def __getitem__(self, k):
            return _decode(self._a[k])

        def __setitem__(self, k, v):
            self._a[k] = _encode(v)

        def get(self, k, d=None):
            return _decode(self._a[k]) if k in self._a else d

        def __contains__(self, k):
            return k in self._a

        def __iter__(self):
            return iter(self._a)

        def __len__(self):
            return len(self._a)

        def keys(self):
            return list(self._a)

        def items(self):
            return [(k, self[k]) for k in self._a]

        def create(self, k, v, **kw):
            self._a.create(k, _encode(v), **kw)

        def __getattr__(self, n):
            raise Unsupported(f"h5py attrs.{n}")

    class Dataset:
        def __init__(self, d):
            self._d = d

        @property
        def attrs(self):
            return Attrs(self._d.attrs)

        def __getitem__(self, k):
            return _decode(self._d[k])

        def __setitem__(self, k, v):
            self._d[k] = _encode(v)

        def __array__(self, *a, **k):
            return _decode(self._d[()])

        @property
        def __array_interface__(self):
            v = _decode(self._d[()])
            if isinstance(v, symnp.SymArray):
                return {"__symarray__": v}
            return real_np.asarray(v).__array_interface__

        def __iter__(self):
            return iter(_decode(self._d[()]))

        def __len__(self):
            return len(self._d)

        def __getattr__(self, n):
            if n in ("shape", "ndim", "size", "dtype", "name", "asstr"):
                return getattr(self._d, n)
            raise Unsupported(f"h5py Dataset.{n}")

        def __eq__(self, o):
            return isinstance(o, Dataset) and self._d == o._d

        __hash__ = None

    class Group:
        def __init__(self, g):
            self._g = g

        @property
        def attrs(self):
            return Attrs(self._g.attrs)

        @property
        def name(self):
            return self._g.name

        def __getitem__(self, k):
            return lift(self._g[k])

        def __setitem__(self, k, v):
            self._g[k] = _encode(v)

        def __delitem__(self, k):
            del self._g[k]

        def __contains__(self, k):
            return k in self._g

        def __iter__(self):
            return iter(self._g)

        def __len__(self):
            return len(self._g)

        def keys(self):
            return list(self._g)

        def values(self):
            return [lift(v) for v in self._g.values()]

        def items(self):
            return [(k, lift(v)) for k, v in self._g.items()]

        def get(self, k, d=None):
            return lift(self._g[k]) if k in self._g else d

        def create_group(self, n, **kw):
            return Group(self._g.create_group(n, **kw))

        def visit(self, fn):
            return self._g.visit(fn)

        def visititems(self, fn):
            return self._g.visititems(lambda n, o: fn(n, lift(o)))

        def pop(self, k):
            v = lift(self._g[k])
            del self._g[k]
            return v

        def __bool__(self):
            return bool(self._g)

        def __eq__(self, o):
            return isinstance(o, Group) and self._g == o._g

        __hash__ = None

        @property
        def file(self):
            return self._g.file

        @property
        def parent(self):
            return lift(self._g.parent)

        def require_group(self, n, **kw):
            return Group(self._g.require_group(n, **kw))

        def create_dataset(self, n, shape=None, dtype=None, data=None, **kw):
            if data is not None:
                data = _encode(data)
            if dtype is not None and not isinstance(dtype, (str, real_np.dtype)):
                dtype = {"float": float, "int": int, "complex": complex, "bool": bool}.get(
                    symnp._kind(dtype), dtype
                )
            return Dataset(self._g.create_dataset(n, shape, dtype, data, **kw))

        def __getattr__(self, n):
            raise Unsupported(f"h5py Group.{n}")

    class File(Group):
        def __init__(self, name, mode="r", **kw):
            super().__init__(h5py.File(name, mode, **kw))

        @property
        def mode(self):
            return self._g.mode

        @property
        def id(self):
            return self._g.id

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self._g.close()

        def close(self):
            self._g.close()

        def flush(self):
            self._g.flush()

        @property
        def filename(self):
            return self._g.filename

    m = types.ModuleType("h5py")
    m.__getattr__ = lambda n: getattr(h5py, n)
    m.File, m.Group, m.Dataset = File, Group, Dataset
    return m


_PROXY = []


def h5py_proxy():
    if not _PROXY:
        _PROXY.append(_h5_proxy())
    return _PROXY[0]


def install(subst):
    rot = types.ModuleType("scipy.spatial.transform")
    rot.Rotation = Rotation
    subst["scipy.spatial.transform"] = rot
    try:
        subst["h5py"] = h5py_proxy()
    except ImportError:
        pass
    mpl = types.ModuleType("matplotlib.pyplot")
    mpl.__getattr__ = lambda n: (lambda *a, **k: (_ for _ in ()).throw(Unsupported("matplotlib")))
    subst["matplotlib.pyplot"] = mpl
