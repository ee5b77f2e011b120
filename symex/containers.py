"""dict and set for the analysed modules: keys may contain symbolic integers."""
from .core import b_and, has_sym, sym_eq


def key_eq(a, b):
    """Equality as a hash table sees it: keys of other kinds differ without being compared."""
    if isinstance(a, (tuple, frozenset)) != isinstance(b, (tuple, frozenset)):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            e = key_eq(x, y)
            if e is False:
                return False
            out.append(e)
        return b_and(out)
    try:
        return sym_eq(a, b)
    except TypeError:
        return False


class _DictMeta(type):
    def __instancecheck__(cls, x):
        return issubclass(type(x), dict)

    def __subclasscheck__(cls, c):
        return dict in c.__mro__


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return issubclass(type(x), set)

    def __subclasscheck__(cls, c):
        return set in c.__mro__


class SymDict(dict, metaclass=_DictMeta):
    """Insertion-ordered mapping; equality of keys is decided (and forked) by the solver."""

    def __init__(self, *a, **k):
        super().__init__()
        self._items = {}  # serial -> [key, value]
        self._n = 0
        self._fast = {}  # concrete key -> serial
        self._symkeys = []  # serials with symbolic keys
        self.update(*a, **k)

    # -- lookup
    def _find(self, key):
        if not has_sym(key):
            s = self._fast.get(key)
            if s is not None:
                return s
            cand = self._symkeys
        else:
            cand = list(self._items)
        for s in list(cand):
            e = key_eq(self._items[s][0], key)
            if e is True or (e is not False and bool(e)):
                return s
        return None

    def __getitem__(self, key):
        s = self._find(key)
        if s is None:
            raise KeyError(key)
        return self._items[s][1]

    def __setitem__(self, key, value):
        s = self._find(key)
        if s is not None:
            self._items[s][1] = value
            return
        self._n += 1
        self._items[self._n] = [key, value]
        if has_sym(key):
            self._symkeys.append(self._n)
        else:
            self._fast[key] = self._n

    def __delitem__(self, key):
        s = self._find(key)
        if s is None:
            raise KeyError(key)
        k = self._items.pop(s)[0]
        if has_sym(k):
            self._symkeys.remove(s)
        else:
            del self._fast[k]

    def __contains__(self, key):
        return self._find(key) is not None

    def get(self, key, default=None):
        s = self._find(key)
        return default if s is None else self._items[s][1]

    def setdefault(self, key, default=None):
        s = self._find(key)
        if s is None:
            self[key] = default
            return default
        return self._items[s][1]

    def pop(self, key, *d):
        s = self._find(key)
        if s is None:
            if d:
                return d[0]
            raise KeyError(key)
        v = self._items[s][1]
        del self[key]
        return v

    def popitem(self):
        s = list(self._items)[-1]
        k, v = self._items[s]
        del self[k]
        return k, v

    def update(self, *a, **k):
        for x in a:
            if hasattr(x, "keys"):
                for key in x.keys():
                    self[key] = x[key]
            else:
                for key, v in x:
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def clear(self):
        self._items.clear()
        self._fast.clear()
        self._symkeys.clear()

    def copy(self):
        return SymDict(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        from copy import deepcopy

        d = SymDict()
        memo[id(self)] = d
        for k, v in self._items.values():
            d[deepcopy(k, memo)] = deepcopy(v, memo)
        return d

    # -- views
    def __iter__(self):
        for s in list(self._items):
            if len(self._items) and s in self._items:
                pass
            elif s not in self._items:
                raise RuntimeError("dictionary changed size during iteration")
            n = len(self._items)
            yield self._items[s][0]
            if len(self._items) != n:
                # CPython raises on the next step
                raise RuntimeError("dictionary changed size during iteration")

    def __reversed__(self):
        return iter([self._items[s][0] for s in reversed(list(self._items))])

    def __len__(self):
        return len(self._items)

    def __bool__(self):
        return bool(self._items)

    def keys(self):
        return KeysView(self)

    def values(self):
        return [v for _, v in self._items.values()]

    def items(self):
        return [(k, v) for k, v in self._items.values()]

    def __eq__(self, o):
        if not isinstance(o, dict) or len(o) != len(self):
            return False
        return all(k in o and bool(sym_eq(o[k], v)) for k, v in self.items())

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __or__(self, o):
        d = SymDict(self)
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + "}"

    def __reduce_ex__(self, p):
        raise TypeError("cannot pickle SymDict")

    @classmethod
    def fromkeys(cls, ks, v=None):
        d = cls()
        for k in ks:
            d[k] = v
        return d


class KeysView:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def __sub__(self, o):
        return SymSet(self) - SymSet(o)

    def __and__(self, o):
        return SymSet(self) & SymSet(o)

    def __or__(self, o):
        return SymSet(self) | SymSet(o)

    def __eq__(self, o):
        return SymSet(self) == SymSet(o)

    def __repr__(self):
        return repr(list(self))


class SymSet(set, metaclass=_SetMeta):
    def __init__(self, it=()):
        super().__init__()
        self._d = SymDict()
        for x in it:
            self._d[x] = True

    def add(self, x):
        self._d[x] = True

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        return self._d.popitem()[0]

    def clear(self):
        self._d.clear()

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def copy(self):
        return SymSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        from copy import deepcopy

        return SymSet([deepcopy(x, memo) for x in self])

    def union(self, *its):
        s = self.copy()
        s.update(*its)
        return s

    def __or__(self, o):
        return self.union(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def difference(self, *its):
        s = SymSet()
        for x in self:
            if not any(x in SymSet(o) for o in its):
                s.add(x)
        return s

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o) - self

    def __isub__(self, o):
        for x in list(o):
            self.discard(x)
        return self

    def intersection(self, *its):
        s = SymSet()
        for x in self:
            if all(x in SymSet(o) for o in its):
                s.add(x)
        return s

    def __and__(self, o):
        return self.intersection(o)

    def symmetric_difference(self, o):
        return (self - o) | (SymSet(o) - self)

    __xor__ = symmetric_difference

    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    __le__ = issubset
    __ge__ = issuperset

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __eq__(self, o):
        try:
            return len(self) == len(o) and self.issubset(o)
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(map(repr, self)) + "}"
