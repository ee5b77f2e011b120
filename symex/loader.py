"""Loads the analysed packages from their current source with symbolic-aware builtins."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import sys
import types

from . import core, symnp
from .containers import SymDict, SymSet
from .core import C, Sym, SymBool, SymC, Unsupported

PACKAGES = ("magnopy", "wulfric")


class _Transform(ast.NodeTransformer):
    """dict / set displays become containers whose keys may be symbolic."""

    def visit_Dict(self, node):
        self.generic_visit(node)
        parts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                parts.append(v)
            else:
                parts.append(
                    ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())], ctx=ast.Load())
                )
        return ast.copy_location(
            ast.Call(func=ast.Name("__symdict__", ast.Load()), args=parts, keywords=[]), node
        )

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and (
            not isinstance(node.left, ast.Constant) or isinstance(node.left.value, str)
        ):
            return ast.copy_location(
                ast.Call(func=ast.Name("__symmod__", ast.Load()), args=[node.left, node.right], keywords=[]),
                node,
            )
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "maketrans":
            # a method of the interpreter that wants the built-in dict
            node.args = [
                ast.Call(func=ast.Name("__realdict__", ast.Load()), args=[a], keywords=[])
                for a in node.args
            ]
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators
        )
        return ast.copy_location(
            ast.Call(func=ast.Name("__symdict__", ast.Load()), args=[gen], keywords=[]), node
        )

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(
                func=ast.Name("__symset__", ast.Load()),
                args=[ast.List(elts=node.elts, ctx=ast.Load())],
                keywords=[],
            ),
            node,
        )

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return ast.copy_location(
            ast.Call(func=ast.Name("__symset__", ast.Load()), args=[gen], keywords=[]), node
        )


def _isinstance(x, t):
    return builtins.isinstance(x, t)


def _mod(a, b):
    """a % b; printf-style formatting of symbolic numbers."""
    if isinstance(a, str):
        values = b if isinstance(b, tuple) else (b,)
        if any(isinstance(v, Sym) for v in values):
            return symnp._percent(a, values)
    return a % b


def _mathfn(name):
    real = getattr(math, name)

    def f(x, *a):
        if isinstance(x, (float, int)) and not isinstance(x, bool):
            x = C(x)
        if isinstance(x, Sym):
            return getattr(x, name)(*a)
        return real(x, *a)

    return f


def _math_proxy():
    m = types.ModuleType("math")
    for k in dir(math):
        setattr(m, k, getattr(math, k))
    m.pi = symnp.PI
    m.tau = symnp.PI * 2
    ren = dict(sqrt="sqrt", cos="cos", sin="sin", tan="tan", exp="exp", log="log", cbrt="cbrt")
    for k, v in ren.items():
        setattr(m, k, _mathfn(v))
    m.acos = lambda x: C(x).arccos()
    m.asin = lambda x: C(x).arcsin()
    m.atan2 = lambda y, x: C(y).arctan2(C(x))
    m.radians = lambda x: C(x).deg2rad()
    m.degrees = lambda x: C(x).rad2deg()
    m.fabs = lambda x: abs(C(x))
    m.floor = lambda x: C(x).floor()
    m.ceil = lambda x: C(x).ceil()
    m.hypot = lambda *a: symnp.norm(list(a))
    m.dist = lambda a, b: symnp.norm([x - y for x, y in zip(a, b)])
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: _m_isclose(a, b, rel_tol, abs_tol)
    m.isnan = lambda x: False if isinstance(x, Sym) else math.isnan(x)
    m.isinf = lambda x: False if isinstance(x, Sym) else math.isinf(x)
    m.isfinite = lambda x: True if isinstance(x, Sym) else math.isfinite(x)
    return m


def _m_isclose(a, b, r, t):
    d = abs(C(a) - b)
    mx = abs(C(a)) if bool(abs(C(a)) >= abs(C(b))) else abs(C(b))
    return bool(core.b_or([d <= C(r) * mx, d <= C(t)]))


SUBST = {}  # module name -> replacement seen by the analysed modules


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if name in SUBST and (fromlist or "." not in name):
            return SUBST[name]
        if not fromlist and "." in name and top in SUBST:
            builtins.__import__(name, globals, locals, (), 0)
            return SUBST[top]
        if fromlist and top in SUBST and name not in SUBST:
            m = builtins.__import__(name, globals, locals, fromlist, 0)
            return m
    return builtins.__import__(name, globals, locals, fromlist, level)


def _print(*a, **k):
    if k.get("file") not in (None, sys.stdout, sys.stderr) or type(sys.stdout).__name__ == "StringIO":
        return builtins.print(*a, **k)
    for x in a:
        str(x)


def _symdict(*parts):
    d = SymDict()
    for p in parts:
        d.update(p)
    return d


def _realdict(x):
    return dict(x.items()) if isinstance(x, dict) else x


CUSTOM = dict(vars(builtins))
CUSTOM.update(
    float=symnp.sfloat,
    int=symnp.sint,
    complex=symnp.scomplex,
    dict=SymDict,
    set=SymSet,
    print=_print,
    __import__=_import,
    __symdict__=_symdict,
    __symset__=SymSet,
    __symmod__=_mod,
    __realdict__=_realdict,
)

FILES = {}  # analysed files


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        FILES[path] = fullname
        tree = ast.parse(src, filename=path)
        tree = ast.fix_missing_locations(_Transform().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        code = self.get_code(module.__name__)
        module.__dict__["__builtins__"] = CUSTOM
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname,
                init,
                loader=_Loader(fullname, init),
                submodule_search_locations=[base],
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_Loader(fullname, base + ".py")
            )
        return None


def repo_src():
    return os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")


def install():
    """Make 'import magnopy' load the analysed version."""
    import importlib.util as iu

    for n in list(sys.modules):
        if n.split(".")[0] in PACKAGES:
            raise RuntimeError(f"{n} was imported before the loader")
    w = iu.find_spec("wulfric")
    roots = {
        "magnopy": repo_src(),
        "wulfric": os.path.dirname(os.path.dirname(w.origin)),
    }
    SUBST["numpy"] = symnp.numpy
    SUBST["numpy.linalg"] = symnp.linalg
    SUBST["math"] = _math_proxy()
    from . import extern

    extern.install(SUBST)
    sys.meta_path.insert(0, Finder(roots))
