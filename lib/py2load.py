"""In-memory Python 2 -> Python 3 loader for the code under test.

echidna is Python 2 code and no Python 2 interpreter is installed.  This
import hook reads the *current* files below <repo>/echidna, translates the
syntax in memory and rewrites the operations whose meaning changed between
the two languages (integer division, list-returning dict methods, ordering of
unlike types, half-away rounding, ...), so that what runs is the code in the
working tree with the semantics its authors wrote it for.  Nothing is written
to the repository (bytecode writing is switched off too).
"""
import ast
import builtins
import functools
import importlib.abc
import importlib.util
import os
import sys
import types
import warnings

sys.dont_write_bytecode = True

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from lib2to3 import refactor, pygram
    from lib2to3.pgen2 import driver  # noqa: F401

import numpy

REPO = os.environ.get("ECHIDNA_REPO", "/repo")

FIXERS = ["print", "except", "raise", "exec", "repr", "ne", "numliterals",
          "tuple_params", "throw"]


# --------------------------------------------------------------- py2 runtime
def _is_int(x):
    return isinstance(x, (int, numpy.integer)) or (
        isinstance(x, numpy.ndarray) and x.dtype.kind in "iub")


def _div(a, b):
    if _is_int(a) and _is_int(b):
        return a // b
    return a / b


def _idiv(a, b):
    if _is_int(a) and _is_int(b):
        a //= b
    else:
        a /= b
    return a


_VIEWS = (type({}.keys()), type({}.values()), type({}.items()))


def _aslist(res):
    if isinstance(res, _VIEWS) or type(res).__name__ in (
            "odict_keys", "odict_values", "odict_items"):
        return list(res)
    return res


def _dictcall(obj, name):
    return _aslist(getattr(obj, name)())


def _iterdict(obj, name):
    if hasattr(obj, name):
        return getattr(obj, name)()
    return iter(getattr(obj, name[4:])())


def _has_key(obj, *args):
    if hasattr(obj, "has_key"):
        return obj.has_key(*args)
    return args[0] in obj


def _rank(x):
    # CPython 2 ordering of unlike types: None < numbers < everything else,
    # ordered by type name.
    if x is None:
        return (0, "")
    if isinstance(x, (int, float, numpy.number, bool)):
        return (1, "")
    return (2, type(x).__name__)


def _compare(op, a, b):
    try:
        if op == "<":
            return a < b
        if op == ">":
            return a > b
        if op == "<=":
            return a <= b
        return a >= b
    except TypeError:
        if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
            raise
        ra, rb = _rank(a), _rank(b)
        if ra == rb:
            ra, rb = id(a), id(b)
        return {"<": ra < rb, ">": ra > rb, "<=": ra <= rb,
                ">=": ra >= rb}[op]


def _round2(x, n=0):
    import decimal
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        return x
    # Python 2 rounds the exact binary value half away from zero.
    q = decimal.Decimal(1).scaleb(-n)
    return float(decimal.Decimal(x).quantize(
        q, rounding=decimal.ROUND_HALF_UP,
        context=decimal.Context(prec=400)))


def _cmp(a, b):
    return (a > b) - (a < b)


def _map2(f, *its):
    if f is None:
        return list(zip(*its)) if len(its) > 1 else list(its[0])
    return list(map(f, *its))


def _filter2(f, it):
    return list(filter(f, it))


def _zip2(*its):
    return list(zip(*its))


def _range2(*a):
    a = [int(x) if isinstance(x, (numpy.integer,)) else x for x in a]
    return list(range(*a))


def _sorted2(it, cmp=None, key=None, reverse=False):
    if cmp is not None:
        key = functools.cmp_to_key(cmp)
    return sorted(it, key=key, reverse=reverse)


PY2 = dict(builtins.__dict__)
PY2.update(
    xrange=range, unicode=str, basestring=str, long=int, raw_input=input,
    unichr=chr, reduce=functools.reduce, cmp=_cmp, map=_map2,
    filter=_filter2, zip=_zip2, range=_range2, round=_round2,
    sorted=_sorted2, file=open, buffer=memoryview,
    __v_div__=_div, __v_idiv__=_idiv, __v_dictcall__=_dictcall,
    __v_iterdict__=_iterdict, __v_has_key__=_has_key, __v_compare__=_compare)


# ---------------------------------------------------------------- translation
class _Rewrite(ast.NodeTransformer):
    def __init__(self, future_division):
        self.future_division = future_division

    def _call(self, node, name, *args):
        return ast.copy_location(ast.Call(
            func=ast.Name(id=name, ctx=ast.Load()), args=list(args),
            keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.future_division:
            return self._call(node, "__v_div__", node.left, node.right)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.future_division:
            if isinstance(node.target, ast.Name):
                load = ast.Name(id=node.target.id, ctx=ast.Load())
                return ast.copy_location(ast.Assign(
                    targets=[node.target],
                    value=self._call(node, "__v_idiv__", load, node.value)),
                    node)
            if isinstance(node.target, ast.Attribute):
                load = ast.Attribute(value=node.target.value,
                                     attr=node.target.attr, ctx=ast.Load())
                return ast.copy_location(ast.Assign(
                    targets=[node.target],
                    value=self._call(node, "__v_idiv__", load, node.value)),
                    node)
            # subscript targets: a plain a[i] = div(a[i], v); index
            # expressions in this code base have no side effects
            load = ast.Subscript(value=node.target.value,
                                 slice=node.target.slice, ctx=ast.Load())
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=self._call(node, "__v_div__", load, node.value)), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            if f.attr in ("keys", "values", "items") and not node.args \
                    and not node.keywords:
                return self._call(node, "__v_dictcall__", f.value,
                                  ast.Constant(value=f.attr))
            if f.attr in ("iterkeys", "itervalues", "iteritems") \
                    and not node.args:
                return self._call(node, "__v_iterdict__", f.value,
                                  ast.Constant(value=f.attr))
            if f.attr == "has_key":
                return self._call(node, "__v_has_key__", f.value, *node.args)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            sym = {ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=",
                   ast.GtE: ">="}.get(type(node.ops[0]))
            if sym:
                return self._call(node, "__v_compare__",
                                  ast.Constant(value=sym), node.left,
                                  node.comparators[0])
        return node

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        body = []
        for st in node.body:
            if (isinstance(st, ast.Assign) and len(st.targets) == 1 and
                    isinstance(st.targets[0], ast.Name) and
                    st.targets[0].id == "__metaclass__"):
                if not node.keywords:
                    node.keywords = [ast.keyword(arg="metaclass",
                                                 value=st.value)]
            else:
                body.append(st)
        node.body = body or [ast.Pass()]
        return node


_RT = {}


def _refactor(src, name):
    """2to3 with a print-statement grammar, else without, else verbatim."""
    if not src.endswith("\n"):
        src += "\n"
    for opts in ({}, {"print_function": True}):
        key = tuple(sorted(opts))
        if key not in _RT:
            _RT[key] = refactor.RefactoringTool(
                ["lib2to3.fixes.fix_" + f for f in FIXERS], opts)
        try:
            return str(_RT[key].refactor_string(src, name))
        except Exception:
            continue
    return src


def translate(path, modname, native=False):
    with open(path, encoding="utf-8", errors="replace") as f:
        src = f.read()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if native:
            return compile(src, path, "exec", dont_inherit=True)
        try:
            tree = ast.parse(src)      # already valid Python 3 syntax
        except SyntaxError:
            tree = ast.parse(_refactor(src, modname))
        future = any(isinstance(n, ast.ImportFrom) and
                     n.module == "__future__" and
                     any(a.name == "division" for a in n.names)
                     for n in tree.body)
        tree = _Rewrite(future).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)


class _Loader(importlib.abc.Loader):
    def __init__(self, path, native):
        self.path = path
        self.native = native

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = translate(self.path, module.__name__, self.native)
        if not self.native:
            module.__dict__["__builtins__"] = PY2
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, native=False):
        self.root = root
        self.native = native

    def find_spec(self, name, path=None, target=None):
        if name != "echidna" and not name.startswith("echidna."):
            return None
        base = os.path.join(self.root, *name.split("."))
        if os.path.isdir(base) and os.path.exists(
                os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, p, loader=_Loader(p, self.native),
                submodule_search_locations=[base])
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(
                name, p, loader=_Loader(p, self.native))
        return None


_finder = None


def install(root=None, native=False):
    """Install the hook (idempotent); `native` turns the translation off."""
    global _finder
    if _finder is None:
        _finder = Finder(root or REPO, native)
        sys.meta_path.insert(0, _finder)
        import fakes
        fakes.install()
    else:
        _finder.native = native
        if root:
            _finder.root = root
    return _finder


def run_script(path, argv):
    """Run a file of the code under test as __main__ with the py2 meaning."""
    code = translate(path, "__main__")
    mod = types.ModuleType("__main__")
    mod.__dict__["__builtins__"] = PY2
    mod.__dict__["__file__"] = path
    old = sys.argv
    sys.argv = [path] + list(argv)
    try:
        exec(code, mod.__dict__)
    finally:
        sys.argv = old
    return mod


def reset():
    for k in [k for k in sys.modules if k == "echidna" or
              k.startswith("echidna.")]:
        del sys.modules[k]
