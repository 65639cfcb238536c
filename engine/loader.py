"""Load a Python package from source as an instrumented copy that runs on symbolic values.

The package is read from disk and its AST rewritten on every run; nothing is
cached.  The rewriting only redirects operations that CPython hard-wires to its
own str/int/float/dict types (method calls on literals, f-strings, subscripts,
`in`, `%`, builtin constructors); control flow is left exactly as written and
forks when the interpreter asks a SymBool for its truth value.
"""

import ast
import builtins
import importlib.abc
import importlib.machinery
import math
import operator
import os
import string
import sys
import types

from . import sym
from .sym import (
    SymBool,
    SymNum,
    SymStr,
    Unsupported,
    conc,
    enumerate_value,
    lift,
    sym_or,
)

SYMT = (SymBool, SymNum, SymStr)
ENTERED = set()


def is_sym(v):
    return isinstance(v, SYMT)


def pin_all(v):
    """A fully concrete copy of v (concretising what it must)."""
    if isinstance(v, SymNum):
        return v._pin()
    if isinstance(v, SymStr):
        return v.pin()
    if isinstance(v, SymBool):
        return bool(v)
    t = type(v)
    if t in (list, tuple, set):
        return t(pin_all(x) for x in v)
    if t is dict:
        return {pin_all(k): pin_all(x) for k, x in v.items()}
    return v


# ----------------------------------------------------------------------
# builtin types
# ----------------------------------------------------------------------
class _TypeMeta(type):
    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __instancecheck__(cls, o):
        return s_isinstance(o, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(unwrap(c), cls._real)

    def __getattr__(cls, name):
        v = getattr(cls._real, name)
        if callable(v) and cls._real is str and name not in ("maketrans", "__new__", "__init__"):
            def meth(self, *a, **k):
                return S.cm(self, name, *a, **k)
            return meth
        return v

    def __or__(cls, o):
        return cls._real | unwrap(o)

    def __ror__(cls, o):
        return unwrap(o) | cls._real

    def __eq__(cls, o):
        return cls is o or o is cls._real

    def __ne__(cls, o):
        return not (cls is o or o is cls._real)

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)


class IntT(metaclass=_TypeMeta):
    _real = int

    def _make(x=0, *a, **k):
        if isinstance(x, SymNum):
            return sym.sym_int(x)
        if isinstance(x, SymBool):
            return int(bool(x))
        if isinstance(x, SymStr):
            base = a[0] if a else k.get("base", 10)
            return sym.parse_int(x, base)
        if not isinstance(x, (str, bytes)) and hasattr(type(x), "__int__") and not isinstance(x, (int, float)):
            return type(x).__int__(x)
        return int(x, *a, **k)


class FloatT(metaclass=_TypeMeta):
    _real = float

    def _make(x=0.0):
        if isinstance(x, SymNum):
            return sym.sym_float(x)
        if isinstance(x, SymBool):
            return float(bool(x))
        if isinstance(x, SymStr):
            return sym.parse_float(x)
        return float(x)


class StrT(metaclass=_TypeMeta):
    _real = str

    def _make(x="", *a, **k):
        if a or k:
            return str(x, *a, **k)
        return s_str(x)


class BoolT(metaclass=_TypeMeta):
    _real = bool

    def _make(x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymNum):
            return sym.compare("!=", x, 0)
        return bool(x)


for _c, _n in ((IntT, "int"), (FloatT, "float"), (StrT, "str"), (BoolT, "bool")):
    _c.__name__ = _c.__qualname__ = _n
    _c.__module__ = "builtins"

_PROXY = {int: IntT, float: FloatT, str: StrT, bool: BoolT}


def unwrap(c):
    if isinstance(c, tuple):
        return tuple(unwrap(x) for x in c)
    if type(c) is _TypeMeta:
        return c._real
    if c is s_type:
        return type
    return c


def base_type(o):
    if isinstance(o, SymNum):
        return int if o.kind == "int" else float
    if isinstance(o, SymStr):
        return str
    if isinstance(o, SymBool):
        return bool
    return None


def s_isinstance(o, cls):
    t = base_type(o)
    cls = unwrap(cls)
    if t is not None:
        return issubclass(t, cls)
    return isinstance(o, cls)


def s_issubclass(c, cls):
    return issubclass(unwrap(c), unwrap(cls))


def s_type(*a, **k):
    if len(a) == 1 and not k:
        t = base_type(a[0]) or type(a[0])
        return _PROXY.get(t, t)
    a = (a[0], tuple(unwrap(b) for b in a[1])) + a[2:]
    return type(*a, **k)


# ----------------------------------------------------------------------
# text
# ----------------------------------------------------------------------
def text(parts):
    """Concatenate str/SymStr/SymNum parts, lazily if any is symbolic."""
    if any(not isinstance(p, str) for p in parts):
        return SymStr(parts=list(parts))
    return "".join(parts)


def has_sym(o, depth=3):
    if is_sym(o):
        return True
    if depth and isinstance(o, (list, tuple, set, frozenset)):
        return any(has_sym(x, depth - 1) for x in o)
    if depth and isinstance(o, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in o.items())
    return False


def s_str(o):
    if isinstance(o, str):
        return o if type(o) is str else str(o)
    if isinstance(o, SymStr):
        return o
    if isinstance(o, SymNum):
        return SymStr(parts=[o])
    if isinstance(o, SymBool):
        return str(bool(o))
    if isinstance(o, BaseException) and type(o).__str__ in (
        BaseException.__str__,
        Exception.__str__,
        ValueError.__str__,
    ):
        if len(o.args) == 1:
            return s_str(o.args[0])
        return str(o) if not has_sym(o.args) else s_repr(o.args)
    t = type(o)
    m = t.__str__
    if m is object.__str__:
        return s_repr(o)
    if isinstance(m, types.FunctionType):
        r = m(o)
        if not isinstance(r, (str, SymStr)):
            raise TypeError(f"__str__ returned non-string (type {type(r).__name__})")
        return r
    if isinstance(o, (list, tuple, dict, set, frozenset)):
        return s_repr(o)
    return str(o)


def s_repr(o):
    if isinstance(o, SymStr):
        return sym.sym_repr_str(o)
    if isinstance(o, SymNum):
        return SymStr(parts=[o])
    if isinstance(o, SymBool):
        return str(bool(o))
    t = type(o)
    m = t.__repr__
    if isinstance(m, types.FunctionType):
        r = m(o)
        if not isinstance(r, (str, SymStr)):
            raise TypeError(f"__repr__ returned non-string (type {type(r).__name__})")
        return r
    if t in (list, tuple):
        a, b = ("[", "]") if t is list else ("(", ",)" if len(o) == 1 else ")")
        parts = [a]
        for i, x in enumerate(o):
            if i:
                parts.append(", ")
            parts.append(s_repr(x))
        parts.append(b)
        return text(parts)
    if t is dict:
        parts = ["{"]
        for i, (k, x) in enumerate(o.items()):
            if i:
                parts.append(", ")
            parts += [s_repr(k), ": ", s_repr(x)]
        parts.append("}")
        return text(parts)
    if isinstance(o, (set, frozenset, dict)) and has_sym(o):
        return repr(pin_all(o))
    return repr(o)


def s_format(o, spec=""):
    if not spec:
        m = type(o).__format__
        if is_sym(o) or m is object.__format__:
            return s_str(o)
        if isinstance(m, types.FunctionType):
            return m(o, "")
        return format(o, "")
    spec = pin_all(spec)
    if isinstance(o, SymNum) and o.kind == "int" and spec == "d":
        return SymStr(parts=[o])
    if isinstance(o, SymStr) and spec == "s":
        return o
    if is_sym(o):
        return format(pin_all(o), spec)
    m = type(o).__format__
    if isinstance(m, types.FunctionType):
        return m(o, spec)
    return format(o, spec)


_FMT = string.Formatter()


def str_format(fmt, args, kw):
    parts = []
    auto = 0
    for lit, field, spec, conv in _FMT.parse(fmt):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto) + field
            auto += 1
        obj, _ = _FMT.get_field(field, args, kw)
        if conv == "r":
            obj = s_repr(obj)
        elif conv == "s":
            obj = s_str(obj)
        if spec and "{" in spec:
            spec = pin_all(str_format(spec, args, kw))
        parts.append(s_format(obj, spec or ""))
    return text(parts)


def str_percent(fmt, arg):
    args = arg if isinstance(arg, tuple) else (arg,)
    isdict = isinstance(arg, dict)
    parts = []
    i = n = 0
    while i < len(fmt):
        j = fmt.find("%", i)
        if j < 0:
            parts.append(fmt[i:])
            break
        parts.append(fmt[i:j])
        j += 1
        if j < len(fmt) and fmt[j] == "%":
            parts.append("%")
            i = j + 1
            continue
        key = None
        if isdict and j < len(fmt) and fmt[j] == "(":
            k = fmt.index(")", j)
            key = fmt[j + 1 : k]
            j = k + 1
        if j < len(fmt) and fmt[j] in "srd":
            if key is None:
                if n >= len(args):
                    raise TypeError("not enough arguments for format string")
                v = args[n]
                n += 1
            else:
                v = arg[key]
            if fmt[j] == "s":
                parts.append(s_str(v))
            elif fmt[j] == "r":
                parts.append(s_repr(v))
            else:
                parts.append(s_str(sym.sym_int(v)))
            i = j + 1
            continue
        return fmt % pin_all(arg)
    if not isdict and n < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return text(parts)


# ----------------------------------------------------------------------
# runtime hooks called from rewritten code
# ----------------------------------------------------------------------
def eq(a, b):
    """a == b as a bool or SymBool (without forking where possible)."""
    r = a == b
    return r


_MISSING = object()


# dicts holding symbolic keys on this path: id -> dict
SYMDICTS = {}


def key_eq(a, b):
    """a == b for dict keys, as a bool or SymBool."""
    if a is b:
        return True
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        rs = []
        for x, y in zip(a, b):
            r = key_eq(x, y)
            if r is False:
                return False
            rs.append(r)
        return sym.sym_and(rs)
    if isinstance(a, (str, SymStr)) != isinstance(b, (str, SymStr)):
        return False
    if is_sym(a) or is_sym(b):
        r = eq(a, b) if is_sym(a) else eq(b, a)
    else:
        r = a == b
    return False if r is NotImplemented else r


def find_key(d, key):
    """The key of d equal to key (forking over the candidates), or _MISSING."""
    for k in list(d):
        r = key_eq(key, k)
        if r is not False and bool(r):
            return k
    return _MISSING


def by_id(fn, *a):
    """Run a dict operation with symbolic keys hashed by identity."""
    old, sym.HASH_BY_ID = sym.HASH_BY_ID, True
    try:
        return fn(*a)
    finally:
        sym.HASH_BY_ID = old


def sym_key(d, key):
    return has_sym(key) or (id(d) in SYMDICTS)


def dict_lookup(d, key):
    """Value stored under a symbolic key, forking over the keys it could equal."""
    k = find_key(d, key)
    return _MISSING if k is _MISSING else by_id(dict.__getitem__, d, k)


def dict_store(d, key, v):
    k = find_key(d, key)
    if k is _MISSING:
        k = key
        if has_sym(key):
            SYMDICTS[id(d)] = d
    by_id(type(d).__setitem__, d, k, v)


def plain_dict(d, op="__getitem__"):
    return isinstance(d, dict) and not isinstance(getattr(type(d), op), types.FunctionType)


class S:
    """Namespace of the runtime hooks (bound to __S in rewritten modules)."""

    @staticmethod
    def enter(name):
        ENTERED.add(name)

    @staticmethod
    def base(c):
        return unwrap(c)

    @staticmethod
    def cm(obj, name, *a, **k):
        t = type(obj)
        if t is str:
            if name == "join":
                items = list(a[0])
                if any(isinstance(x, SymStr) for x in items):
                    return sym.sym_join(obj, items)
                return obj.join(items)
            if name == "format":
                if a or k:
                    return str_format(obj, a, k)
                return obj.format()
            if any(is_sym(x) or (isinstance(x, tuple) and has_sym(x)) for x in a) or (
                k and any(is_sym(x) for x in k.values())
            ):
                return getattr(lift(obj), name)(*a, **k)
            return getattr(obj, name)(*a, **k)
        if t is SymStr and name == "format":
            return pin_all(obj).format(*a, **k)
        if a and name in ("get", "pop", "setdefault") and isinstance(obj, dict) and sym_key(obj, a[0]):
            k_ = find_key(obj, a[0])
            if name == "setdefault" and k_ is _MISSING:
                v = a[1] if len(a) > 1 else None
                dict_store(obj, a[0], v)
                return v
            if k_ is _MISSING:
                if name == "pop" and len(a) < 2:
                    raise KeyError(a[0])
                return a[1] if len(a) > 1 else None
            return by_id(type(obj).pop if name == "pop" else dict.__getitem__, obj, k_)
        return getattr(obj, name)(*a, **k)

    @staticmethod
    def gi(obj, idx):
        if isinstance(obj, dict) and plain_dict(obj) and sym_key(obj, idx):
            r = dict_lookup(obj, idx)
            if r is _MISSING:
                if hasattr(type(obj), "__missing__"):
                    return obj[pin_all(idx)]
                raise KeyError(idx)
            return r
        if is_sym(idx):
            if isinstance(idx, SymNum) and isinstance(obj, (list, tuple, str)):
                return obj[enumerate_value(idx)]
        return obj[idx]

    @staticmethod
    def si(v, obj, idx):
        """obj[idx] = v"""
        if isinstance(obj, dict) and plain_dict(obj, "__setitem__") and sym_key(obj, idx):
            dict_store(obj, idx, v)
        elif is_sym(idx) and isinstance(idx, SymNum) and isinstance(obj, list):
            obj[enumerate_value(idx)] = v
        else:
            obj[idx] = v

    @staticmethod
    def di(obj, idx):
        """del obj[idx]"""
        if isinstance(obj, dict) and plain_dict(obj, "__delitem__") and sym_key(obj, idx):
            k = find_key(obj, idx)
            if k is _MISSING:
                raise KeyError(idx)
            by_id(type(obj).__delitem__, obj, k)
        else:
            del obj[idx]

    @staticmethod
    def contains(c, item):
        if isinstance(c, dict) and plain_dict(c, "__contains__") and (id(c) in SYMDICTS or type(item) is tuple and has_sym(item)):
            return find_key(c, item) is not _MISSING
        if isinstance(c, str) and isinstance(item, SymStr):
            return item in lift(c)
        if isinstance(item, SymStr) or isinstance(item, SymNum):
            if isinstance(c, (set, frozenset, dict)) and not isinstance(
                type(c).__contains__, types.FunctionType
            ):
                cand = [k for k in c if not (isinstance(k, str) and isinstance(item, SymNum))]
                if isinstance(item, SymStr):
                    cand = [k for k in cand if isinstance(k, (str, SymStr))]
                cand.sort(key=_order)
                return bool(sym_or([r for r in (eq(item, k) for k in cand) if r is not NotImplemented]))
            if isinstance(c, (list, tuple)) and type(c).__contains__ in (
                list.__contains__,
                tuple.__contains__,
            ):
                rs = [x is item or eq(item, x) for x in c]
                return bool(sym_or(rs))
        return item in c

    @staticmethod
    def fstr(lazy, *parts):
        out = []
        for p in parts:
            if type(p) is tuple:
                v, conv, spec = p
                if conv == "r":
                    v = s_repr(v)
                elif conv == "s":
                    v = s_str(v)
                elif conv == "a":
                    v = ascii(pin_all(v))
                if lazy and not spec and not isinstance(v, (str, int, float)) and not is_sym(v):
                    out.append(LazyObj(v))
                else:
                    out.append(s_format(v, spec))
            else:
                out.append(p)
        return text(out)

    @staticmethod
    def mod(a, b):
        if isinstance(a, str):
            return str_percent(a, b)
        if isinstance(a, SymStr):
            return pin_all(a) % b
        return a % b


def _order(k):
    return (str(type(k).__name__), repr(k) if not is_sym(k) else "")


class LazyObj(SymStr):
    """Text of an object, computed only if somebody looks at it (error messages)."""

    __slots__ = ("_obj",)

    def __init__(self, obj):
        self._obj = obj
        self._chars = self._parts = self._c = None

    def _text(self):
        t = s_format(self._obj, "")
        return t

    @property
    def c(self):
        if self._c is None:
            t = self._text()
            self._c = conc(t)
        return self._c

    @property
    def chars(self):
        if self._chars is None:
            self._chars = lift(self._text()).chars
        return self._chars


# ----------------------------------------------------------------------
# builtins and stdlib shims
# ----------------------------------------------------------------------
def _named(o, name):
    """Attribute name as a plain string; forks over the names a symbolic one could be."""
    if not isinstance(name, SymStr):
        return name
    names = set(dir(type(o))) | set(getattr(o, "__dict__", ()))
    for n in sorted(names):
        if len(n) == len(name) and bool(name == n):
            return n
    return pin_all(name)


def s_getattr(o, name, *d):
    return getattr(o, _named(o, name), *d)


def s_setattr(o, name, v):
    return setattr(o, _named(o, name), v)


def s_delattr(o, name):
    return delattr(o, _named(o, name))


def s_hasattr(o, name):
    return hasattr(o, _named(o, name))


def _minmax(which, real):
    def f(*a, **k):
        vals = list(a[0]) if len(a) == 1 else list(a)
        if vals and not k and any(isinstance(v, SymNum) for v in vals) and all(
            sym.is_num(v) and sym.finite(v) for v in vals
        ):
            return sym.sym_minmax(vals, which)
        return real(vals, **k)

    return f


def s_round(x, nd=None):
    if isinstance(x, SymNum):
        return x.__round__(nd)
    return round(x) if nd is None else round(x, nd)


def s_abs(x):
    if isinstance(x, SymNum):
        c = sym.compare(">=", x, 0)
        return sym.sym_ite(c, x, -x) if isinstance(c, SymBool) else (x if c else -x)
    return abs(x)


def s_ord(x):
    if isinstance(x, SymStr):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return x.chars[0]
    return ord(x)


def s_chr(x):
    if isinstance(x, SymNum):
        return SymStr([x])
    return chr(x)


def s_callable(x):
    return callable(x)


def s_int_like(fn):
    def f(*a, **k):
        return fn(*[pin_all(x) for x in a], **k)

    return f


class Shim(types.ModuleType):
    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__.update(over)
        self.__dict__["_real"] = real

    def __getattr__(self, name):
        v = getattr(self._real, name)
        if isinstance(v, (types.BuiltinFunctionType, types.FunctionType)):
            return s_int_like(v)
        return v


def _isfinite(real):
    def f(x):
        if isinstance(x, (SymNum, SymBool)):
            return real(1.0)
        return real(x)

    return f


def s_literal_eval(node):
    import ast as _ast

    if not isinstance(node, SymStr):
        return _ast.literal_eval(node)
    ch = node.chars
    if len(ch) >= 2:
        q = ch[0]
        if bool(sym.sym_or([sym.ch_eq(q, 39), sym.ch_eq(q, 34)])):
            q = 39 if bool(sym.ch_eq(q, 39)) else 34
            if bool(sym.ch_eq(ch[-1], q)):
                bad = []
                for x in ch[1:-1]:
                    bad += [sym.ch_eq(x, q), sym.ch_eq(x, 92), sym.ch_eq(x, 10), sym.ch_eq(x, 13), sym.ch_eq(x, 0)]
                if not bool(sym_or(bad)):
                    return node[1:-1]
                out, i, body = [], 0, ch[1:-1]
                while i < len(body):
                    x = body[i]
                    if bool(sym_or([sym.ch_eq(x, k) for k in (q, 10, 13, 0)])):
                        break
                    if bool(sym.ch_eq(x, 92)):
                        # only \\ \' \" here; other escapes are concretised
                        i += 1
                        if i == len(body) or not bool(sym_or([sym.ch_eq(body[i], k) for k in (39, 34, 92)])):
                            break
                        x = body[i]
                    out.append(x)
                    i += 1
                else:
                    return node._out(out)
    # printable text that is plainly not a literal
    return _ast.literal_eval(node.pin())


class _LruCache:
    """functools.lru_cache without hashing: keys are compared with ==."""

    registry = []

    def __init__(self, fn, maxsize=None, typed=False):
        self.__wrapped__ = fn
        self.__name__ = getattr(fn, "__name__", "cached")
        self.__doc__ = getattr(fn, "__doc__", None)
        self.maxsize = maxsize
        self.entries = []
        _LruCache.registry.append(self)

    def _find(self, a, k):
        for ent in self.entries:
            (ea, ek), _ = ent
            if len(ea) != len(a) or ek.keys() != k.keys():
                continue
            if all(bool(x is y or x == y) for x, y in zip(ea, a)) and all(
                bool(ek[n] == k[n]) for n in k
            ):
                return ent
        return None

    def __call__(self, *a, **k):
        for v in list(a) + list(k.values()):
            if not is_sym(v):
                hash(v)
        ent = self._find(a, k)
        if ent is not None:
            self.entries.remove(ent)
            self.entries.append(ent)
            return ent[1]
        r = self.__wrapped__(*a, **k)
        self.entries.append(((a, k), r))
        if self.maxsize is not None and len(self.entries) > self.maxsize:
            del self.entries[0]
        return r

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def cache_clear(self):
        self.entries.clear()


def s_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _LruCache(maxsize, 128)
    return lambda fn: _LruCache(fn, maxsize, typed)


def s_cache(fn):
    return _LruCache(fn, None)


def _shims():
    import ast as _ast
    import functools as _ft
    import re as _re

    from . import symre

    return {
        "math": Shim(
            math,
            isfinite=_isfinite(math.isfinite),
            isnan=_isfinite(math.isnan),
            isinf=_isfinite(math.isinf),
            floor=lambda x: sym.sym_floor(x) if isinstance(x, SymNum) else math.floor(x),
            ceil=lambda x: -sym.sym_floor(-x) if isinstance(x, SymNum) else math.ceil(x),
            trunc=lambda x: sym.sym_int(x) if isinstance(x, SymNum) else math.trunc(x),
            fabs=lambda x: s_abs(sym.sym_float(x)),
        ),
        "ast": Shim(_ast, literal_eval=s_literal_eval),
        "functools": Shim(
            _ft,
            lru_cache=s_lru_cache,
            cache=s_cache,
            wraps=_ft.wraps,
            partial=_ft.partial,
            reduce=_ft.reduce,
            total_ordering=_ft.total_ordering,
            cached_property=_ft.cached_property,
            cmp_to_key=_ft.cmp_to_key,
        ),
        "re": symre.shim(_re),
        "operator": operator,
    }


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []
        self.lazy = 0

    # statements -------------------------------------------------------
    def _body(self, stmts):
        """Statements directly before a raise build its message: text there is lazy."""
        out = []
        for i, st in enumerate(stmts):
            nxt = stmts[i + 1] if i + 1 < len(stmts) else None
            lazy = isinstance(nxt, ast.Raise) and isinstance(st, ast.Assign)
            self.lazy += lazy
            r = self.visit(st)
            self.lazy -= lazy
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if isinstance(old, list):
                if old and isinstance(old[0], ast.stmt):
                    setattr(node, field, self._body(old))
                else:
                    new = []
                    for v in old:
                        if isinstance(v, ast.AST):
                            v = self.visit(v)
                            if v is None:
                                continue
                        new.append(v)
                    setattr(node, field, new)
            elif isinstance(old, ast.AST):
                new = self.visit(old)
                if new is None:
                    delattr(node, field)
                else:
                    setattr(node, field, new)
        return node

    def _func(self, node):
        self.stack.append(node.name)
        qual = f"{self.modname}.{'.'.join(self.stack)}"
        node.returns = None
        for a in (
            node.args.args
            + node.args.posonlyargs
            + node.args.kwonlyargs
            + [x for x in (node.args.vararg, node.args.kwarg) if x]
        ):
            a.annotation = None
        lazy, self.lazy = self.lazy, 0
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        body = self._body(node.body)
        self.lazy = lazy
        self.stack.pop()
        pos = 0
        if (
            body
            and isinstance(body[0], ast.Expr)
            and isinstance(body[0].value, ast.Constant)
            and isinstance(body[0].value.value, str)
        ):
            pos = 1
        call = ast.Expr(self._call("enter", [ast.Constant(qual)]))
        body.insert(pos, call)
        node.body = body
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self._call("base", [self.visit(b)]) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        node.body = self._body(node.body)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_Raise(self, node):
        self.lazy += 1
        self.generic_visit(node)
        self.lazy -= 1
        return node

    def visit_MatchClass(self, node):
        node.patterns = [self.visit(p) for p in node.patterns]
        node.kwd_patterns = [self.visit(p) for p in node.kwd_patterns]
        return node

    # expressions ------------------------------------------------------
    @staticmethod
    def _call(name, args, keywords=()):
        return ast.Call(
            func=ast.Attribute(
                value=ast.Name(id="_S_hook_", ctx=ast.Load()), attr=name, ctx=ast.Load()
            ),
            args=list(args),
            keywords=list(keywords),
        )

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and not (
            f.attr.startswith("__") and not f.attr.endswith("__")
        ):
            obj = self.visit(f.value)
            args = [self.visit(a) for a in node.args]
            kws = [self.visit(k) for k in node.keywords]
            return self._call("cm", [obj, ast.Constant(f.attr)] + args, kws)
        return self.generic_visit(node)

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(None)
                sl = ast.Call(
                    func=ast.Name(id="_S_slice_", ctx=ast.Load()),
                    args=[sl.lower or none, sl.upper or none, sl.step or none],
                    keywords=[],
                )
            elif isinstance(sl, ast.Tuple) and any(
                isinstance(e, (ast.Slice, ast.Starred)) for e in sl.elts
            ):
                return node
            return self._call("gi", [node.value, sl])
        return node

    @staticmethod
    def _plain_index(t):
        return isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice) and not (
            isinstance(t.slice, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in t.slice.elts)
        )

    def visit_Assign(self, node):
        node = self.generic_visit(node)
        if len(node.targets) == 1 and self._plain_index(node.targets[0]):
            t = node.targets[0]
            return ast.Expr(self._call("si", [node.value, t.value, t.slice]))
        return node

    def visit_Delete(self, node):
        node = self.generic_visit(node)
        out = []
        for t in node.targets:
            if self._plain_index(t):
                out.append(ast.Expr(self._call("di", [t.value, t.slice])))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = self._call("contains", [node.comparators[0], node.left])
            # keep Python's evaluation order (left operand first)
            call = ast.Call(
                func=ast.Attribute(
                    value=ast.Name(id="_S_hook_", ctx=ast.Load()),
                    attr="contains_lr",
                    ctx=ast.Load(),
                ),
                args=[node.left, node.comparators[0]],
                keywords=[],
            )
            if isinstance(node.ops[0], ast.NotIn):
                return ast.UnaryOp(op=ast.Not(), operand=call)
            return call
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("mod", [node.left, node.right])
        return node

    def visit_JoinedStr(self, node):
        parts = [ast.Constant(bool(self.lazy))]
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = chr(v.conversion) if v.conversion != -1 else ""
                spec = (
                    self.visit(v.format_spec)
                    if v.format_spec is not None
                    else ast.Constant("")
                )
                parts.append(
                    ast.Tuple(
                        elts=[self.visit(v.value), ast.Constant(conv), spec],
                        ctx=ast.Load(),
                    )
                )
        return self._call("fstr", parts)


S.contains_lr = staticmethod(lambda item, c: S.contains(c, item))


def rewrite(source, filename, modname):
    tree = ast.parse(source, filename)
    body = tree.body
    pos = 0
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


def make_builtins(real_pkg, sym_pkg):
    b = dict(vars(builtins))
    shims = _shims()

    def s_import(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name == real_pkg or name.startswith(real_pkg + "."):
                name = sym_pkg + name[len(real_pkg) :]
            if name in shims:
                return shims[name]
        return builtins.__import__(name, globals, locals, fromlist, level)

    b.update(
        int=IntT,
        float=FloatT,
        str=StrT,
        bool=BoolT,
        type=s_type,
        isinstance=s_isinstance,
        issubclass=s_issubclass,
        repr=s_repr,
        format=s_format,
        getattr=s_getattr,
        setattr=s_setattr,
        delattr=s_delattr,
        hasattr=s_hasattr,
        min=_minmax("min", min),
        max=_minmax("max", max),
        round=s_round,
        abs=s_abs,
        ord=s_ord,
        chr=s_chr,
        __import__=s_import,
    )
    return b


class SymFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Serves <sym_pkg>.* from the directory of the real package, instrumented."""

    def __init__(self, real_pkg, sym_pkg, root):
        self.real_pkg, self.sym_pkg, self.root = real_pkg, sym_pkg, root
        self.builtins = make_builtins(real_pkg, sym_pkg)
        self.loaded = []

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.sym_pkg and not fullname.startswith(self.sym_pkg + "."):
            return None
        rel = fullname[len(self.sym_pkg) :].strip(".").replace(".", os.sep)
        base = os.path.join(self.root, rel) if rel else self.root
        if os.path.isdir(base):
            fn = os.path.join(base, "__init__.py")
            if os.path.exists(fn) or not rel:
                spec = importlib.machinery.ModuleSpec(
                    fullname, self, origin=fn, is_package=True
                )
                spec.submodule_search_locations = [base]
                return spec
        fn = base + ".py"
        if os.path.exists(fn):
            return importlib.machinery.ModuleSpec(fullname, self, origin=fn)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn, encoding="utf-8") as f:
            src = f.read()
        name = module.__name__[len(self.sym_pkg) :].strip(".") or "__init__"
        code = rewrite(src, fn, name)
        module.__dict__["__builtins__"] = self.builtins
        module.__dict__["_S_hook_"] = S
        module.__dict__["_S_slice_"] = slice
        module.__dict__["__file__"] = fn
        self.loaded.append(module.__name__)
        exec(code, module.__dict__)


def install(real_pkg, sym_pkg, root):
    finder = SymFinder(real_pkg, sym_pkg, root)
    sys.meta_path.insert(0, finder)
    return finder


# ----------------------------------------------------------------------
# module state snapshot / restore between paths
# ----------------------------------------------------------------------
class Snapshot:
    """Contents of every mutable object reachable from a package's modules."""

    def __init__(self, prefix):
        self.items = []
        self.lrus = []
        seen = set()
        stack = [
            m for n, m in list(sys.modules.items()) if n == prefix or n.startswith(prefix + ".")
        ]
        mods = {id(m) for m in stack}
        while stack:
            o = stack.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, types.ModuleType):
                if id(o) not in mods:
                    continue
                d = {k: v for k, v in o.__dict__.items() if k not in ("__builtins__", "_S_hook_")}
                self.items.append(("mod", o.__dict__, dict(o.__dict__)))
                stack.extend(d.values())
            elif type(o) is list:
                self.items.append(("list", o, list(o)))
                stack.extend(o)
            elif isinstance(o, dict):
                self.items.append(("dict", o, dict(o)))
                stack.extend(o.values())
            elif type(o) is set:
                self.items.append(("set", o, set(o)))
                stack.extend(o)
            elif type(o) in (tuple, frozenset):
                stack.extend(o)
            elif isinstance(o, type):
                if (o.__module__ or "").split(".")[0] != prefix:
                    continue
                self.items.append(("class", o, dict(vars(o))))
                stack.extend(vars(o).values())
            elif isinstance(o, types.FunctionType):
                if o.__defaults__:
                    stack.extend(o.__defaults__)
                if o.__kwdefaults__:
                    stack.extend(o.__kwdefaults__.values())
                for cell in o.__closure__ or ():
                    try:
                        stack.append(cell.cell_contents)
                        self.items.append(("cell", cell, cell.cell_contents))
                    except ValueError:
                        pass
                if o.__dict__:
                    self.items.append(("dict", o.__dict__, dict(o.__dict__)))
                    stack.extend(o.__dict__.values())
            elif isinstance(o, (property,)):
                stack.extend([o.fget, o.fset, o.fdel])
            elif isinstance(o, (staticmethod, classmethod)):
                stack.append(o.__func__)
            elif isinstance(o, _LruCache):
                self.lrus.append(o)
                stack.append(o.__wrapped__)
            elif hasattr(o, "cache_clear") and hasattr(o, "__wrapped__"):
                self.lrus.append(o)
                stack.append(o.__wrapped__)
            elif hasattr(o, "__dict__") and (type(o).__module__ or "").split(".")[0] == prefix:
                self.items.append(("dict", o.__dict__, dict(o.__dict__)))
                stack.extend(o.__dict__.values())

    def restore(self):
        for c in self.lrus:
            c.cache_clear()
        for d in SYMDICTS.values():
            d.clear()
        SYMDICTS.clear()
        for kind, o, saved in self.items:
            if kind == "list":
                if len(o) != len(saved) or any(a is not b for a, b in zip(o, saved)):
                    o[:] = saved
            elif kind in ("dict", "mod"):
                if len(o) != len(saved) or any(o.get(k, _MISSING) is not v for k, v in saved.items()):
                    for k in [k for k in o if k not in saved]:
                        del o[k]
                    o.update(saved)
            elif kind == "set":
                if o != saved:
                    o.clear()
                    o.update(saved)
            elif kind == "cell":
                if o.cell_contents is not saved:
                    o.cell_contents = saved
            elif kind == "class":
                cur = vars(o)
                if len(cur) != len(saved) or any(cur.get(k, _MISSING) is not v for k, v in saved.items()):
                    for k in list(cur):
                        if k not in saved:
                            delattr(o, k)
                    for k, v in saved.items():
                        if cur.get(k, _MISSING) is not v:
                            setattr(o, k, v)
