"""Symbolic values for the colosseum checks.

Every symbolic value carries (a) an exact term over solver variables ("atoms")
and (b) the concrete value it has on the path being executed.  Executing the
(instrumented) repository code on these values yields one program path together
with its path condition; explore.py drives the solver over the path tree until
every feasible path inside the bounds has been covered.

Numbers are linear forms  (sum(t[a]*a) + k) / d  over Int/Real atoms with exact
integer coefficients.  Anything that is not linear (max/min, rounding, floor
division, products) introduces a fresh atom whose defining constraint is added
to the path.  Python floats are modelled as the exact rationals they are; an
operation whose exact result is not provably representable in binary64 yields a
fresh Real atom within one rounding error of the exact result.
"""

import math
from fractions import Fraction
from math import gcd

import z3

EPS = Fraction(1, 2**52)  # >= 2 * unit roundoff of binary64
TINY = Fraction(1, 2**1000)
BIG = 2**53


# set while the loader stores a symbolic key in a dict it looks up by comparison
HASH_BY_ID = False


class Unsupported(BaseException):
    """Raised where the symbolic machinery cannot follow the code (never a verdict)."""


class Assume(BaseException):
    """The current path contradicts an assumption."""


class Ctx:
    """State of one symbolic execution of one path."""

    def __init__(self, inputs, noise=True):
        self.inputs = inputs  # name -> concrete value requested by the solver
        self.used = {}  # name -> (spec, concrete value)
        self.trace = []  # ('branch', SymBool, taken) | ('def', z3) | ('assert', SymBool, label) | ('assume', ..)
        self.decided = {}
        self.nfresh = 0
        self.nbranch = 0
        self.concretized = 0
        self.choices = {}
        self.observed = []
        self.failed = []
        self.covers = set()
        self.folded = {}
        self.rounded = {}
        self.floats = {}
        self.monos = {}
        self.ints = {}
        self.max_branches = 20000

    # -- atoms ---------------------------------------------------------
    def fresh(self, tag, isint, lo=None, hi=None):
        self.nfresh += 1
        return atom(f"{tag}!{self.nfresh}", isint, lo, hi)

    def define(self, expr, product=False):
        self.trace.append(("def", expr, product))

    # -- branching -----------------------------------------------------
    def branch(self, b):
        key = b.key
        got = self.decided.get(key)
        if got is not None:
            return got
        taken = b.c
        self.decided[key] = taken
        self.decided[negkey(key)] = not taken
        self.nbranch += 1
        if self.nbranch > self.max_branches:
            raise Unsupported("too many branches on one path")
        self.trace.append(("branch", b, taken))
        return taken

    def pin(self, b):
        """Concretise: assume b (true on this path) without exploring its negation."""
        key = b.key
        if key in self.decided:
            return
        self.decided[key] = True
        self.decided[negkey(key)] = False
        self.concretized += 1
        self.trace.append(("pin", b, True))


CUR = None  # the Ctx of the running path


def set_ctx(ctx):
    global CUR
    CUR = ctx


def cur():
    if CUR is None:
        raise Unsupported("symbolic value used outside a path")
    return CUR


class Atom:
    __slots__ = ("name", "isint", "lo", "hi", "_z")

    def __init__(self, name, isint, lo, hi):
        self.name, self.isint, self.lo, self.hi = name, isint, lo, hi
        self._z = None

    @property
    def z(self):
        if self._z is None:
            self._z = (z3.Int if self.isint else z3.Real)(self.name)
        return self._z

    def __repr__(self):
        return self.name


_ATOMS = {}


def atom(name, isint, lo=None, hi=None):
    key = (name, isint, lo, hi)
    a = _ATOMS.get(key)
    if a is None:
        if len(_ATOMS) > 200000:
            _ATOMS.clear()
        a = _ATOMS[key] = Atom(name, isint, lo, hi)
    return a


# ----------------------------------------------------------------------
# Booleans
# ----------------------------------------------------------------------
_NEG = {"<": ">=", ">=": "<", "<=": ">", ">": "<=", "==": "!=", "!=": "=="}


def negkey(key):
    if key[0] == "lin":
        return ("lin", _NEG[key[1]], key[2], key[3])
    if key[0] == "not":
        return key[1]
    return ("not", key)


_ZCACHE = {}


def lin_z3(items, k):
    if any(not a.isint for a, _ in items):
        s = z3.RealVal(k) if k or not items else None
        for a, c in items:
            v = z3.ToReal(a.z) if a.isint else a.z
            term = v if c == 1 else z3.RealVal(c) * v
            s = term if s is None else s + term
        return s
    s = z3.IntVal(k) if k or not items else None
    for a, c in items:
        term = a.z if c == 1 else z3.IntVal(c) * a.z
        s = term if s is None else s + term
    return s


def key_z3(key):
    z = _ZCACHE.get(key)
    if z is not None:
        return z
    tag = key[0]
    if tag == "lin":
        _, op, items, k = key
        lhs = lin_z3(items, k)
        zero = z3.RealVal(0) if lhs.sort() == z3.RealSort() else z3.IntVal(0)
        z = {
            "<": lambda: lhs < zero,
            "<=": lambda: lhs <= zero,
            ">": lambda: lhs > zero,
            ">=": lambda: lhs >= zero,
            "==": lambda: lhs == zero,
            "!=": lambda: lhs != zero,
        }[op]()
    elif tag == "not":
        z = z3.Not(key_z3(key[1]))
    elif tag == "and":
        z = z3.And(*[key_z3(x) for x in key[1]])
    elif tag == "or":
        z = z3.Or(*[key_z3(x) for x in key[1]])
    elif tag == "const":
        z = z3.BoolVal(key[1])
    else:
        raise Unsupported(f"bad boolean {tag}")
    if len(_ZCACHE) > 200000:
        _ZCACHE.clear()
    _ZCACHE[key] = z
    return z


class SymBool:
    __slots__ = ("key", "c")

    def __init__(self, key, c):
        self.key = key
        self.c = c

    def __bool__(self):
        return cur().branch(self)

    def z3(self):
        return key_z3(self.key)

    def __invert__(self):
        return SymBool(negkey(self.key), not self.c)

    def __and__(self, o):
        return sym_and([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return sym_or([self, o])

    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return bool(self) == bool(o)
        if isinstance(o, (int, float, SymNum)):
            return int(bool(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f"<SymBool {self.c}>"

    def __index__(self):
        return int(bool(self))

    __int__ = __index__


def as_key(b):
    if isinstance(b, SymBool):
        return b.key
    return ("const", bool(b))


def conc(v):
    """The concrete value of v on the current path."""
    if isinstance(v, (SymBool, SymNum, SymStr)):
        return v.c
    return v


def sym_and(bs):
    c = all(bool(conc(b)) for b in bs)
    keys = []
    for b in bs:
        if isinstance(b, SymBool):
            keys.append(b.key)
        elif not b:
            return False
    if not keys:
        return True
    if len(keys) == 1:
        return SymBool(keys[0], c)
    return SymBool(("and", tuple(keys)), c)


def sym_or(bs):
    c = any(bool(conc(b)) for b in bs)
    keys = []
    for b in bs:
        if isinstance(b, SymBool):
            keys.append(b.key)
        elif b:
            return True
    if not keys:
        return False
    if len(keys) == 1:
        return SymBool(keys[0], c)
    return SymBool(("or", tuple(keys)), c)


def sym_not(b):
    if isinstance(b, SymBool):
        return ~b
    return not b


# ----------------------------------------------------------------------
# Numbers
# ----------------------------------------------------------------------
def is_num(v):
    return isinstance(v, (SymNum, int, float)) and not isinstance(v, SymBool)


def lin_of(v):
    """(t, k, d) of a SymNum or a plain finite number."""
    if isinstance(v, SymNum):
        return v.t, v.k, v.d
    if isinstance(v, int):
        return {}, int(v), 1
    f = Fraction(v)
    return {}, f.numerator, f.denominator


def lin_add(a, b, sign=1):
    ta, ka, da = a
    tb, kb, db = b
    if da == db:
        d = da
        fa = fb = 1
    else:
        g = gcd(da, db)
        d = da // g * db
        fa, fb = d // da, d // db
    fb *= sign
    t = {x: c * fa for x, c in ta.items()} if fa != 1 else dict(ta)
    for x, c in tb.items():
        n = t.get(x, 0) + c * fb
        if n:
            t[x] = n
        else:
            t.pop(x, None)
    return lin_norm(t, ka * fa + kb * fb, d)


def lin_norm(t, k, d):
    if d != 1:
        g = gcd(d, k)
        if g != 1:
            for c in t.values():
                g = gcd(g, c)
                if g == 1:
                    break
        if g > 1:
            t = {x: c // g for x, c in t.items()}
            k //= g
            d //= g
    return t, k, d


def lin_scale(a, p, q):
    """a * p / q, exact."""
    t, k, d = a
    if p == 0:
        return {}, 0, 1
    if q < 0:
        p, q = -p, -q
    return lin_norm({x: c * p for x, c in t.items()}, k * p, d * q)


def lin_bounds(a):
    t, k, d = a
    lo = hi = k
    for x, c in t.items():
        if c > 0:
            l, h = x.lo, x.hi
        else:
            l, h = x.hi, x.lo
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
        if lo is None and hi is None:
            return None, None
    return (
        None if lo is None else Fraction(lo) / d,
        None if hi is None else Fraction(hi) / d,
    )


def lin_isint(a):
    return a[2] == 1 and all(x.isint for x in a[0])


def lin_z(a):
    """z3 Real/Int term of a linear form (Int only when d == 1 and all atoms Int)."""
    t, k, d = a
    items = tuple(t.items())
    s = lin_z3(items, k)
    if d == 1:
        return s
    if s.sort() == z3.IntSort():
        s = z3.ToReal(s)
    return s / z3.RealVal(d)


def lin_zr(a):
    s = lin_z(a)
    return z3.ToReal(s) if s.sort() == z3.IntSort() else s


def exact_float(a):
    """The linear form is always a binary64 value: dyadic lattice, bounded numerator."""
    t, k, d = a
    if d & (d - 1):
        return False
    if any(not x.isint for x in t):
        return False
    lo, hi = lin_bounds(a)
    if lo is None or hi is None:
        return False
    return max(abs(lo), abs(hi)) * d < BIG


def mk(lin, kind, c):
    if not lin[0]:
        # constant: hand back a plain number
        f = Fraction(lin[1], lin[2])
        if kind == "int" and f.denominator == 1:
            return f.numerator
        if kind == "float":
            return c
    s = SymNum.__new__(SymNum)
    s.t, s.k, s.d = lin
    s.kind = kind
    s.c = c
    return s


def mkf(lin, c, maybe_exact=False):
    """Result of a float operation with exact value `lin`."""
    if not lin[0]:
        return c
    if maybe_exact or exact_float(lin):
        return mk(lin, "float", c)
    if not math.isfinite(c):
        raise Unsupported("float overflow")
    # the result is the exact value plus a rounding error; rounding is a function of
    # the exact value and odd, so equal (or opposite) values get equal (opposite) errors
    ctx = cur()
    t, k, d = lin
    items = tuple(sorted(t.items(), key=lambda p: p[0].name))
    sign = 1
    if items[0][1] < 0:
        sign = -1
        items, k = tuple((x, -v) for x, v in items), -k
    key = (items, k, d)
    if key in ctx.floats:
        # exactly the value of an earlier float
        return mk(lin, "float", c)
    r = ctx.rounded.get(key)
    if r is None:
        lo, hi = lin_bounds(lin)
        m = None if lo is None or hi is None else Fraction(2) ** (int(max(abs(lo), abs(hi))).bit_length() - 51)
        r = ctx.rounded[key] = ctx.fresh("err", False, None if m is None else -m, m)
        if m is not None:
            # an absolute bound, from the largest magnitude
            mag = z3.Q(m.numerator, m.denominator)
        else:
            e = lin_zr((dict(items), k, d))
            mag = z3.If(e >= 0, e, -e) * z3.Q(1, 2**52) + z3.RealVal(str(TINY))
        ctx.define(z3.And(r.z <= mag, -r.z <= mag))
        t2, k2, d2 = lin_add((dict(items), k, d), ({r: 1}, 0, 1))
        ctx.floats[tuple(sorted(t2.items(), key=lambda p: p[0].name)), k2, d2] = ((dict(items), k, d), m)
    return mk(lin_add(lin, ({r: sign}, 0, 1)), "float", c)


PROVED = set()  # comparisons decided by the term normaliser and re-proved by the solver


def compare(op, a, b):
    for v in (a, b):
        if isinstance(v, float) and not math.isfinite(v):
            # a finite symbolic number against inf/nan: decided by the concrete value
            return bool(_OPS[op](conc(a), conc(b)))
    la, lb = lin_of(a), lin_of(b)
    if CUR is not None and CUR.floats:
        if la[0] and not lb[0]:
            la = unrounded(la, lb)
        elif lb[0] and not la[0]:
            lb = unrounded(lb, la)
    r = _compare(op, a, b, la, lb)
    if r.__class__ is bool and CUR is not None and (la[0] or lb[0]):
        key = (op, r, tuple(la[0].items()), la[1], la[2], tuple(lb[0].items()), lb[1], lb[2])
        if key not in PROVED:
            CUR.folded[key] = (op, r, la, lb)
    return r


def folded_z3(entry):
    """(atom bounds, claim) of a comparison the normaliser decided."""
    op, r, la, lb = entry
    za, zb = lin_zr(la), lin_zr(lb)
    z = {
        "<": za < zb,
        "<=": za <= zb,
        ">": za > zb,
        ">=": za >= zb,
        "==": za == zb,
        "!=": za != zb,
    }[op]
    bounds = []
    for a in {*la[0], *lb[0]}:
        if a.lo is not None:
            bounds.append(a.z >= (a.lo if a.isint else z3.Q(Fraction(a.lo).numerator, Fraction(a.lo).denominator)))
        if a.hi is not None:
            bounds.append(a.z <= (a.hi if a.isint else z3.Q(Fraction(a.hi).numerator, Fraction(a.hi).denominator)))
    return bounds, (z if r else z3.Not(z))


def unrounded(lin, const):
    """For comparing a rounded float with a representable constant: the exact value, if it
    cannot lie closer to the constant, without being equal to it, than the rounding error.
    (Rounding is monotone and keeps representable values.)"""
    t, k, d = lin
    items = tuple(sorted(t.items(), key=lambda p: p[0].name))
    sign = 1
    if items[0][1] < 0:
        sign = -1
        items, k = tuple((x, -v) for x, v in items), -k
    got = CUR.floats.get((items, k, d))
    if got is None:
        return lin
    exact, err = got
    if err is None or not all(x.isint for x in exact[0]):
        return lin
    if Fraction(1, exact[2] * const[2]) <= 2 * err:
        return lin
    return exact if sign > 0 else lin_scale(exact, -1, 1)


def exact_for(lin, d):
    """For cutting a rounded float at multiples of 1/d: see unrounded."""
    if CUR is None or not CUR.floats or not lin[0]:
        return lin
    return unrounded(lin, (None, 0, d))


def _compare(op, a, b, la, lb):
    t, k, d = lin_add(la, lb, -1)
    if not t:
        return _OPS[op](k, 0)
    lo, hi = lin_bounds((t, k, d))
    if op == "==":
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
    elif op == "!=":
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
    elif op == "<":
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == "<=":
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    elif op == ">":
        if lo is not None and lo > 0:
            return True
        if hi is not None and hi <= 0:
            return False
    elif op == ">=":
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
    c = _OPS[op](conc(a), conc(b))
    # canonical form
    g = 0
    for x in t.values():
        g = gcd(g, x)
    if g > 1 and k % g == 0:
        t = {x: v // g for x, v in t.items()}
        k //= g
    elif g > 1 and all(x.isint for x in t):
        # integer atoms: sum is a multiple of g, k is not
        if op == "==":
            return False
        if op == "!=":
            return True
    items = tuple(sorted(t.items(), key=lambda p: p[0].name))
    if items[0][1] < 0:
        items = tuple((x, -v) for x, v in items)
        k = -k
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op]
    return SymBool(("lin", op, items, k), c)


_OPS = {
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
    "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b,
}


def kind_of(v):
    if isinstance(v, SymNum):
        return v.kind
    return "float" if isinstance(v, float) else "int"


def finite(v):
    return not (isinstance(v, float) and not math.isfinite(v))


class SymNum:
    __slots__ = ("t", "k", "d", "kind", "c")

    @property
    def lin(self):
        return (self.t, self.k, self.d)

    # -- arithmetic ----------------------------------------------------
    def _add(self, o, sign, swap):
        if isinstance(o, SymBool):
            o = int(bool(o))
        if not is_num(o):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        c = conc(a) + conc(b) if sign > 0 else conc(a) - conc(b)
        if not finite(o):
            self._pin()
            return c
        lin = lin_add(lin_of(a), lin_of(b), sign)
        if kind_of(a) == "int" and kind_of(b) == "int":
            return mk(lin, "int", c)
        return mkf(lin, c)

    def __add__(self, o):
        return self._add(o, 1, False)

    def __radd__(self, o):
        return self._add(o, 1, True)

    def __sub__(self, o):
        return self._add(o, -1, False)

    def __rsub__(self, o):
        return self._add(o, -1, True)

    def __neg__(self):
        return mk(lin_scale(self.lin, -1, 1), self.kind, -self.c)

    def __pos__(self):
        return self

    def __abs__(self):
        if compare(">=", self, 0):
            return self
        return -self

    def __mul__(self, o):
        return self._mul(o, False)

    def __rmul__(self, o):
        return self._mul(o, True)

    def _mul(self, o, swap):
        if isinstance(o, SymBool):
            o = int(bool(o))
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * self.__index__()
        if not is_num(o):
            return NotImplemented
        c = o.c * self.c if isinstance(o, SymNum) else o * self.c
        if not finite(o):
            self._pin()
            return c
        kind = "int" if self.kind == "int" and kind_of(o) == "int" else "float"
        if not isinstance(o, SymNum):
            f = Fraction(o)
            lin = lin_scale(self.lin, f.numerator, f.denominator)
            if kind == "int":
                return mk(lin, "int", c)
            n, d = abs(f.numerator), f.denominator
            pow2 = n and not (n & (n - 1)) and not (d & (d - 1))
            # multiplying by a power of two is exact (no overflow/underflow in the bounds)
            return mkf(lin, c, maybe_exact=bool(pow2) or f == 0)
        lin = lin_product(self.lin, o.lin)
        return mk(lin, "int", c) if kind == "int" else mkf(lin, c)

    def __truediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return sym_div(self, o)

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return sym_div(o, self)

    def __floordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        return sym_floordiv(self, o)

    def __rfloordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        return sym_floordiv(o, self)

    def __mod__(self, o):
        if not is_num(o):
            return NotImplemented
        return sym_mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, (str, SymStr)):
            return NotImplemented
        if not is_num(o):
            return NotImplemented
        return sym_mod(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and not isinstance(o, bool) and 0 <= o <= 4 and mod is None:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        self._pin()
        return self.c ** conc(o)

    def __rpow__(self, o):
        self._pin()
        return o**self.c

    # -- integer helpers -----------------------------------------------
    def __index__(self):
        if self.kind != "int":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return enumerate_value(self)

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        return NotImplemented

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        return NotImplemented

    def _bit(self, o):
        return enumerate_value(self), enumerate_value(o) if isinstance(o, SymNum) else o

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        a, b = self._bit(o)
        return a & b

    __rand__ = __and__

    def __or__(self, o):
        a, b = self._bit(o)
        return a | b

    __ror__ = __or__

    def __xor__(self, o):
        a, b = self._bit(o)
        return a ^ b

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # -- rounding ------------------------------------------------------
    def __trunc__(self):
        return sym_int(self)

    def __int__(self):
        return enumerate_value(sym_int(self)) if self.kind == "int" else int(self._pin())

    def __float__(self):
        return float(self._pin())

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __round__(self, nd=None):
        if nd is None:
            return sym_round(self)
        if self.kind == "int" and nd >= 0:
            return self
        # round(x, n) for floats: a value within half a step (plus rounding noise)
        c = round(self.c, nd)
        ctx = cur()
        r = ctx.fresh("rnd", False)
        half = z3.RealVal(str(Fraction(1, 2) / 10**nd + Fraction(1, 10**9)))
        e = lin_zr(self.lin)
        ctx.define(z3.And(r.z - e <= half, e - r.z <= half))
        ctx.concretized += 1
        return mk(({r: 1}, 0, 1), "float", c)

    def is_integer(self):
        if lin_isint(self.lin):
            return True
        return compare("==", self, sym_floor(self))

    def as_integer_ratio(self):
        return self._pin().as_integer_ratio()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def bit_length(self):
        return enumerate_value(self).bit_length()

    def hex(self):
        return self._pin().hex()

    # -- comparisons ---------------------------------------------------
    def __eq__(self, o):
        if isinstance(o, SymBool):
            o = int(bool(o))
        if not is_num(o):
            return NotImplemented
        return compare("==", self, o)

    def __ne__(self, o):
        if isinstance(o, SymBool):
            o = int(bool(o))
        if not is_num(o):
            return NotImplemented
        return compare("!=", self, o)

    def __lt__(self, o):
        if not is_num(o):
            return NotImplemented
        return compare("<", self, o)

    def __le__(self, o):
        if not is_num(o):
            return NotImplemented
        return compare("<=", self, o)

    def __gt__(self, o):
        if not is_num(o):
            return NotImplemented
        return compare(">", self, o)

    def __ge__(self, o):
        if not is_num(o):
            return NotImplemented
        return compare(">=", self, o)

    def __bool__(self):
        b = compare("!=", self, 0)
        return bool(b)

    def __hash__(self):
        if HASH_BY_ID:
            return id(self) >> 4
        self._pin()
        return hash(self.c)

    def _pin(self):
        """Concretise this number (recorded as incomplete unless it is the only value)."""
        b = compare("==", self, self.c)
        if isinstance(b, SymBool):
            cur().pin(b)
        return self.c

    # text made by code that is not instrumented: concretise
    def __repr__(self):
        return repr(self._pin() if CUR is not None else self.c)

    __str__ = __repr__

    def __format__(self, spec):
        return format(self._pin() if CUR is not None else self.c, spec)


def monomial(x, y):
    """The atom standing for the product of two atoms."""
    if x.name > y.name:
        x, y = y, x
    ctx = cur()
    p = ctx.monos.get((x, y))
    if p is None:
        bounds = _prod_bounds((x.lo, x.hi), (y.lo, y.hi))
        if x is y and bounds[0] is not None:
            bounds = (max(0, bounds[0]), bounds[1])
        p = ctx.monos[x, y] = ctx.fresh("mul", x.isint and y.isint, *bounds)
        if any(a.name.startswith("err!") and p.lo is not None and p.hi is not None for a in (x, y)):
            # a scaled rounding error: its bounds are enough
            lo, hi = Fraction(p.lo), Fraction(p.hi)
            ctx.define(z3.And(p.z >= z3.Q(lo.numerator, lo.denominator), p.z <= z3.Q(hi.numerator, hi.denominator)))
        else:
            ctx.define(p.z == x.z * y.z, True)
            if p.lo is not None and p.hi is not None and p.isint:
                ctx.define(z3.And(p.z >= int(p.lo), p.z <= int(p.hi)))
    return p


def lin_product(a, b):
    """The product of two linear forms, over atoms for the products of atoms."""
    (ta, ka, da), (tb, kb, db) = a, b
    t = {}
    for x, v in ta.items():
        for y, w in tb.items():
            p = monomial(x, y)
            t[p] = t.get(p, 0) + v * w
    for x, v in ta.items():
        if kb:
            t[x] = t.get(x, 0) + v * kb
    for y, w in tb.items():
        if ka:
            t[y] = t.get(y, 0) + w * ka
    return lin_norm({p: v for p, v in t.items() if v}, ka * kb, da * db)


def _prod_bounds(a, b):
    if None in a or None in b:
        return None, None
    ps = [x * y for x in a for y in b]
    return min(ps), max(ps)


def enumerate_value(v):
    """A plain int equal to v, exploring every other value on other paths."""
    if not isinstance(v, SymNum):
        return v
    lo, hi = lin_bounds(v.lin)
    if lo is None or hi is None or hi - lo > 1 << 16:
        return v._pin()
    lo, hi = math.ceil(lo), math.floor(hi)
    # bisect: the order of the decisions does not depend on the concrete value
    while lo < hi:
        mid = (lo + hi) // 2
        if compare("<=", v, mid):
            hi = mid
        else:
            lo = mid + 1
    return lo


def fresh_int(tag, c, lo=None, hi=None, kind="int"):
    a = cur().fresh(tag, True, lo, hi)
    return a, mk(({a: 1}, 0, 1), kind, c)


def _ib(b, f):
    return None if b is None else f(b)


def split_whole(lin):
    """(nearest integral form, bounds of the rest): lin = whole + rest."""
    t, k, d = lin
    whole, lo, hi = {}, Fraction(k, d), Fraction(k, d)
    for x, v in t.items():
        w = (2 * v + d) // (2 * d) if x.isint else 0
        if w:
            whole[x] = w
        r = v - w * d
        if r:
            l, h = (x.lo, x.hi) if r > 0 else (x.hi, x.lo)
            if l is None or h is None:
                return whole, None, None
            lo += Fraction(r * l) / d
            hi += Fraction(r * h) / d
    return whole, lo, hi


def between(v, whole, lo, hi, c):
    """The linear form v lies strictly between whole + lo and whole + hi (re-proved by the solver)."""
    out = []
    for b in (lo, hi):
        d = b.denominator
        out.append(mk(({x: d * w for x, w in whole.items()}, b.numerator, d), "float", float(b)))
    return compare(">", v, out[0]) is True and compare("<", v, out[1]) is True


def _integer(op, lin, c):
    """floor, trunc or round of a linear form, as an integer atom: one per form."""
    ctx = cur()
    t, k, d = lin
    items = tuple(sorted(t.items(), key=lambda p: p[0].name))
    sign = 1
    if op != "floor" and items[0][1] < 0:
        # odd functions
        sign = -1
        items, k = tuple((x, -v) for x, v in items), -k
        c = -c
    key = (op, items, k, d)
    a = ctx.ints.get(key)
    if a is None:
        lin = (dict(items), k, d)
        lo, hi = lin_bounds(lin)
        f = {"floor": math.floor, "trunc": math.trunc, "round": round}[op]
        a = ctx.ints[key] = ctx.fresh(op, True, _ib(lo, f), _ib(hi, f))
        e = lin_zr(lin)
        q = z3.ToReal(a.z)
        whole = all(x.isint for x, _ in items)
        if whole:
            # integers only: n / d
            n, m = lin_z3(items, k), d * a.z
            if op == "floor":
                r = z3.And(m <= n, n <= m + (d - 1))
            elif op == "trunc":
                r = z3.If(n >= 0, z3.And(m <= n, n <= m + (d - 1)), z3.And(m >= n, n >= m - (d - 1)))
            else:
                r = z3.And(2 * n <= 2 * m + d, 2 * n >= 2 * m - d)
                if d % 2 == 0:
                    tie = z3.Or(2 * n == 2 * m + d, 2 * n == 2 * m - d)
                    r = z3.And(r, z3.Implies(tie, a.z == 2 * ctx.fresh("half", True).z))
        elif op == "floor":
            r = z3.And(q <= e, e < q + 1)
        elif op == "trunc":
            r = z3.If(e >= 0, z3.And(q <= e, e < q + 1), z3.And(q >= e, e > q - 1))
        else:
            tie = z3.Or(2 * e == 2 * q + 1, 2 * e == 2 * q - 1)
            r = z3.And(
                2 * e <= 2 * q + 1,
                2 * e >= 2 * q - 1,
                z3.Implies(tie, a.z == 2 * ctx.fresh("half", True).z),
            )
        ctx.define(r)
    return mk(({a: sign}, 0, 1), "int", sign * c)


def sym_floor(v):
    if not isinstance(v, SymNum):
        return math.floor(v)
    lin = exact_for(v.lin, 1)
    if lin_isint(lin):
        return mk(lin, "int", math.floor(v.c))
    return _integer("floor", lin, math.floor(v.c))


def sym_int(v):
    """int(v): truncation towards zero."""
    if not isinstance(v, SymNum):
        return int(v)
    lin = exact_for(v.lin, 1)
    if lin_isint(lin):
        return mk(lin, "int", int(v.c))
    return _integer("trunc", lin, int(v.c))


def sym_round(v):
    """round(v): half to even."""
    lin = exact_for(v.lin, 2)
    c = round(v.c)
    if lin_isint(lin):
        return mk(lin, "int", c)
    whole, lo, hi = split_whole(lin)
    if lo is not None and hi - lo < 1:
        n = round((lo + hi) / 2)
        if between(v, whole, n - Fraction(1, 2), n + Fraction(1, 2), c):
            return mk((whole, n, 1), "int", c)
    return _integer("round", lin, c)


def sym_float(v):
    if isinstance(v, SymNum):
        if v.kind == "float":
            return v
        return mkf(v.lin, float(v.c))
    return float(v)


def sym_div(a, b):
    if not finite(a) or not finite(b):
        for v in (a, b):
            if isinstance(v, SymNum):
                v._pin()
        return conc(a) / conc(b)
    if isinstance(b, SymNum):
        if compare("==", b, 0):
            raise ZeroDivisionError("division by zero")
    elif b == 0:
        return conc(a) / b
    c = conc(a) / conc(b)
    if not isinstance(b, SymNum):
        f = Fraction(b)
        n = abs(f.numerator)
        lin = lin_scale(lin_of(a), f.denominator, f.numerator)
        exact_div = not (n & (n - 1)) and not (f.denominator & (f.denominator - 1))
        la = lin_of(a)
        if exact_div and (kind_of(a) == "float" or exact_float(la)):
            return mkf(lin, c, maybe_exact=True)
        return mkf(lin, c)
    ctx = cur()
    la, lb = lin_of(a), lin_of(b)
    key = ("div", tuple(la[0].items()), la[1], la[2], tuple(lb[0].items()), lb[1], lb[2])
    q = ctx.ints.get(key)
    if q is None:
        q = ctx.ints[key] = ctx.fresh("div", False)
        ctx.define(q.z * lin_zr(lb) == lin_zr(la))
    return mkf(({q: 1}, 0, 1), c)


def sym_floordiv(a, b):
    if not finite(a) or not finite(b):
        for v in (a, b):
            if isinstance(v, SymNum):
                v._pin()
        return conc(a) // conc(b)
    if isinstance(b, SymNum):
        if compare("==", b, 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        neg = bool(compare("<", b, 0))
    else:
        if b == 0:
            return conc(a) // b
        neg = b < 0
    c = conc(a) // conc(b)
    kind = "int" if kind_of(a) == "int" and kind_of(b) == "int" else "float"
    if not isinstance(b, SymNum):
        f = Fraction(b)
        quot = lin_scale(lin_of(a), f.denominator, f.numerator)
        if lin_isint(quot):
            return mk(quot, kind, c)
        r = _integer("floor", quot, c)
        if kind == "int" or not isinstance(r, SymNum):
            return r
        return mk(r.lin, kind, c)
    q, r = fresh_int("fdiv", c, None, None, kind)
    if kind == "int":
        x, y, z = lin_z(lin_of(a)), lin_z(lin_of(b)), q.z
    else:
        x, y, z = lin_zr(lin_of(a)), lin_zr(lin_of(b)), z3.ToReal(q.z)
    if neg:
        cur().define(z3.And(z * y >= x, x > z * y + y))
    else:
        cur().define(z3.And(z * y <= x, x < z * y + y))
    return r


def sym_mod(a, b):
    q = sym_floordiv(a, b)
    c = conc(a) % conc(b)
    if isinstance(q, SymNum) or is_num(q):
        if not finite(a) or not finite(b):
            return c
        prod = q * b
        lin = lin_add(lin_of(a), lin_of(prod), -1)
        if kind_of(a) == "int" and kind_of(b) == "int":
            return mk(lin, "int", c)
        # fmod is exact in binary64 when the operands are (one sign adjustment aside)
        return mkf(lin, c, maybe_exact=True)
    return c


def sym_minmax(values, which):
    """min/max of numbers without forking (Python returns the first extremal one)."""
    best = values[0]
    for v in values[1:]:
        cond = compare("<" if which == "min" else ">", v, best)
        if not isinstance(cond, SymBool):
            best = v if cond else best
            continue
        if kind_of(v) != kind_of(best):
            best = v if cond else best
            continue
        best = sym_ite(cond, v, best)
    return best


def sym_ite(cond, a, b):
    """If-then-else of two numbers of the same kind, without forking."""
    if not isinstance(cond, SymBool):
        return a if cond else b
    ctx = cur()
    got = ctx.decided.get(cond.key)
    if got is not None:
        return a if got else b
    kind = kind_of(a)
    la, lb = lin_of(a), lin_of(b)
    key = ("ite", cond.key, tuple(la[0].items()), la[1:], tuple(lb[0].items()), lb[1:])
    if key in ctx.ints:
        m, d = ctx.ints[key]
        return mk(({m: 1}, 0, d), kind, conc(a) if cond.c else conc(b))
    (l1, h1), (l2, h2) = lin_bounds(la), lin_bounds(lb)
    lo = None if None in (l1, l2) else min(l1, l2)
    hi = None if None in (h1, h2) else max(h1, h2)
    # work on a common denominator so that lattice values stay integral
    d = la[2] * lb[2] // gcd(la[2], lb[2])
    ia, ib = lin_scale(la, d, 1), lin_scale(lb, d, 1)
    isint = lin_isint(ia) and lin_isint(ib)
    m = cur().fresh(
        "ite", isint, None if lo is None else lo * d, None if hi is None else hi * d
    )
    za, zb = (lin_z(ia), lin_z(ib)) if isint else (lin_zr(ia), lin_zr(ib))
    cur().define(m.z == z3.If(cond.z3(), za, zb))
    ctx.ints[key] = m, d
    return mk(({m: 1}, 0, d), kind, conc(a) if cond.c else conc(b))


# ----------------------------------------------------------------------
# Strings: concrete length, symbolic characters
# ----------------------------------------------------------------------
WS = "\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f \x85\xa0"


def _ch(c):
    """Character as int or SymNum."""
    return ord(c) if isinstance(c, str) else c


def ch_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return compare("==", a, b)


def ch_in_ranges(c, ranges):
    """c in a union of inclusive ranges (a SymBool or bool, no forking)."""
    if isinstance(c, int):
        return any(a <= c <= b for a, b in ranges)
    parts = []
    for a, b in ranges:
        if a == b:
            parts.append(compare("==", c, a))
        else:
            parts.append(sym_and([compare(">=", c, a), compare("<=", c, b)]))
    return sym_or(parts)


DIGIT = [(48, 57)]
LOWER = [(97, 122)]
UPPER = [(65, 90)]
ALPHA = UPPER + LOWER
SPACE = [(9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0)]
HEX = [(48, 57), (65, 70), (97, 102)]


def lift(s):
    if isinstance(s, SymStr):
        return s
    return SymStr([ord(c) for c in s])


class SymStr:
    """A string of known length whose characters may be symbolic."""

    __slots__ = ("_chars", "_parts", "_c")

    def __init__(self, chars=None, parts=None):
        self._chars = chars
        self._parts = parts
        self._c = None

    @property
    def c(self):
        if self._c is None:
            if self._chars is not None:
                self._c = "".join(chr(conc(x)) for x in self._chars)
            else:
                self._c = "".join(_conc_text(p) for p in self._parts)
        return self._c

    @property
    def chars(self):
        if self._chars is None:
            out = []
            for p in self._parts:
                out.extend(to_chars(p))
            self._chars = out
        return self._chars

    def _out(self, chars):
        if all(isinstance(x, int) for x in chars):
            return "".join(map(chr, chars))
        return SymStr(list(chars))

    # -- basic ---------------------------------------------------------
    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        if self._chars is None and any(
            isinstance(p, str) and p for p in self._parts
        ):
            return True
        return bool(self.chars)

    def __iter__(self):
        for x in self.chars:
            yield self._out([x])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._out(self.chars[i])
        if isinstance(i, SymNum):
            i = enumerate_value(i)
        try:
            return self._out([self.chars[i]])
        except IndexError:
            raise IndexError("string index out of range") from None

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self._out(self.chars + lift(o).chars)

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self._out(lift(o).chars + self.chars)

    def __mul__(self, n):
        if not isinstance(n, (int, SymNum)):
            return NotImplemented
        return self._out(self.chars * enumerate_value(n))

    __rmul__ = __mul__

    def _eq(self, o):
        o = lift(o).chars
        s = self.chars
        if len(o) != len(s):
            return False
        return sym_and([ch_eq(a, b) for a, b in zip(s, o)])

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self._eq(o)

    def __ne__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return sym_not(self._eq(o))

    def _cmp(self, o):
        a, b = self.chars, lift(o).chars
        for x, y in zip(a, b):
            if not ch_eq(x, y):
                return -1 if compare("<", x, y) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self._cmp(o) < 0

    def __le__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self._cmp(o) <= 0

    def __gt__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self._cmp(o) > 0

    def __ge__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self._cmp(o) >= 0

    def pin(self):
        for x in self.chars:
            if isinstance(x, SymNum):
                x._pin()
        return self.c

    def __hash__(self):
        if HASH_BY_ID:
            return id(self) >> 4
        return hash(self.pin())

    def __str__(self):
        return self.pin() if CUR is not None else self.c

    def __repr__(self):
        return repr(str(self))

    def __format__(self, spec):
        return format(str(self), spec)

    def __mod__(self, o):
        return self.pin() % o

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(f"'str' object has no attribute '{name}'")
        return getattr(self.pin(), name)

    # -- searching -----------------------------------------------------
    def _match_at(self, sub, i):
        if i < 0 or i + len(sub) > len(self.chars):
            return False
        return sym_and([ch_eq(a, b) for a, b in zip(self.chars[i : i + len(sub)], sub)])

    def __contains__(self, sub):
        if not isinstance(sub, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand")
        sub = lift(sub).chars
        return bool(
            sym_or([self._match_at(sub, i) for i in range(len(self) - len(sub) + 1)])
        )

    def startswith(self, prefix, start=0, end=None):
        if isinstance(prefix, tuple):
            return sym_or([self.startswith(p, start, end) for p in prefix])
        s = self if start == 0 and end is None else lift(self[start:end])
        return s._match_at(lift(prefix).chars, 0)

    def endswith(self, suffix, start=0, end=None):
        if isinstance(suffix, tuple):
            return sym_or([self.endswith(p, start, end) for p in suffix])
        s = self if start == 0 and end is None else lift(self[start:end])
        sub = lift(suffix).chars
        return s._match_at(sub, len(s) - len(sub))

    def find(self, sub, start=0, end=None):
        sub = lift(sub).chars
        n = len(self)
        start, end, _ = slice(start, end).indices(n)
        for i in range(start, end - len(sub) + 1):
            if self._match_at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        sub = lift(sub).chars
        start, end, _ = slice(start, end).indices(len(self))
        for i in range(end - len(sub), start - 1, -1):
            if self._match_at(sub, i):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, start=0, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=0, end=None):
        sub = lift(sub).chars
        s = lift(self[start:end])
        if not sub:
            return len(s) + 1
        n = i = 0
        while i + len(sub) <= len(s):
            if s._match_at(sub, i):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    # -- transforming --------------------------------------------------
    def replace(self, old, new, count=-1):
        old, new = lift(old).chars, lift(new).chars
        if not old:
            return self.pin().replace("", "".join(chr(conc(x)) for x in new), count)
        out, i = [], 0
        s = self.chars
        while i < len(s):
            if count != 0 and i + len(old) <= len(s) and self._match_at(old, i):
                out.extend(new)
                i += len(old)
                count -= 1
            else:
                out.append(s[i])
                i += 1
        return self._out(out)

    def _strip_test(self, chars):
        if chars is None:
            return lambda x: bool(ch_in_ranges(x, SPACE))
        cs = lift(chars).chars
        return lambda x: bool(sym_or([ch_eq(x, y) for y in cs]))

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        s = self.chars
        i = 0
        while i < len(s) and t(s[i]):
            i += 1
        return self._out(s[i:])

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        s = self.chars
        j = len(s)
        while j > 0 and t(s[j - 1]):
            j -= 1
        return self._out(s[:j])

    def strip(self, chars=None):
        return lift(self.lstrip(chars)).rstrip(chars)

    def removeprefix(self, p):
        if self.startswith(p):
            return self._out(self.chars[len(p) :])
        return self

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self._out(self.chars[: len(self) - len(p)])
        return self

    def split(self, sep=None, maxsplit=-1):
        s = self.chars
        out = []
        if sep is None:
            i = 0
            while True:
                while i < len(s) and bool(ch_in_ranges(s[i], SPACE)):
                    i += 1
                if i >= len(s):
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(lift(self._out(s[i:])).rstrip())
                    break
                j = i
                while j < len(s) and not bool(ch_in_ranges(s[j], SPACE)):
                    j += 1
                out.append(self._out(s[i:j]))
                i = j
            return out
        sub = lift(sep).chars
        if not sub:
            raise ValueError("empty separator")
        last = i = 0
        while i + len(sub) <= len(s):
            if (maxsplit < 0 or len(out) < maxsplit) and self._match_at(sub, i):
                out.append(self._out(s[last:i]))
                i += len(sub)
                last = i
            else:
                i += 1
        out.append(self._out(s[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        rev = self._out(self.chars[::-1])
        rsep = None if sep is None else sep[::-1]
        parts = lift(rev).split(rsep, maxsplit)
        return [p[::-1] for p in parts][::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep) :]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep) :]

    def splitlines(self, keepends=False):
        return self.pin().splitlines(keepends)

    def join(self, items):
        return sym_join(self, items)

    def _case(self, ranges, delta):
        out = []
        for x in self.chars:
            cond = ch_in_ranges(x, ranges)
            if cond is False:
                out.append(x)
            elif cond is True:
                out.append(x + delta)
            else:
                out.append(sym_ite(cond, x + delta, x))
        return self._out(out)

    def lower(self):
        self._ascii()
        return self._case(UPPER, 32)

    def casefold(self):
        return self.lower()

    def upper(self):
        self._ascii()
        return self._case(LOWER, -32)

    def _ascii(self):
        for x in self.chars:
            if isinstance(x, SymNum):
                if bool(compare(">", x, 127)):
                    x._pin()
            elif x > 127:
                self.pin()

    def _all(self, ranges):
        self._ascii()
        if not self.chars:
            return False
        return sym_and([ch_in_ranges(x, ranges) for x in self.chars])

    def isdigit(self):
        return self._all(DIGIT)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(ALPHA)

    def isalnum(self):
        return self._all(ALPHA + DIGIT)

    def isspace(self):
        return self._all(SPACE)

    def isascii(self):
        return sym_and([ch_in_ranges(x, [(0, 127)]) for x in self.chars])

    def isprintable(self):
        self._ascii()
        return sym_and([ch_in_ranges(x, [(32, 126)]) for x in self.chars])

    def encode(self, *a):
        return self.pin().encode(*a)


def _conc_text(p):
    return p if isinstance(p, str) else str(conc(p))


def sym_join(sep, items):
    items = list(items)
    out = []
    for i, p in enumerate(items):
        if not isinstance(p, (str, SymStr)):
            raise TypeError(
                f"sequence item {i}: expected str instance, {type(p).__name__} found"
            )
        if i:
            out.extend(lift(sep).chars)
        out.extend(lift(p).chars)
    return lift("")._out(out)


def to_chars(p):
    """Characters of str(p)."""
    if isinstance(p, str):
        return [ord(c) for c in p]
    if isinstance(p, SymStr):
        return p.chars
    if isinstance(p, SymNum):
        return num_chars(p)
    if isinstance(p, SymBool):
        return [ord(c) for c in str(bool(p))]
    return [ord(c) for c in str(p)]


def num_chars(v):
    """Decimal text of a number: forks on sign and digit count."""
    if v.kind == "int":
        if compare("<", v, 0):
            return [45] + num_chars(-v) if isinstance(-v, SymNum) else to_chars(str(v))
        n = 1
        while not compare("<", v, 10**n):
            n += 1
            if n > 18:
                v._pin()
                return to_chars(str(v.c))
        out = []
        rest = v
        for i in range(n - 1, -1, -1):
            if i == 0:
                dgt = rest
            else:
                dgt = sym_floordiv(rest, 10**i)
                rest = rest - dgt * 10**i
            out.append(dgt + 48)
        return out
    # floats: exact decimal expansion of a value on a coarse dyadic lattice
    t, k, d = v.lin
    lo, hi = lin_bounds(v.lin)
    if (
        d <= 64
        and not (d & (d - 1))
        and all(x.isint for x in t)
        and lo is not None
        and hi is not None
        and max(abs(lo), abs(hi)) < 10**9
    ):
        if compare("<", v, 0):
            return [45] + num_chars(-v)
        ip = sym_floor(v)
        frac = v - ip
        head = num_chars(ip) if isinstance(ip, SymNum) else to_chars(str(ip))
        if d == 1:
            return head + [46, 48]
        # fork on the fraction: its digits are then constants, and reading the text gives the value back exactly
        for r in range(d):
            if r == d - 1 or compare("==", frac, r / d):
                return head + [ord(ch) for ch in repr(r / d)[1:]]
    v._pin()
    return [ord(c) for c in repr(v.c)]


def _printable(hi):
    out = []
    for c in range(32, hi):
        if chr(c).isprintable():
            if out and out[-1][1] == c - 1:
                out[-1] = (out[-1][0], c)
            else:
                out.append((c, c))
    return out


PRINTABLE = [(lo, hi) for lo, hi in _printable(0x3000) if lo < 0x100 or (lo <= 0x2010 <= hi)]


def sym_repr_str(s):
    """repr() of a SymStr (Latin-1 and general punctuation; otherwise concretised)."""
    has_sq = has_dq = False
    for x in s.chars:
        if not bool(ch_in_ranges(x, PRINTABLE)):
            return repr(s.pin())
        if bool(ch_eq(x, 39)):
            has_sq = True
        elif bool(ch_eq(x, 34)):
            has_dq = True
    quote = 34 if has_sq and not has_dq else 39
    out = [quote]
    for x in s.chars:
        if bool(ch_eq(x, 92)):
            out += [92, 92]
        elif bool(ch_eq(x, quote)):
            out += [92, quote]
        else:
            out.append(x)
    out.append(quote)
    return lift("")._out(out)


# -- numeric parsing ----------------------------------------------------
def _digits(chars, i):
    """Longest run [0-9](_?[0-9])* from i: (digit values, next index)."""
    vals = []
    n = len(chars)
    if i >= n or not bool(ch_in_ranges(chars[i], DIGIT)):
        return vals, i
    while True:
        vals.append(chars[i] - 48)
        i += 1
        if i < n and bool(ch_in_ranges(chars[i], DIGIT)):
            continue
        if (
            i + 1 < n
            and bool(ch_eq(chars[i], 95))
            and bool(ch_in_ranges(chars[i + 1], DIGIT))
        ):
            i += 1
            continue
        return vals, i


def _bad_float(s):
    raise ValueError(f"could not convert string to float: {s.c!r}")


def _ascii_guard(s):
    for x in s.chars:
        if isinstance(x, SymNum):
            if bool(compare(">", x, 127)):
                s.pin()
                return False
        elif x > 127:
            s.pin()
            return False
    return True


def parse_float(s):
    """float(s) for a SymStr, following CPython's grammar on ASCII text."""
    s = lift(s)
    if not _ascii_guard(s):
        return float(s.c)
    s = lift(s.strip())
    ch = s.chars
    n = len(ch)
    i = 0
    neg = False
    if i < n:
        if bool(ch_eq(ch[i], 45)):
            neg = True
            i += 1
        elif bool(ch_eq(ch[i], 43)):
            i += 1
    body = lift(s._out(ch[i:]))
    if len(body) in (3, 8):
        low = lift(body.lower())
        for word in ("inf", "nan", "infinity"):
            if len(word) == len(low) and bool(low == word):
                v = float(word)
                return -v if neg else v
    ip, i = _digits(ch, i)
    fp = []
    if i < n and bool(ch_eq(ch[i], 46)):
        i += 1
        fp, i = _digits(ch, i)
    if not ip and not fp:
        _bad_float(s)
    exp = 0
    if i < n and bool(sym_or([ch_eq(ch[i], 101), ch_eq(ch[i], 69)])):
        i += 1
        eneg = False
        if i < n:
            if bool(ch_eq(ch[i], 45)):
                eneg = True
                i += 1
            elif bool(ch_eq(ch[i], 43)):
                i += 1
        ep, i = _digits(ch, i)
        if not ep:
            _bad_float(s)
        for dgt in ep:
            exp = exp * 10 + enumerate_value(dgt)
        if eneg:
            exp = -exp
    if i != n:
        _bad_float(s)
    c = float(s.c)
    if not math.isfinite(c) or (c == 0.0 and exp < -300):
        s.pin()
        return c
    lin = ({}, 0, 1)
    for dgt in ip + fp:
        lin = lin_add(lin_scale(lin, 10, 1), lin_of(dgt))
    e = exp - len(fp)
    if e >= 0:
        lin = lin_scale(lin, 10**e, 1)
    else:
        lin = lin_scale(lin, 1, 10**-e)
    if neg:
        lin = lin_scale(lin, -1, 1)
    return mkf(lin, c)


def parse_int(s, base=10):
    """int(s, base) for a SymStr, following CPython's grammar on ASCII text."""
    s = lift(s)

    def bad():
        raise ValueError(f"invalid literal for int() with base {base}: {s.c!r}")

    if base not in (10, 16) or not _ascii_guard(s):
        return int(s.pin(), base)
    s = lift(s.strip())
    ch = s.chars
    n = len(ch)
    i = 0
    neg = False
    if i < n:
        if bool(ch_eq(ch[i], 45)):
            neg = True
            i += 1
        elif bool(ch_eq(ch[i], 43)):
            i += 1
    prefixed = False
    if base == 16 and i + 1 < n and bool(ch_eq(ch[i], 48)):
        if bool(sym_or([ch_eq(ch[i + 1], 120), ch_eq(ch[i + 1], 88)])):
            i += 2
            prefixed = True
    ranges = DIGIT if base == 10 else HEX
    vals = []
    first = True
    while i < n:
        x = ch[i]
        if bool(ch_eq(x, 95)):
            if (first and not prefixed) or i + 1 >= n:
                bad()
            i += 1
            x = ch[i]
        if not bool(ch_in_ranges(x, ranges)):
            bad()
        vals.append(_hexval(x) if base == 16 else x - 48)
        first = False
        i += 1
    if not vals:
        bad()
    lin = ({}, 0, 1)
    for v in vals:
        lin = lin_add(lin_scale(lin, base, 1), lin_of(v))
    if neg:
        lin = lin_scale(lin, -1, 1)
    return mk(lin, "int", int(s.c, base))


def _hexval(x):
    if isinstance(x, int):
        return int(chr(x), 16)
    lowered = sym_ite(ch_in_ranges(x, UPPER), x + 32, x)
    return sym_ite(ch_in_ranges(lowered, LOWER), lowered - 87, lowered - 48)
