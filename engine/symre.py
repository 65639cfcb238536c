"""re on symbolic strings: a backtracking matcher over CPython's own parsed patterns."""

import re as _re
import types

try:
    from re import _constants as C
    from re import _parser as P
except ImportError:  # pragma: no cover
    import sre_constants as C
    import sre_parse as P

from . import sym
from .sym import SymNum, SymStr, ch_eq, ch_in_ranges, lift, sym_not, sym_or


class _Fallback(Exception):
    pass


CATS = {
    "CATEGORY_DIGIT": sym.DIGIT,
    "CATEGORY_SPACE": sym.SPACE,
    "CATEGORY_WORD": sym.ALPHA + sym.DIGIT + [(95, 95)],
}


def _cat(ch, cat):
    name = str(cat).split(".")[-1]
    neg = "_NOT_" in name
    r = ch_in_ranges(ch, CATS[name.replace("_NOT_", "_")])
    return sym_not(r) if neg else r


def _lit(ch, code, icase):
    if icase and chr(code).isalpha() and code < 128:
        return sym_or([ch_eq(ch, ord(chr(code).lower())), ch_eq(ch, ord(chr(code).upper()))])
    return ch_eq(ch, code)


def _in(ch, items, icase):
    neg = False
    parts = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            parts.append(_lit(ch, av, icase))
        elif op is C.RANGE:
            parts.append(ch_in_ranges(ch, [av]))
            if icase:
                lo, hi = av
                ext = []
                for code in range(lo, min(hi, 127) + 1):
                    o = chr(code).swapcase()
                    if len(o) == 1 and ord(o) != code:
                        ext.append((ord(o), ord(o)))
                if ext:
                    parts.append(ch_in_ranges(ch, ext))
        elif op is C.CATEGORY:
            parts.append(_cat(ch, av))
        else:
            raise _Fallback
    r = sym_or(parts)
    return sym_not(r) if neg else r


def _run(ops, i, s, groups, flags, k):
    """Match ops from position i, then continuation k(i, groups)."""
    if not ops:
        return k(i, groups)
    (op, av), rest = ops[0], ops[1:]
    n = len(s)
    icase = bool(flags & _re.IGNORECASE)

    def step(cond):
        if cond is True or (cond is not False and bool(cond)):
            return _run(rest, i + 1, s, groups, flags, k)
        return None

    if op in (C.LITERAL, C.NOT_LITERAL):
        if i >= n:
            return None
        c = _lit(s[i], av, icase)
        return step(sym_not(c) if op is C.NOT_LITERAL else c)
    if op is C.ANY:
        if i >= n:
            return None
        return step(True if flags & _re.DOTALL else sym_not(ch_eq(s[i], 10)))
    if op is C.IN:
        if i >= n:
            return None
        return step(_in(s[i], av, icase))
    if op is C.AT:
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if flags & _re.MULTILINE and av is C.AT_BEGINNING:
                raise _Fallback
            ok = i == 0
        elif av is C.AT_END_STRING:
            ok = i == n
        elif av is C.AT_END:
            if flags & _re.MULTILINE:
                raise _Fallback
            ok = i == n or (i == n - 1 and bool(ch_eq(s[i], 10)))
        else:
            raise _Fallback
        return _run(rest, i, s, groups, flags, k) if ok else None
    if op is C.SUBPATTERN:
        gid, add, rem, sub = av
        fl = (flags | add) & ~rem

        def cont(j, g):
            if gid is not None:
                g = dict(g)
                g[gid] = (i, j)
            return _run(rest, j, s, g, flags, k)

        return _run(list(sub), i, s, groups, fl, cont)
    if op is C.BRANCH:
        for alt in av[1]:
            r = _run(list(alt), i, s, groups, flags, lambda j, g: _run(rest, j, s, g, flags, k))
            if r is not None:
                return r
        return None
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)

        def rep(count, j, g, last):
            more = (hi is C.MAXREPEAT or count < hi) and j != last
            if op is C.MIN_REPEAT and count >= lo:
                r = _run(rest, j, s, g, flags, k)
                if r is not None:
                    return r
            if more:
                r = _run(sub, j, s, g, flags, lambda jj, gg: rep(count + 1, jj, gg, j))
                if r is not None:
                    return r
            if op is C.MAX_REPEAT and count >= lo:
                return _run(rest, j, s, g, flags, k)
            return None

        return rep(0, i, groups, -1)
    if op in (C.ASSERT, C.ASSERT_NOT):
        direction, sub = av
        if direction < 0:
            raise _Fallback
        r = _run(list(sub), i, s, groups, flags, lambda j, g: (j, g))
        if (r is not None) == (op is C.ASSERT):
            return _run(rest, i, s, r[1] if r else groups, flags, k)
        return None
    raise _Fallback


class Match:
    def __init__(self, pat, string, start, end, groups):
        self.re, self.string, self._g = pat, string, dict(groups)
        self._g[0] = (start, end)
        self.lastindex = max([g for g in self._g if g], default=None)

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError("no such group")
        return g

    def _one(self, g, default=None):
        sp = self._g.get(self._idx(g))
        return default if sp is None else self.string[sp[0] : sp[1]]

    def group(self, *gs):
        gs = gs or (0,)
        r = tuple(self._one(g) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self.re.groupindex.items()}

    def span(self, g=0):
        return self._g.get(self._idx(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def __bool__(self):
        return True


class Pattern:
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, SymStr):
            pattern = pattern.pin()
        self._re = _re.compile(pattern, flags)
        self.pattern = self._re.pattern
        self.flags = self._re.flags
        self.groups = self._re.groups
        self.groupindex = self._re.groupindex
        self._ops = None

    def _parsed(self):
        if self._ops is None:
            self._ops = list(P.parse(self.pattern, self.flags & ~_re.UNICODE))
        return self._ops

    def _at(self, string, i, full):
        s = string.chars
        end = (lambda j, g: (j, g) if j == len(s) else None) if full else (lambda j, g: (j, g))
        r = _run(self._parsed(), i, s, {}, self.flags, end)
        return None if r is None else Match(self, string, i, r[0], r[1])

    def _do(self, name, string, *a):
        if not isinstance(string, SymStr) or a:
            return getattr(self._re, name)(*[x.pin() if isinstance(x, SymStr) else x for x in (string, *a)])
        try:
            for x in string.chars:
                if isinstance(x, SymNum) and x_may_be_wide(x):
                    raise _Fallback
            if name == "search":
                for i in range(len(string) + 1):
                    m = self._at(string, i, False)
                    if m is not None:
                        return m
                return None
            return self._at(string, 0, name == "fullmatch")
        except (_Fallback, KeyError):
            return getattr(self._re, name)(string.pin())

    def match(self, string, *a):
        return self._do("match", string, *a)

    def fullmatch(self, string, *a):
        return self._do("fullmatch", string, *a)

    def search(self, string, *a):
        return self._do("search", string, *a)

    def finditer(self, string):
        if not isinstance(string, SymStr):
            return self._re.finditer(string)
        out, i = [], 0
        try:
            while i <= len(string):
                m = self._at(string, i, False)
                if m is None:
                    i += 1
                    continue
                out.append(m)
                i = m.end() if m.end() > i else i + 1
            return iter(out)
        except (_Fallback, KeyError):
            return self._re.finditer(string.pin())

    def findall(self, string):
        if not isinstance(string, SymStr):
            return self._re.findall(string)
        out = []
        for m in self.finditer(string):
            out.append(m.group() if not self.groups else m.group(1) if self.groups == 1 else m.groups(""))
        return out

    def split(self, string, maxsplit=0):
        if not isinstance(string, SymStr):
            return self._re.split(string, maxsplit)
        out, last = [], 0
        for m in self.finditer(string):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(string[last : m.start()])
            out.extend(m.groups())
            last = m.end()
        out.append(string[last:])
        return out

    def sub(self, repl, string, count=0):
        if not isinstance(string, SymStr):
            return self._re.sub(repl, string, count)
        if callable(repl) or not isinstance(repl, str) or "\\" in repl:
            if not callable(repl):
                return self._re.sub(repl, string.pin(), count)
        out, last, n = [], 0, 0
        for m in self.finditer(string):
            if count and n >= count:
                break
            out.append(string[last : m.start()])
            out.append(repl(m) if callable(repl) else repl)
            last = m.end()
            n += 1
        out.append(string[last:])
        return sym.sym_join("", out)


def x_may_be_wide(x):
    lo, hi = sym.lin_bounds(x.lin)
    if hi is not None and hi <= 127:
        return False
    return bool(sym.compare(">", x, 127))


def shim(real):
    m = types.ModuleType("re")
    m.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})

    def comp(pattern, flags=0):
        return pattern if isinstance(pattern, Pattern) else Pattern(pattern, flags)

    m.compile = comp
    for fn in ("match", "fullmatch", "search"):
        def f(pattern, string, flags=0, _fn=fn):
            return getattr(comp(pattern, flags), _fn)(string)

        setattr(m, fn, f)
    m.findall = lambda p, s, flags=0: comp(p, flags).findall(s)
    m.finditer = lambda p, s, flags=0: comp(p, flags).finditer(s)
    m.split = lambda p, s, maxsplit=0, flags=0: comp(p, flags).split(s, maxsplit)
    m.sub = lambda p, r, s, count=0, flags=0: comp(p, flags).sub(r, s, count)
    m.Pattern = (real.Pattern, Pattern)
    m.Match = (real.Match, Match)
    return m
