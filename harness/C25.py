"""C25: immutable list values cannot be changed by any list operation, and otherwise behave as lists."""

from .common import registry

HARNESSES, harness = registry()

OUTSIDE = "more than 5 (thorough 8) elements; list.__setitem__ and the like called on the base class explicitly"

OPS = {
    "append": lambda c, v, i: c.append(v),
    "extend": lambda c, v, i: c.extend([v]),
    "extend empty": lambda c, v, i: c.extend([]),
    "insert": lambda c, v, i: c.insert(i, v),
    "pop": lambda c, v, i: c.pop(),
    "pop at": lambda c, v, i: c.pop(i),
    "remove": lambda c, v, i: c.remove(v),
    "reverse": lambda c, v, i: c.reverse(),
    "sort": lambda c, v, i: c.sort(),
    "sort by": lambda c, v, i: c.sort(key=str, reverse=True),
    "clear": lambda c, v, i: c.clear(),
    "set": lambda c, v, i: c.__setitem__(i, v),
    "set slice": lambda c, v, i: c.__setitem__(slice(0, i), [v]),
    "del": lambda c, v, i: c.__delitem__(i),
    "del slice": lambda c, v, i: c.__delitem__(slice(0, 2)),
    "+=": lambda c, v, i: c.__iadd__([v]),
    "*=": lambda c, v, i: c.__imul__(2),
    "*= index": lambda c, v, i: c.__imul__(i),
    "+= nothing": lambda c, v, i: c.__iadd__(()),
    "+= itself": lambda c, v, i: c.__iadd__(c),
    "extend itself": lambda c, v, i: c.extend(c),
    "set to itself": lambda c, v, i: c.__setitem__(slice(None), c),
    "set step": lambda c, v, i: c.__setitem__(slice(0, 4, 2), [v, v]),
    "del none": lambda c, v, i: c.__delitem__(slice(0, 0)),
    "pop first": lambda c, v, i: c.pop(0),
}


def make(x, L, n, kind):
    vals = [x.int(f"v{i}", -9, 9) for i in range(n)]
    cls = L.wrappers.Cursor if kind == "Cursor" else L.wrappers.ImmutableList
    return cls, vals, cls(vals)


@harness("lists of 0..3 or 5 arbitrary integers (thorough up to 8), any of 25 changing operations with any value and index: TypeError, and the list is as before")
def refused(x, L):
    n = x.choice("n", (0, 1, 2, 3, 5) if x.tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 8))
    cls, vals, c = make(x, L, n, x.choice("class", ("Cursor", "ImmutableList")))
    op = x.choice("op", tuple(OPS))
    v, i = x.int("value", -9, 9), x.choice("index", (0, 1, -1, 5))
    try:
        OPS[op](c, v, i)
        bad = False
    except TypeError:
        bad = True
    x.check(bad, "refused with TypeError")
    x.check(x.eq(list(c), vals), "as before")
    x.check(len(c) == n, "as long as before")


@harness("the cursor of a style: changed by none of the operations")
def of_a_style(x, L):
    st = L.CSS(cursor=["url(a)", "help"])
    other = st.copy()
    op = x.choice("op", tuple(OPS))
    try:
        OPS[op](st.cursor, x.choice("value", ("help", "auto", "wait")), x.choice("index", (0, 1)))
        bad = False
    except TypeError:
        bad = True
    x.check(bad, "refused with TypeError")
    for s in (st, other):
        x.check(str(s) == 'cursor: url("a"), help', "the style is as before")


@harness("lists of 0..3 or 5 arbitrary integers: reading, iterating, slicing, comparing, adding, copying and text are those of the values")
def reading(x, L):
    n = x.choice("n", (0, 1, 2, 3, 5))
    cls, vals, c = make(x, L, n, x.choice("class", ("Cursor", "ImmutableList")))
    x.check(x.eq([k for k in c], vals), "iterates over the values")
    for i in range(n):
        x.check(c[i] == vals[i], "by index")
        x.check(c[i - n] == vals[i - n], "by negative index")
    for i in (n, -n - 1):
        try:
            c[i]
            x.check(False, "no other index")
        except IndexError:
            pass
    x.check(x.eq(list(c[1:]), vals[1:]), "slices")
    v = x.int("value", -9, 9)
    x.check((v in c) == x.any(*[k == v for k in vals]) if vals else v not in c, "membership")
    x.check(x.eq(list(c + [v]), vals + [v]), "sums are new lists")
    d = c.copy()
    x.check(type(d) is cls and d is not c, "a copy is another of its kind")
    x.check(x.eq(list(d), vals), "with the same values")
    x.check(c == d, "and equal")
    x.check(c == cls(list(vals)), "equal to one of equal values")
    w = x.int("w", -9, 9)
    x.check((c == cls(vals + [w])) is False or x.no(c == cls(vals + [w])), "not equal to a longer one")
    x.check(x.eq(str(c), ", ".join(str(k) for k in vals)), "the text lists the values")


@harness("hashes: of two lists of words, equal ones have equal hashes, and can be keys")
def hashes(x, L):
    words = ("auto", "help", "wait")
    a = [x.choice(f"a{i}", words) for i in range(x.choice("n", (0, 1, 2)))]
    b = [x.choice(f"b{i}", words) for i in range(x.choice("m", (0, 1, 2)))]
    one, two = L.wrappers.Cursor(a), L.wrappers.Cursor(b)
    x.check((one == two) == (a == b), "equal exactly if the values are")
    x.check(a != b or hash(one) == hash(two), "equal ones have equal hashes")
    x.check(({one: 1}.get(two) == 1) == (a == b), "usable as keys")


@harness("hashes of equal lists of other objects: texts made apart from each other, 1 and 1.0, True and 1, tuples, nested; up to 8 elements")
def hashes_of_equals(x, L):
    cls = (L.wrappers.Cursor, L.wrappers.ImmutableList)[x.choice("class", (0, 1))]
    pairs = (
        ("".join(["ab", "cd"]), "".join(["abc", "d"])),
        (1, 1.0),
        (True, 1),
        (10**20, 10**19 * 10),
        (("a", 1), tuple(["a", 1.0])),
        (cls(["".join(["x", "yz"])]), cls(["".join(["xy", "z"])])),
        (0.0, -0.0),
        (None, None),
    )
    some = [pairs[x.choice(f"p{i}", tuple(range(len(pairs))))] for i in range(x.choice("n", (1, 2)))]
    some = some * x.choice("times", (1, 2, 4))
    one, two = cls([a for a, b in some]), cls([b for a, b in some])
    x.check(one == two, "lists of equal elements are equal")
    x.check(hash(one) == hash(two), "and have equal hashes")
    x.check(two in {one}, "and are found in sets")


@harness("making one from a list and changing that list afterwards: no effect; from itself or nothing as well")
def detached(x, L):
    vals = [x.int("a", -9, 9), x.int("b", -9, 9)]
    cls = x.choice("class", (0, 1))
    cls = (L.wrappers.Cursor, L.wrappers.ImmutableList)[cls]
    src = list(vals)
    c = cls(src)
    d = cls(c)
    op = x.choice("op", ("append", "set", "clear", "reverse"))
    if op == "append":
        src.append(1)
    elif op == "set":
        src[0] = 100
    elif op == "clear":
        src.clear()
    else:
        src.reverse()
    x.check(x.eq(list(c), vals), "the values it was made of")
    x.check(x.eq(list(d), vals), "one made of another as well")
    x.check(len(cls()) == 0, "nothing given: empty")


@harness("lists of 0..4 arbitrary integers: any slice, start and stop -6..6 or none, step -3..3 or none; reversed, sorted, counts, indices, sums and products")
def slicing(x, L):
    n = x.choice("n", (0, 1, 2, 4))
    cls, vals, c = make(x, L, n, x.choice("class", ("Cursor", "ImmutableList")))
    if x.bool("slice"):
        a, b = x.choice("start", (None, -6, -4, -2, -1, 0, 1, 3, 6)), x.choice("stop", (None, -6, -3, -1, 0, 2, 4, 6))
        step = x.choice("step", (None, 1, 2, -1, -3))
        x.check(x.eq(list(c[a:b:step]), vals[a:b:step]), "the slice of the values")
        x.check(x.eq(list(c), vals), "as before")
        return
    x.check(x.eq([v for v in reversed(c)], vals[::-1]), "reversed")
    x.check(x.eq([v for v in iter(c)], vals), "iterated")
    v = x.int("value", -9, 9)
    x.check(x.eq(c.count(v), sum([x.ite(k == v, 1, 0) for k in vals])), "counts")
    x.check(x.eq(list(c * 2), vals * 2), "products are new lists")
    x.check(x.eq(list(2 * c), vals * 2), "from either side")
    x.check(x.eq([v] + list(c), [v] + vals), "sums are new lists")
    x.check(bool(c) == (n > 0), "true exactly if not empty")
    x.check(x.eq(list(c), vals), "as before")
    if any([k == v for k in vals]):
        i = c.index(v)
        x.check(x.all(vals[i] == v, *[vals[k] != v for k in range(i)]), "the first index")
    try:
        c.index(10)
        x.check(False, "no index of what is not there")
    except ValueError:
        pass


@harness("lists of any 1..3 elements out of None, 0, False, '', an empty list, NaN and a word, from a list, tuple, iterator or another of its kind: all are kept, in order")
def elements(x, L):
    cls = (L.wrappers.Cursor, L.wrappers.ImmutableList)[x.choice("class", (0, 1))]
    some = (None, 0, False, "", [], float("nan"), "auto")
    vals = [some[x.choice(f"e{i}", tuple(range(len(some))))] for i in range(x.choice("n", (1, 2, 3)))]
    form = x.choice("form", (list, tuple, iter, cls))
    c = cls(form(vals))
    x.check(len(c) == len(vals), "as many")
    x.check(all(a is b for a, b in zip(c, vals)), "the very same, in order")
    x.check(all(c[i] is vals[i] for i in range(len(vals))), "by index")
    d = c.copy()
    x.check(len(d) == len(vals) and all(a is b for a, b in zip(d, vals)), "copied as well")


@harness("lists of 10..40 integers, one of them, anywhere, arbitrary: reading, copies, equality and hashes as for short ones; nothing changes them")
def long(x, L):
    cls = (L.wrappers.Cursor, L.wrappers.ImmutableList)[x.choice("class", (0, 1))]
    n = x.choice("n", (10, 17, 40))
    at = x.choice("at", (0, 8, 9)) if x.bool("front") else n - 1
    vals = list(range(n))
    vals[at] = x.int("v", -9, 99)
    c, d = cls(vals), cls(tuple(vals))
    x.check(x.all(len(c) == n, x.eq(list(c), vals)), "the values")
    x.check(x.eq(list(c.copy()), vals), "copied")
    x.check(c == d, "equal lists are equal")
    other = list(vals)
    other[at] = x.int("w", -9, 99)
    x.check((c == cls(other)) == (vals[at] == other[at]), "equal exactly if the values are")
    op = x.choice("op", tuple(OPS))
    try:
        OPS[op](c, 5, 3)
        bad = False
    except TypeError:
        bad = True
    x.check(bad and x.eq(list(c), vals), "refused, and as before")


@harness("hashes of lists of 5..40 words: equal for equal lists, which are found as keys")
def long_hashes(x, L):
    cls = (L.wrappers.Cursor, L.wrappers.ImmutableList)[x.choice("class", (0, 1))]
    n = x.choice("n", (5, 9, 10, 16, 17, 40))
    one, two = ["w%d" % (i % 7) for i in range(n)], ["".join(["w", str(i % 7)]) for i in range(n)]
    at = x.choice("at", (None, 0, n - 1))
    if at is not None:
        two[at] = "other"
    a, b = cls(one), cls(two)
    x.check((a == b) == (at is None), "equal exactly if the values are")
    x.check(at is not None or hash(a) == hash(b), "equal ones have equal hashes")
    x.check(({a: 1}.get(b) == 1) == (at is None), "usable as keys")
