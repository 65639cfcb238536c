"""C29: numbers are accepted exactly within their range, and without change."""

from .common import registry

HARNESSES, harness = registry()

OUTSIDE = "numbers beyond 10**25; texts longer than 4 characters; texts with blanks or other scripts' digits; whether underscores between digits are accepted"


def tried(L, validator, value):
    """(accepted, result); anything but ValidationError propagates."""
    try:
        return True, validator(value)
    except L.exceptions.ValidationError:
        return False, None


def limits(x, make):
    kind = x.choice("limits", ("min", "max", "both"))
    lo = x.int("min", -1000, 1000) if kind != "max" else None
    hi = x.int("max", -1000, 1000) if kind != "min" else None
    kw = {}
    if lo is not None:
        kw["min_value"] = lo
    if hi is not None:
        kw["max_value"] = hi
    inside = lambda v: x.all(True if lo is None else v >= lo, True if hi is None else v <= hi)  # noqa: E731
    return make(**kw), inside


@harness("is_integer with a minimum, a maximum or both, any integers -1000..1000; value any integer up to 10**20", covers=["in", "out"])
def integers(x, L):
    valid, inside = limits(x, L.validators.is_integer)
    v = x.int("v", -(10**20), 10**20)
    ok, got = tried(L, valid, v)
    if inside(v):
        x.check(ok, "in range: accepted")
        x.check(x.all(got == v, isinstance(got, int)), "as it is")
        x.cover("in")
    else:
        x.check(not ok, "out of range: refused")
        x.cover("out")


@harness("is_number with a minimum, a maximum or both, any integers -1000..1000; value any integer or multiple of 1/64", covers=["in", "out"])
def numbers(x, L):
    valid, inside = limits(x, L.validators.is_number)
    v = x.frac("f", -2000, 2000, 64) if x.bool("fraction") else x.int("v", -1000000, 1000000)
    ok, got = tried(L, valid, v)
    if inside(v):
        x.check(ok, "in range: accepted")
        x.check(x.all(got == v, isinstance(got, float)), "as it is")
        x.cover("in")
    else:
        x.check(not ok, "out of range: refused")
        x.cover("out")


@harness("is_integer and is_number, ranged 0..50 or not: any text of 0..3 characters (thorough 4) over digits + - . x", covers=["good", "bad"])
def texts(x, L):
    which = x.choice("which", ("is_integer", "is_number"))
    ranged = x.bool("ranged")
    make = getattr(L.validators, which)
    valid = make(min_value=0, max_value=50) if ranged else make
    s = x.string("s", (0, 1, 2, 3) if x.tier == "quick" else (0, 1, 2, 3, 4), "0123456789+-.x")
    ok, got = tried(L, valid, s)
    body = s[1:] if len(s) and s[0] in "+-" else s
    num, scale, dots, digits = 0, 1, 0, 0
    good = True
    for ch in body:
        if ch in "0123456789":
            num = 10 * num + (ord(ch) - 48)
            digits += 1
            scale = scale * 10 if dots else scale
        elif ch == "." and which == "is_number":
            dots += 1
        else:
            good = False
            break
    good = good and digits > 0 and dots < 2
    if not good:
        x.check(not ok, "not a number: refused")
        x.cover("bad")
        return
    if s[0] == "-":
        num = -num
    if ranged and x.any(num < 0, num > 50 * scale):
        x.check(not ok, "out of range: refused")
        return
    x.check(ok, "a number's text is accepted")
    d = got * scale - num
    x.check(x.all(1000000 * d < 1, 1000000 * d > -1), "as the number it says")
    x.check(isinstance(got, int if which == "is_integer" else float), "of the right type")
    x.cover("good")


@harness("values of other types: refused with ValidationError, never another error")
def others(x, L):
    make = getattr(L.validators, x.choice("which", ("is_integer", "is_number")))
    valid = make(min_value=0) if x.bool("ranged") else make
    v = x.choice("v", (None, "auto", "", [], (1,), {}, object(), b"x", "1px", "0x10", "--1", "1 2", "nan?", "1,5", "1e", "½"))
    ok, got = tried(L, valid, v)
    x.check(not ok, "refused")


@harness("two validators with different ranges, any integers, used in turn: each keeps its own range")
def independent(x, L):
    a, b, v = x.int("a", -1000, 1000), x.int("b", -1000, 1000), x.int("v", -1000, 1000)
    one, two = L.validators.is_integer(min_value=a), L.validators.is_integer(max_value=b)
    three = L.validators.is_number(min_value=b)
    for valid, inside in ((one, v >= a), (two, v <= b), (three, v >= b), (one, v >= a)):
        ok, got = tried(L, valid, v)
        x.check(ok if inside else not ok, "accepted exactly in its own range")


@harness("validators with the same minimum and different maxima (or the other way round, or one limit missing), of both kinds, used in turn: each keeps its own range")
def alike(x, L):
    make = getattr(L.validators, x.choice("which", ("is_integer", "is_number")))
    a, b, c, v = (x.int(n, -1000, 1000) for n in ("a", "b", "c", "v"))
    same, other = ("min_value", "max_value") if x.bool("same minimum") else ("max_value", "min_value")
    beyond = lambda lim: v <= lim if other == "max_value" else v >= lim  # noqa: E731
    inside = v >= a if same == "min_value" else v <= a
    made = [(make(**{same: a, other: b}), x.all(inside, beyond(b)))]
    if x.bool("one limit"):
        made.append((make(**{same: a}), inside))
    else:
        made.append((make(**{same: a, other: c}), x.all(inside, beyond(c))))
    if x.bool("reversed"):
        made = made[::-1]
    for valid, good in made + made[:1]:
        ok, got = tried(L, valid, v)
        x.check(ok if good else not ok, "accepted exactly in its own range")


@harness(
    "is_percentage: any percentage -1000..1000 or multiple of 1/64 as a unit value or text (two digits): accepted, unchanged, exactly if not "
    "negative; lengths in other units, plain numbers and other things are refused; is_length accepts them all but the last",
    covers=["in", "out"],
)
def percentages(x, L):
    kind = x.choice("kind", ("value", "fraction", "text", "length", "number", "other"))
    if kind == "length":
        v = x.int("n", -50, 50) * getattr(L.units, x.choice("unit", ("px", "em", "vw", "mm")))
    elif kind == "number":
        v = x.int("n", -50, 50)
    elif kind == "other":
        v = x.choice("v", (None, "%", "a%", "auto", [], (5,), object(), "5deg", "", float("nan"), "5%%"))
        for valid in (L.validators.is_percentage, L.validators.is_length):
            x.check(not tried(L, valid, v)[0], "refused")
        return
    else:
        if kind == "value":
            n = x.int("n", -1000, 1000)
            v = n * L.units.percent
        elif kind == "fraction":
            n = x.frac("n", -100, 100, 64)
            v = n * L.units.percent
        else:
            n = x.int("n", 10, 99)
            sign = x.choice("sign", ("", "-", "+"))
            v = f"{sign}{n}%"
            n = -n if sign == "-" else n
        ok, got = tried(L, L.validators.is_percentage, v)
        if n >= 0:
            x.check(ok, "a percentage from 0 on is accepted")
            x.check(x.all(got.val == n, got.suffix == "%"), "as it is")
            x.cover("in")
        else:
            x.check(not ok, "a negative one is refused")
            x.cover("out")
        ok, got = tried(L, L.validators.is_length, v)
        x.check(ok and x.all(got.val == n, got.suffix == "%"), "as a length it is accepted with either sign")
        return
    x.check(not tried(L, L.validators.is_percentage, v)[0], "not a percentage: refused")
    ok, got = tried(L, L.validators.is_length, v)
    x.check(ok and (got is v if kind == "length" else got == v), "a length")


@harness("True and False, which are integers in Python: 1 and 0, with or without limits")
def booleans(x, L):
    name, kind = x.choice("which", (("is_integer", int), ("is_number", float)))
    v = x.bool("v")
    lo = x.int("min", -3, 3) if x.bool("ranged") else None
    make = getattr(L.validators, name)
    ok, got = tried(L, make if lo is None else make(min_value=lo), v)
    if lo is None or (1 if v else 0) >= lo:
        x.check(ok and x.all(got == (1 if v else 0), isinstance(got, kind)), "as the number it is")
    else:
        x.check(not ok, "out of range: refused")


@harness("infinities, NaN and numbers beyond all limits: refused as integers with ValidationError; numbers are kept to their limits")
def extremes(x, L):
    v = x.choice("v", (float("inf"), float("-inf"), float("nan"), "inf", "-inf", "nan", "1e400", "1.0", "1e3"))
    ranged = x.bool("ranged")
    ok, got = tried(L, L.validators.is_integer(min_value=x.int("min", -5, 5)) if ranged else L.validators.is_integer, v)
    x.check(not ok, "not an integer: refused")
    if v in ("1.0", "1e3") or v == float("inf") or v == "inf":
        return
    hi = x.int("max", -5, 5)
    if v in ("1e400",):
        ok, got = tried(L, L.validators.is_number(max_value=hi), v)
        x.check(not ok, "above the maximum: refused")
    elif v == float("-inf") or v == "-inf":
        ok, got = tried(L, L.validators.is_number(min_value=hi), v)
        x.check(not ok, "below the minimum: refused")


@harness("floats given to is_integer, any multiple of 1/8 between -200 and 200, with a minimum, a maximum, both or none: only whole ones within the limits", covers=["whole", "fraction"])
def floats(x, L):
    valid, inside = (L.validators.is_integer, lambda v: True) if x.bool("bare") else limits(x, L.validators.is_integer)
    v = x.frac("f", -200, 200, 8)
    ok, got = tried(L, valid, v)
    if x.eq(8 * v - 8 * (v // 1), 0):
        if inside(v):
            x.check(ok and x.all(got == v, isinstance(got, int)), "whole: accepted, as the integer it is")
        else:
            x.check(not ok, "out of range: refused")
        x.cover("whole")
    else:
        x.check(not ok, "not an integer: refused")
        x.cover("fraction")


@harness("numbers next to a limit, apart from it by 1e-15 to 1e-3 either way, with a minimum, a maximum or both: accepted exactly within")
def next_to(x, L):
    at, d = x.choice("at", (0, 1, -1, 7, 1000)), x.choice("apart", (1e-15, 1e-13, 1e-10, 1e-9, 1e-7, 1e-3))
    v = at + d if x.bool("above") else at - d
    x.assume(v != at)
    far = x.int("far", 1, 1000)
    kind = x.choice("limit", ("min", "max", "both min", "both max"))
    is_min = kind.endswith("min")
    kw = {"min_value": at} if is_min else {"max_value": at}
    if kind.startswith("both"):
        kw["max_value" if is_min else "min_value"] = at + far if is_min else at - far
    ok, got = tried(L, L.validators.is_number(**kw), v)
    if v > at if is_min else v < at:
        x.check(ok and got == v, "within: accepted as it is")
    else:
        x.check(not ok, "beyond: refused")


@harness("texts of digits with underscores, any 2..4 characters of 1 2 _ (thorough 5), for both: never read as another number than Python's", covers=["good", "bad"])
def underscores(x, L):
    make = getattr(L.validators, x.choice("which", ("is_integer", "is_number")))
    valid = make(min_value=0) if x.bool("ranged") else make
    s = x.string("s", (2, 3, 4) if x.tier == "quick" else (2, 3, 4, 5), "12_")
    ok, got = tried(L, valid, s)
    num, last, good = 0, "_", True
    for ch in s:
        if ch == "_":
            good = good and last != "_"
            last = "_"
        else:
            num = 10 * num + (ord(ch) - 48)
            last = "0"
    if good and last != "_":
        x.check(not ok or got == num, "the number it says, if accepted")
        x.cover("good")
    else:
        x.check(not ok, "not a number: refused")
        x.cover("bad")


BIG = (2**31 - 1, 2**31, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64 + 1, 10**18 + 1, 123456789, 10**25 + 3)


@harness("is_integer, bare or limited, with 11 numbers up to 10**25 and their negatives, as numbers or text: accepted exactly within the limits, to the last digit")
def large(x, L):
    v = x.choice("v", BIG)
    v = -v if x.bool("negative") else v
    given = {"number": v, "text": str(v), "zeros": ("-00" if v < 0 else "00") + str(abs(v))}[x.choice("form", ("number", "text", "zeros"))]
    kind = x.choice("limits", ("none", "min", "max"))
    d = x.int("apart", -3, 3)
    lim = v + d
    make = L.validators.is_integer
    ok, got = tried(L, make if kind == "none" else make(min_value=lim) if kind == "min" else make(max_value=lim), given)
    if kind == "none" or (d <= 0 if kind == "min" else d >= 0):
        x.check(ok and x.all(got == v, isinstance(got, int)), "within: accepted, as it is")
    else:
        x.check(not ok, "beyond: refused")
