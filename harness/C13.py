"""C13: a length text is either parsed to exactly what it says or rejected with ValueError."""

from .common import registry

HARNESSES, harness = registry()

OUTSIDE = (
    "texts longer than the stated lengths or with characters outside the stated alphabets (in particular upper case units, "
    "white space and underscores); more than 3 digits before and 2 after the point"
)

SUFFIXES = ("px", "em", "ex", "ch", "pt", "pc", "in", "cm", "mm", "vh", "vmax", "vmin", "vw", "%")
BAD = ("deg", "rad", "grad", "turn", "rem", "fr", "x", "p", "i", "%%", "pxpx", "q")
PROPS = ("width", "margin_top", "padding_left", "min_height", "top", "text_indent")
DIGITS = "0123456789"


def accepted(x, fn):
    """(True, result) or (False, None) for ValueError; anything else is a failure of the property."""
    try:
        return True, fn()
    except ValueError:
        return False, None


def put(L, prop, value):
    st = L.CSS()
    setattr(st, prop, value)
    return getattr(st, prop)


def near(x, got, num, den):
    d = den * got - num
    return x.all(1000000000 * d <= den, 1000000000 * d >= -den)


def number(x, name, before, after):
    """A decimal number's text and its value as (numerator, denominator)."""
    sign = x.choice(name + ".sign", ("", "-", "+"))
    a = x.string(name + ".a", before, DIGITS)
    dot = x.bool(name + ".dot")
    b = x.string(name + ".b", after, DIGITS) if dot else ""
    x.assume(len(a) + len(b) > 0)
    num, den = 0, 1
    for ch in a:
        num = num * 10 + (ord(ch) - 48)
    for ch in b:
        num = num * 10 + (ord(ch) - 48)
        den = den * 10
    if sign == "-":
        num = -num
    return sign + a + ("." if dot else "") + b, num, den


@harness("[+-] 0..3 digits [. 0..2 digits] and any unit, or none (pixels), assigned to any of 6 properties")
def well_formed(x, L):
    text, num, den = number(x, "n", (0, 1, 3) if x.tier == "quick" else (0, 1, 2, 3, 4), (0, 1, 2))
    suffix = x.choice("unit", SUFFIXES + ("",))
    prop = x.choice("property", PROPS[:2] if x.tier == "quick" else PROPS)
    ok, v = accepted(x, lambda: put(L, prop, text + suffix))
    x.check(ok, "a number with a unit is a length")
    if ok:
        x.observe("length", [v.val, v.suffix])
        x.check(v.suffix == (suffix or "px"), "the unit is the one given, pixels without one")
        x.check(near(x, v.val, num, den), "the number is the one given")
        x.cover("accepted")


@harness("a number with an unknown unit, an angle unit or two units")
def bad_unit(x, L):
    text, num, den = number(x, "n", (1, 2), (0, 1))
    text = text + x.choice("unit", BAD)
    prop = x.choice("property", PROPS)
    ok, v = accepted(x, lambda: put(L, prop, text))
    x.observe("ok", ok)
    x.check(not ok, "not a length")


def reference(s):
    """Reference grammar: [+-] (digits [. digits*] | . digits) [e [+-] digits]; (ok, num, exp10)."""
    i, n = 0, len(s)
    neg = False
    if i < n and s[i] in "+-":
        neg = s[i] == "-"
        i += 1
    num, exp, seen = 0, 0, 0
    while i < n and s[i] in DIGITS:
        num = num * 10 + (ord(s[i]) - 48)
        seen += 1
        i += 1
    if i < n and s[i] == ".":
        i += 1
        while i < n and s[i] in DIGITS:
            num = num * 10 + (ord(s[i]) - 48)
            exp -= 1
            seen += 1
            i += 1
    if not seen:
        return False, 0, 0
    if i < n and s[i] in "eE":
        i += 1
        eneg = False
        if i < n and s[i] in "+-":
            eneg = s[i] == "-"
            i += 1
        if i >= n:
            return False, 0, 0
        e = 0
        while i < n and s[i] in DIGITS:
            e = e * 10 + (ord(s[i]) - 48)
            i += 1
        exp += -e if eneg else e
    if i < n:
        return False, 0, 0
    return True, -num if neg else num, exp


def arbitrary(x, L, lens, alphabet, prop):
    s = x.string("s", lens, alphabet)
    ok, v = accepted(x, lambda: put(L, prop, s))
    for suffix in SUFFIXES + ("",):
        if s.endswith(suffix):
            good, num, exp = reference(s[: len(s) - len(suffix)])
            if good:
                x.check(ok, "a length is accepted")
                if ok:
                    x.observe("length", [v.val, v.suffix])
                    x.check(v.suffix == (suffix or "px"), "the unit is the one given, pixels without one")
                    if exp > -6 and exp < 6:
                        scale = 10 ** (exp if exp > 0 else -exp)
                        if exp >= 0:
                            x.check(near(x, v.val, num * scale, 1), "the number is the one given")
                        else:
                            x.check(near(x, v.val, num, scale), "the number is the one given")
                    x.cover("accepted")
                return
    x.observe("ok", ok)
    x.check(not ok, "anything else is rejected")
    x.cover("rejected")


@harness("any text of 0..4 characters (thorough 5) over digits . + - e p x % m v h", covers=["accepted", "rejected"])
def any_text(x, L):
    arbitrary(x, L, (0, 1, 2, 3, 4) if x.tier == "quick" else (0, 1, 2, 3, 4, 5), DIGITS + ".+-epx%mvh", "height")


@harness("any text of 2..4 characters (thorough 6) over 1 2 . i n f a t c m", covers=["accepted", "rejected"])
def any_word(x, L):
    arbitrary(x, L, (2, 3, 4) if x.tier == "quick" else (2, 3, 4, 5, 6), "12.infatcm", "text_indent")


@harness("a digit followed by any 2..4 lower case letters", covers=["accepted", "rejected"])
def any_unit(x, L):
    d = x.string("d", (1,), DIGITS)
    u = x.string("u", (2, 3, 4), "abcdefghijklmnopqrstuvwxyz%")
    ok, v = accepted(x, lambda: put(L, "padding_top", d + u))
    known = x.any(*[x.eq(u, s) for s in SUFFIXES if len(s) == len(u)])
    if known:
        x.check(ok, "a known unit is accepted")
        if ok:
            x.check(x.all(v.val == ord(d) - 48, x.eq(v.suffix, u)), "number and unit as given")
            x.cover("accepted")
    else:
        x.check(not ok, "any other is rejected")
        x.cover("rejected")


FLOATS = (0.1, 1 / 3, 1e-07, 5e-324, 123456.789012, 99999.99999, 0.30000000000000004, 1e22, 1.7976931348623157e308, -0.0005)


@harness("texts of 10 numbers with many digits or an exponent, signed or not, with every unit: exactly the float they denote")
def long_numbers(x, L):
    text = x.choice("number", ("0.1", "0.333333333333333314829616256247", "1e-7", "123456.789012", "99999.99999", "0.30000000000000004", "1E5", "00012.500", "9007199254740993", "-1e+3"))
    if text[0] != "-":
        text = x.choice("sign", ("", "+", "-")) + text
    u = x.choice("unit", ("",) + tuple(SUFFIXES))
    ok, v = accepted(x, lambda: put(L, x.choice("property", PROPS), text + u))
    x.check(ok and v.val == float(text) and v.suffix == (u or "px"), "the number written and its unit")


@harness("numbers: any integer -10**6..10**6, any multiple of 1/64 -4000..4000 or of 2**-30 -4..4, 10 other floats, infinities, nan")
def numbers(x, L):
    prop = x.choice("property", PROPS)
    kind = x.choice("kind", ("int", "frac", "bad", "fine", "float"))
    if kind == "bad":
        v = x.choice("bad", (float("inf"), float("-inf"), float("nan"), "inf", "-inf", "nan", "infinity", "infpx", "nan%", "1e999", "-1e999px"))
        ok, _ = accepted(x, lambda: put(L, prop, v))
        x.check(not ok, "a length is a finite number")
        return
    if kind in ("fine", "float"):
        v = x.frac("f", -4, 4, 2**30) if kind == "fine" else x.choice("float", FLOATS)
        ok, got = accepted(x, lambda: put(L, prop, v))
        x.check(ok and got.val == v and got.suffix == "px", "a number is exactly that length in pixels")
        x.check(x.all(128 * (got.px() - v) <= 1.001, 128 * (got.px() - v) >= -1.001) if abs(v) < 10**9 else True, "to the nearest 1/64 px")
        return
    v = x.int("v", -1000000, 1000000) if kind == "int" else x.frac("f", -4000, 4000, 64)
    ok, got = accepted(x, lambda: put(L, prop, v))
    x.check(ok, "a number is a length in pixels")
    if ok:
        x.observe("length", [got.val, got.suffix])
        x.check(x.all(got.val == v, got.suffix == "px"), "a number is a length in pixels")
        x.check(got.px() == v, "as many pixels as given")


@harness("unit values of every unit, any integer factor: kept; values of other types: rejected")
def objects(x, L):
    prop = x.choice("property", PROPS)
    if x.bool("unit"):
        name = x.choice("name", ("px", "em", "ex", "ch", "pt", "pc", "inch", "cm", "mm", "vh", "vmax", "vmin", "vw", "percent"))
        v = x.int("v", 1, 1000) * getattr(L.units, name)
        ok, got = accepted(x, lambda: put(L, prop, v))
        x.check(ok, "a unit value is a length")
        if ok:
            x.check(x.all(got.val == v.val, got.suffix == v.suffix), "kept as it is")
    else:
        bad = x.choice("bad", ("none", "list", "tuple", "dict", "object", "angle", "bytes", "set", "type"))
        v = {
            "none": lambda: "nonesuch",
            "list": lambda: [1],
            "tuple": lambda: (1,),
            "dict": lambda: {},
            "object": lambda: object(),
            "angle": lambda: x.int("a", 1, 100) * L.units.deg,
            "bytes": lambda: b"1px",
            "set": lambda: {1},
            "type": lambda: int,
        }[bad]()
        ok, got = accepted(x, lambda: put(L, prop, v))
        x.check(not ok, "values of other types are invalid")


@harness("parsing any number of lengths leaves the parser as it was: one text parsed before and after others")
def no_memory(x, L):
    n = x.int("n", 1, 500)
    unit = x.choice("unit", ("px", "em", "%", "vmin", "in"))
    first = put(L, "width", f"{n}{unit}")
    for other in (x.choice("o1", ("5px", "7vmax", "3q", "-2in", "1e3%")), x.choice("o2", ("0.5em", "9", "in", "px"))):
        accepted(x, lambda: put(L, "width", other))
    again = put(L, "width", f"{n}{unit}")
    x.check(x.all(again.val == first.val, again.suffix == first.suffix, first.val == n, first.suffix == unit), "same again")


class Int(int):
    pass


class Float(float):
    pass


class Text(str):
    pass


@harness("numbers and texts of derived types (int, float, str, an enumeration, True): the same lengths as the plain ones")
def derived(x, L):
    v, want = x.choice("v", ((Int(12), 12), (Float(1.5), 1.5), (True, 1), (Text("12px"), 12), (Text("12"), 12), (Text("1.5mm"), 1.5), (Int(-3), -3)))
    u = L.parser.units(v)
    x.check(u.val == want and u.suffix == ("mm" if "mm" in str(v) else "px"), "the number stated")
    p = x.choice("property", ("width", "margin_top", "border_left_width"))
    got = put(L, p, v)
    x.check(got.val == want, "in a style as well")
    bad = x.choice("bad", (Text("px"), Text("1deg"), Float("nan"), Float("inf"), Text("")))
    try:
        L.parser.units(bad)
        x.check(False, "refused as well")
    except ValueError:
        pass
