"""C27: the text of a style is its declarations in CSS syntax, which read back give an equal style."""

from .C16 import TABLE
from .C23 import fields
from .common import registry

HARNESSES, harness = registry()

OUTSIDE = (
    "hsl colors (their text form is fixed by the tests and cannot be read back); numbers with more than 4 digits; urls and "
    "quotes containing ; or :"
)


def parse(L, text):
    """A CSS declaration block, split at ; and : as a style sheet parser would."""
    st = L.CSS()
    for part in text.split("; "):
        name, sep, value = part.partition(": ")
        st[name] = value
    return st


def sample(x, L, p, i):
    words, kinds, init = TABLE[p]
    options = [("word", w) for w in (words if x.tier == "thorough" else words[-1:] + words[:1])]
    options += [(k, None) for k in kinds]
    kind, w = x.choice(f"{p}.kind{i}", tuple(options))
    n = x.int(f"{p}.n{i}", 10, 99)
    if x.tier == "thorough" and kind in ("length", "integer") and x.bool(f"{p}.neg{i}"):
        n = -n
    return {
        "word": lambda: w,
        "length": lambda: n * getattr(L.units, x.choice(f"{p}.unit{i}", ("px", "pt", "inch", "vmax", "em"))),
        "percentage": lambda: n * L.units.percent,
        "integer": lambda: n,
        "color": lambda: L.colors.rgb(n, 1, 2, 0.5),
        "rect": lambda: L.shapes.Rect(n * L.units.px, n * L.units.mm, 3 * L.units.px, -4 * L.units.px),
        "quotes": lambda: [("<", ">"), ("“ ", "'")],
        "spacing": lambda: (n, "2mm") if x.bool(f"{p}.two{i}") else n,
        "cursor": lambda: x.choice(f"{p}.list{i}", (['url("some.cur")', "help"], ["url(a)", "url(b)", "url(a)", "wait"], ["url(a)", "url(a)", "auto"])),
    }[kind]()


def judge(x, L, st):
    text = str(st)
    x.observe("text", text)
    other = parse(L, text)
    for p in TABLE:
        a, b = getattr(st, p), getattr(other, p)
        x.check(a is b or x.eq(fields(a), fields(b)), "every property reads the same after parsing the text")
    x.check(x.eq(str(other), text), "and renders the same")


@harness("each property with each of its keywords (quick: two of them) and values of each other kind (numbers 10..99, thorough also negative)")
def each(x, L):
    p = x.choice("property", tuple(TABLE))
    st = L.CSS()
    v = sample(x, L, p, 0)
    setattr(st, p, v)
    x.assume(p in st.keys())
    judge(x, L, st)


@harness("two properties out of 12, of different kinds, together")
def pairs(x, L):
    some = ("width", "display", "border_top_style", "max_height", "color", "clip", "quotes", "cursor", "z_index", "border_spacing", "text_align", "float")
    i = x.choice("first", tuple(range(len(some) - 1)))
    j = x.choice("second", tuple(range(i + 1, len(some))) if x.tier == "thorough" else (i + 1, len(some) - 1) if i + 2 < len(some) else (i + 1,))
    st = L.CSS()
    for p in (some[i], some[j]):
        setattr(st, p, sample(x, L, p, 0))
    x.assume(some[i] in st.keys() and some[j] in st.keys())
    judge(x, L, st)


@harness("shorthands: margin, padding, border, border-left and outline, expanded in the text")
def shorthand(x, L):
    st = L.CSS()
    short = x.choice("short", ("margin", "padding", "border", "border_left", "outline"))
    a, b = x.int("a", 10, 99), x.int("b", 10, 99)
    if short in ("margin", "padding"):
        setattr(st, short, (a, b))
    else:
        setattr(st, short, f"{a}px {x.choice('style', ('solid', 'inset'))} {x.choice('color', ('red', '#123456'))}")
    judge(x, L, st)
    x.check(x.eq([d.partition(": ")[0] for d in str(st).split("; ")], sorted(k.replace("_", "-") for k in st.keys())), "one declaration for each property set, sorted by name")


@harness("lengths in every unit, any integer -9999..9999: the text is the number and the unit, and read back equal")
def lengths(x, L):
    name, suffix = x.choice("unit", (("px", "px"), ("pt", "pt"), ("pc", "pc"), ("inch", "in"), ("cm", "cm"), ("mm", "mm"), ("em", "em"), ("ex", "ex"),
                                     ("ch", "ch"), ("vw", "vw"), ("vh", "vh"), ("vmin", "vmin"), ("vmax", "vmax"), ("percent", "%")))  # fmt: skip
    lo, hi = x.choice("range", ((1, 9), (10, 99), (100, 999), (1000, 9999), (-9, -1), (-9999, -1000)))
    n = x.int("n", lo, hi)
    v = n * getattr(L.units, name)
    x.check(x.eq(str(v), f"{n}{suffix}"), "the number and the unit")
    back = L.parser.units(str(v))
    x.check(back == v and x.all(back.val == n, back.suffix == suffix), "read back equal")
    h = (2 * n + 1) * 0.5 * getattr(L.units, name)
    x.check(x.eq(fields(h), ["unit", suffix, n + 0.5]), "halves are exact")


@harness("rgb colors with any components 0..255: the text read back gives the same components")
def colors(x, L):
    r, g, b = x.int("r", 100, 255), x.int("g", 10, 99), x.int("b", 0, 9)
    a = x.choice("a", (0.0, 0.25, 1.0, 0.125))
    st = L.CSS(color=L.colors.rgb(r, g, b, a))
    judge(x, L, st)
    x.check(x.eq(str(st), f"color: rgba({r}, {g}, {b}, {a})"), "in functional notation")


@harness("lengths that are multiples of 1/64 between -3 and 3 (thorough 120), and 12 floats that need many digits: read back equal")
def fractions(x, L):
    unit = x.choice("unit", ("px", "pt", "percent", "em"))
    if x.bool("any"):
        n = x.frac("n", *((-3, 3) if x.tier == "quick" else (-120, 120)), 64)
    else:
        n = x.choice("n", (0.1, 1 / 3, 1e-05, 1e-09, 123456.789012, 2.0**0.5, 1e16, 12345678901.5, 0.30000000000000004, 100.0, 1e22, 5e-324))
    v = n * getattr(L.units, unit)
    prop = x.choice("property", ("width", "margin_top"))
    st = L.CSS()
    setattr(st, prop, v)
    if prop in st.keys():
        judge(x, L, st)
    x.check(x.eq(getattr(parse(L, str(st)), prop).val if prop in st.keys() else 0, n), "the very same number")


@harness("colors whose alpha needs many digits: any k/255 (hex with alpha), thirds, tiny ones: read back with the very same alpha")
def alphas(x, L):
    if x.bool("hex"):
        d = x.choice("d1", tuple("0123456789abcdef")) + x.choice("d2", tuple("0123456789abcdef"))
        st = L.CSS(color="#10203" + "0" + d)
    else:
        st = L.CSS(color=L.colors.rgb(x.int("r", 10, 99), 2, 3, x.choice("a", (1 / 3, 0.1 + 0.2, 1e-05, 0.999999, 2 / 7, 1e-9, 0.0001))))
    back = parse(L, str(st))
    a, b = st.color, back.color
    x.check(x.all(x.eq([a.r, a.g, a.b], [b.r, b.g, b.b]), a.a == b.a), "the very same color")


@harness("quotes of 1..3 characters out of both kinds of quotation marks, letter and blank, closed by one of 7 with backslashes, tabs and both marks: read back the same")
def quotation(x, L):
    a = x.string("a", (1, 2, 3), "'\"a ")
    b = x.choice("b", ("'", '"', "\\", "a'\"", "\\n", "\t", "\\'\""))
    st = L.CSS(quotes=[(a, b), (b, "x")] if x.bool("two") else [(a, b)])
    back = parse(L, str(st)).quotes
    x.check(len(back) == len(st.quotes), "as many levels")
    x.check(x.all(x.eq(back.opening(0), a), x.eq(back.closing(0), b)), "the same quotes")
    x.check(back == st.quotes, "equal")
