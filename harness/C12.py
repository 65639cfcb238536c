"""C12: lengths in any unit convert to pixels, correct to 1/64 px, on any display."""

from .common import Display, Node, layout, registry

HARNESSES, harness = registry()

OUTSIDE = (
    "values beyond the stated ranges; display resolutions other than the listed ones (any integer 24..600 for the listed "
    "values); font units inside a layout, whose default font is a placeholder"
)

# points per unit
ABSOLUTE = {"pt": 1, "pc": 12, "inch": 72, "cm": 28.3465, "mm": 2.83465}
TOL = 65  # in 1/8192 px: half of 1/64 px, and float rounding


class Font:
    def __init__(self, em, ex, ch):
        self.em, self.ex, self.ch = em, ex, ch


def close(x, got, num, den):
    """|got - num/den| <= TOL/8192, for den > 0."""
    d = den * got - num
    return x.all(8192 * d <= TOL * den, 8192 * d >= -TOL * den)


def kind(x, got):
    """A whole number of pixels is an int, anything else a float."""
    if isinstance(got, bool):
        return False
    return isinstance(got, int) or (isinstance(got, float) and got != x.val(int(got)) and x.no(got == int(got)))


def lattice(x, got):
    return 64 * got == int(64 * got)


def value(x, kinds=("int", "frac")):
    k = x.choice("kind", kinds)
    if k == "int":
        return x.int("v", -2000, 2000)
    return x.frac("f", -400, 400, 16)


def judge(x, got, num, den, opposite):
    x.observe("px", got)
    x.check(close(x, got, num, den), "the exact value, to half a layout unit")
    x.check(lattice(x, got), "a multiple of 1/64 px")
    x.check(kind(x, got), "an int exactly when it is a whole number of pixels")
    x.check(opposite == -got, "the opposite length is the opposite number of pixels")


@harness("px: any integer -2000..2000 or multiple of 1/16 -400..400 as unit product or plain number; any such integer as text")
def pixels(x, L):
    form = x.choice("form", ("unit", "text", "number"))
    v = value(x, ("int",) if form == "text" else ("int", "frac"))
    u = {"unit": lambda: v * L.units.px, "text": lambda: L.parser.units(f"{v}px"), "number": lambda: L.parser.units(v)}[form]()
    judge(x, u.px(), v, 1, (-u).px())
    x.check(u.px() == v, "pixels are kept")


@harness("pt, pc, in, cm, mm: any integer -2000..2000 or multiple of 1/16, on displays of 72, 96, 150, 300 dpi")
def absolute(x, L):
    name = x.choice("unit", tuple(ABSOLUTE))
    dpi = x.choice("dpi", (72, 96, 150, 300))
    v = value(x)
    u = v * getattr(L.units, name)
    d = Display(800, 600, dpi=dpi)
    judge(x, u.px(display=d), v * ABSOLUTE[name] * dpi, 72, (-u).px(display=d))


@harness("pt, pc, in, cm, mm: values 1, 2.5, 7, -3 on a display of any integer resolution 24..600 dpi")
def any_dpi(x, L):
    name = x.choice("unit", tuple(ABSOLUTE))
    v = x.choice("v", (1, 2.5, 7, -3))
    d = Display(800, 600, dpi=x.int("dpi", 24, 600))
    u = v * getattr(L.units, name)
    judge(x, u.px(display=d), v * ABSOLUTE[name] * d.dpi, 72, (-u).px(display=d))


@harness("em, ex, ch: any value, with font metrics 9, 12 and 7.5 points; or any metrics 1..100 with listed values; 72..300 dpi")
def font(x, L):
    name = x.choice("unit", ("em", "ex", "ch"))
    dpi = x.choice("dpi", (72, 96, 300))
    if x.bool("any metrics"):
        f = Font(x.int("em", 1, 100), x.int("ex", 1, 100), x.int("ch", 1, 100))
        v = x.choice("v", (1, 2, 0.5, -1.25))
    else:
        f = Font(12, 7.5, 9)
        v = value(x)
    u = v * getattr(L.units, name)
    d = Display(800, 600, dpi=dpi)
    judge(x, u.px(display=d, font=f), v * getattr(f, name) * dpi, 72, (-u).px(display=d, font=f))


@harness(
    "vw, vh, vmin, vmax: values 1, 10, 33, 100, 12.5, -50 on a viewport of any size 1..4000 x 1..4000, whole or halves; any integer value on "
    "a 640x480, 480x640 and 500x500 viewport"
)
def viewport(x, L):
    name = x.choice("unit", ("vw", "vh", "vmin", "vmax"))
    if x.bool("any size"):
        if x.bool("whole"):
            w, h = x.int("w", 1, 4000), x.int("h", 1, 4000)
        else:
            w, h = x.frac("fw", 1, 4000, 2), x.frac("fh", 1, 4000, 2)
        v = x.choice("v", (1, 10, 33, 100, 12.5, -50))
    else:
        w, h = x.choice("size", ((640, 480), (480, 640), (500, 500)))
        v = x.int("v", -200, 200)
    d = Display(w, h)
    u = v * getattr(L.units, name)
    ref = {"vw": lambda: w, "vh": lambda: h, "vmin": lambda: x.min(w, h), "vmax": lambda: x.max(w, h)}[name]()
    judge(x, u.px(display=d), v * ref, 100, (-u).px(display=d))


@harness("percent: p any integer of sizes 100, 333, 1024; listed percentages of any integer or fractional size 0..4000")
def percent(x, L):
    if x.bool("any size"):
        size = x.int("size", 0, 4000) if x.bool("whole") else x.frac("fsize", 0, 1000, 64)
        p = x.choice("p", (1, 10, 25, 33, 50, 100, 12.5, -50))
    else:
        size = x.choice("size", (100, 333, 1024))
        p = x.int("p", -200, 200)
    u = p * L.units.percent
    judge(x, u.px(size=size), p * size, 100, (-u).px(size=size))


ALL = ("px", "pt", "pc", "inch", "cm", "mm", "em", "ex", "ch", "vw", "vh", "vmin", "vmax", "percent")


@harness(
    "the same length in two contexts in turn, and back, the second differing in all of display size, resolution, font and "
    "percentage base or in just one of them: each conversion sees only its own context"
)
def no_memory(x, L):
    name = x.choice("unit", ALL)
    v = x.choice("v", (3, 1.5))
    u = v * getattr(L.units, name)
    differs = x.choice("differs", ("all", "width", "height", "dpi", "font", "size"))
    n = x.int("n", 1, 3000)

    def other(part, mine, theirs):
        return theirs if differs in ("all", part) else mine

    # font metrics and resolutions are listed ones, so that the products stay linear
    first_ctx = (300, 500, 96, Font(10, 6, 5), 256)
    second_ctx = (
        other("width", 300, n),
        other("height", 500, n if differs == "height" else 1000),
        other("dpi", 96, 72 if differs == "all" else n),
        Font(20, 12, 10) if differs == "all" else Font(n, n, n) if differs == "font" else Font(10, 6, 5),
        other("size", 256, n),
    )

    def convert(ctx):
        w, h, dpi, f, size = ctx
        return u.px(display=Display(w, h, dpi=dpi), font=f, size=size)

    def judge(got, ctx):
        w, h, dpi, f, size = ctx
        if name == "px":
            num, den = v, 1
        elif name in ABSOLUTE:
            num, den = v * ABSOLUTE[name] * dpi, 72
        elif name in ("em", "ex", "ch"):
            num, den = v * getattr(f, name) * dpi, 72
        else:
            ref = {"vw": lambda: w, "vh": lambda: h, "vmin": lambda: x.min(w, h), "vmax": lambda: x.max(w, h)}
            num, den = v * (size if name == "percent" else ref[name]()), 100
        return close(x, got, num, den)

    first = convert(first_ctx)
    second = convert(second_ctx)
    x.observe("px", [first, second])
    x.check(judge(first, first_ctx), "the first context's value")
    x.check(judge(second, second_ctx), "the second context's value")
    x.check(convert(first_ctx) == first, "the first context again gives the first result")
    x.check(convert(second_ctx) == second, "the second context again gives the second result")


@harness("one display that is resized, or whose resolution changes, between two conversions: each sees the display as it is then")
def resized(x, L):
    name = x.choice("unit", ALL)
    u = 3 * getattr(L.units, name)
    d = Display(300, 500, dpi=96)
    f, size = Font(10, 6, 5), 256
    n = x.int("n", 1, 3000)
    u.px(display=d, font=f, size=size)
    what = x.choice("what", ("width", "height", "dpi", "font"))
    if what == "width":
        d.content_width = n
    elif what == "height":
        d.content_height = n
    elif what == "dpi":
        d.dpi = n
    else:
        f.em = f.ex = f.ch = n
    other = Display(n if what == "width" else 300, n if what == "height" else 500, dpi=n if what == "dpi" else 96)
    font = Font(n, n, n) if what == "font" else Font(10, 6, 5)
    got = (3 * getattr(L.units, name)).px(display=d, font=f, size=size)
    x.observe("px", got)
    x.check(got == u.px(display=other, font=font, size=size), "as on a display that always was like this")
    x.check(u.px(display=d, font=f, size=size) == got, "and again")


@harness("integers up to 10**12 and their negatives: product, sign and equality are exact")
def large(x, L):
    name = x.choice("unit", ALL)
    a = x.int("a", -(10**12), 10**12)
    u = a * getattr(L.units, name)
    x.check(x.all(u.val == a, (-u).val == -a, (3 * u).val == 3 * a), "the numbers multiply and change sign")
    x.check(x.no(u == (a + 1) * getattr(L.units, name)), "the next one is another")
    if name == "px":
        x.check(u.px() == a, "pixels are kept")


@harness("multiplying and negating a length: any integers a, b (or halves); the original is unchanged; equality by value and unit")
def arithmetic(x, L):
    name = x.choice("unit", ALL)
    unit = getattr(L.units, name)
    whole = x.bool("whole")
    a = x.int("a", -500, 500) if whole else x.frac("fa", -50, 50, 2)
    b = x.int("b", 1, 20) if whole and name in ("px", "pt", "vw") else x.choice("c", (3, -2))
    u = a * unit
    v = b * u
    n = -u
    x.observe("text", [str(u), str(v), str(n)])
    x.check(x.all(u.val == a, v.val == a * b, n.val == -a), "the numbers multiply")
    x.check(x.all(unit.val == 1, u.suffix == unit.suffix, v.suffix == unit.suffix, n.suffix == unit.suffix), "the unit stays")
    x.check(x.all(u == a * unit, v == (a * b) * unit, -n == u), "equal numbers of one unit are equal")
    x.check(x.implies(a != 0, x.no(u == n)), "different numbers of one unit differ")
    for other in ("mm", "vh", "percent", "ch"):
        if other != name:
            x.check(x.no(u == a * getattr(L.units, other)), "different units differ")
    kw = dict(display=Display(640, 480), font=Font(12, 6, 6), size=800)
    x.check((2 * u).px(**kw) == (u.px(**kw) * 2) if name == "px" else True, "twice the pixels")


@harness("factors that are multiples of 2**-24 in -1..1: the product is exact, once or twice")
def fine(x, L):
    name = x.choice("unit", ALL)
    a = x.frac("a", -1, 1, 2**24)
    u = a * getattr(L.units, name)
    b = x.choice("b", (3, -2, 0.5))
    v = b * u
    x.check(u.val == a, "the number is kept")
    x.check(v.val == b * a, "the numbers multiply")
    x.check((-v).val == -b * a, "and change sign")
    c = x.frac("c", -1, 1, 2**24)
    w = c * getattr(L.units, name)
    x.check((u == w) == (a == c), "equal exactly if the numbers are, however close")
    x.check((u != w) == (a != c), "and unequal otherwise")


@harness("a block's width, margin, padding or border given in pt, pc, in, mm or vw/vh, in a layout on 96 and 300 dpi displays")
def in_layout(x, L):
    name = x.choice("unit", ("pt", "pc", "inch", "mm", "vw", "vh", "vmin", "vmax"))
    prop = x.choice("property", ("width", "margin_left", "padding_right", "padding_top", "border_left_width", "height"))
    dpi = x.choice("dpi", (96, 300))
    v = x.int("v", 0, 60) if name not in ("vw", "vh", "vmin", "vmax") else x.choice("pv", (5, 10, 50))
    w, h = (1000, 700) if name in ABSOLUTE else (x.int("w", 1, 3000), x.int("h", 1, 3000))
    d = Display(w, h, dpi=dpi)
    text = x.bool("text")
    suffix = getattr(L.units, name).suffix
    val = f"{v}{suffix}" if text else v * getattr(L.units, name)
    node = Node(L, L.CSS(display="block", **{prop: val}))
    root = Node(L, L.CSS(display="block"), [node])
    layout(L, d, root, L.constants.HTML4)
    got = getattr(node.layout, {"width": "content_width", "height": "content_height"}.get(prop, prop))
    x.observe("used", got)
    if name in ABSOLUTE:
        x.check(close(x, got, v * ABSOLUTE[name] * dpi, 72), "the physical length on this display")
    else:
        ref = {"vw": lambda: w, "vh": lambda: h, "vmin": lambda: x.min(w, h), "vmax": lambda: x.max(w, h)}[name]()
        x.check(close(x, got, v * ref, 100), "the part of the viewport")


@harness("angles: any integer number of deg, grad, turn; rad to float precision")
def angles(x, L):
    name = x.choice("unit", ("deg", "grad", "turn", "rad"))
    v = x.int("v", -720, 720)
    got = (v * getattr(L.units, name)).deg()
    x.observe("deg", got)
    per = {"deg": 1, "grad": 0.9, "turn": 360, "rad": 57.29577951308232}[name]
    d = got - v * per
    x.check(x.all(1000000 * d <= 1, 1000000 * d >= -1), "degrees")
