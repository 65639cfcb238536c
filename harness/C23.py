"""C23: a value read from a style is canonical: it can be assigned again, there or to another style, and means the same."""

from .C16 import TABLE
from .C20 import sample
from .common import Display, Node, layout, registry

HARNESSES, harness = registry()

OUTSIDE = "values nobody set that follow another property (border colors, text-align)"


def fields(v):
    """What can be told of a value."""
    if hasattr(v, "suffix"):
        return ["unit", v.suffix, v.val]
    if hasattr(v, "r"):
        return ["rgb", v.r, v.g, v.b, v.a]
    if hasattr(v, "horizontal"):
        return ["spacing", fields(v.horizontal), fields(v.vertical)]
    if hasattr(v, "top"):
        return ["rect", fields(v.top), fields(v.right), fields(v.left), fields(v.bottom)]
    if hasattr(v, "opening"):
        return ["quotes"] + [[v.opening(i), v.closing(i)] for i in range(len(v))]
    if hasattr(v, "url"):
        return ["url", v.url]
    if isinstance(v, list):
        return ["list"] + [fields(k) for k in v]
    return v


@harness("each property with any of its values: assigned again (attribute, item, update) nothing changes, not even text; in another style it reads the same")
def again(x, L):
    p = x.choice("property", tuple(TABLE))
    node = Node(L, L.CSS(display="block"))
    st = node.style
    setattr(st, p, sample(x, L, p, 0))
    v = getattr(st, p)
    x.observe("value", fields(v))
    before, text, was = sorted(st.keys()), str(st), fields(v)
    node.layout.dirty = False
    way = x.choice("way", ("attribute", "item", "update"))
    try:
        if way == "attribute":
            setattr(st, p, v)
        elif way == "item":
            st[p] = v
        elif v is not None:
            st.update(**{p: v})
        ok = True
    except ValueError:
        ok = False
    x.check(ok, "accepted")
    if not ok:
        return
    x.check(x.eq(fields(getattr(st, p)), was), "reads the same")
    x.check(sorted(st.keys()) == before, "the same properties are set")
    x.check(x.eq(str(st), text), "renders the same")
    if not isinstance(v, list):
        x.check(node.layout.dirty is False, "no new layout is needed")
    other = L.CSS()
    setattr(other, p, v)
    x.check(x.eq(fields(getattr(other, p)), was), "reads the same in another style")


@harness("the initial value of each property (but those that follow another): can be assigned and reads the same; afterwards as well")
def initial(x, L):
    p = x.choice("property", tuple(q for q in TABLE if not (q.startswith("border_") and q.endswith("_color")) and q != "text_align"))
    st = L.CSS()
    v = getattr(st, p)
    setattr(st, p, v)
    x.check(x.eq(fields(getattr(st, p)), fields(v)) if v is not L.constants.default else st[p] is v, "reads the same")
    words = TABLE[p][0]
    if words:
        setattr(st, p, words[0])
        setattr(st, p, v)
        x.check(x.eq(fields(getattr(st, p)), fields(v)) if v is not L.constants.default else st[p] is v, "reads the same after another")


SAME = {
    "length": ("width", "margin_top", "padding_left", "border_top_width", "text_indent", "letter_spacing", "outline_width", "top", "min_height", "max_width"),
    "color": ("color", "background_color", "border_top_color", "border_left_color", "outline_color"),
}


@harness("a length or color read from one property and assigned to any other that takes lengths or colors: the same there")
def elsewhere(x, L):
    kind = x.choice("kind", tuple(SAME))
    a, b = x.choice("from", SAME[kind]), x.choice("to", SAME[kind])
    st = L.CSS()
    if kind == "length":
        n = x.int("n", -500, 500)
        setattr(st, a, n * getattr(L.units, x.choice("unit", ("px", "em", "pt", "vmin", "percent"))))
    else:
        setattr(st, a, L.colors.rgb(x.int("r", 0, 255), 2, 3) if x.bool("rgb") else L.colors.hsl(x.int("h", 0, 360), 0.5, 0.5))
    v = getattr(st, a)
    setattr(st, b, v)
    x.check(getattr(st, a) is v, "the first keeps it")
    got = getattr(st, b)
    x.check(got is v or x.eq(fields(got), fields(v)), "the second has it")


@harness("lengths (integers, multiples of 1/64, floats with many digits) assigned as number, text or unit value are the same: equal values, equal text, equal layout")
def forms(x, L):
    p = x.choice("property", ("width", "margin_left", "padding_top", "border_left_width", "height"))
    num = x.choice("num", ("int", "frac", "float"))
    n = {
        "int": lambda: x.int("n", 100, 900),
        "frac": lambda: x.frac("n", 10, 90, 64),
        "float": lambda: x.choice("n", (0.1, 1 / 3, 123.456789, 1e-05, 7.00048828125, 99.99999)),
    }[num]()
    a, b = x.choice("a", ("number", "text", "unit", "bare text")), x.choice("b", ("number", "text", "unit", "bare text"))
    make = {"number": lambda: n, "text": lambda: f"{n}px", "unit": lambda: n * L.units.px, "bare text": lambda: f"{n}"}
    one, two = (Node(L, L.CSS(display="block", **{p: make[f]()})) for f in (a, b))
    x.check(getattr(one.style, p) == getattr(two.style, p), "equal values")
    x.check(x.eq(str(one.style), str(two.style)), "equal text")
    d = Display(x.int("vw", 1000, 3000), 500)
    for node in (one, two):
        layout(L, d, Node(L, L.CSS(display="block"), [node]))
    for f in ("content_left", "content_top", "content_width", "content_height", "margin_right", "padding_top", "border_left_width"):
        x.check(getattr(one.layout, f) == getattr(two.layout, f), "equal layout")


UNITS = ("px", "em", "ex", "ch", "pt", "pc", "in", "cm", "mm", "vh", "vw", "vmin", "vmax", "%")


@harness("a length of any unit (0, integers, fractions, negative ones) assigned as text or as unit value, read, and assigned again anywhere: the same length")
def read_back(x, L):
    p, q = x.choice("from", ("width", "margin_top", "text_indent", "top")), x.choice("to", ("width", "margin_left", "text_indent", "left"))
    u = x.choice("unit", UNITS)
    n = {
        "zero": lambda: 0,
        "fraction": lambda: x.choice("f", (0.1, -0.25, 2.5, 0.015625, 33.3333333)),
        "integer": lambda: x.int("n", 10, 99),
        "negative": lambda: x.int("n", -99, -10),
    }[x.choice("number", ("zero", "fraction", "integer", "negative"))]()
    if p in ("width",) or q in ("width",):
        x.assume(n >= 0)
    unit = getattr(L.units, {"in": "inch", "%": "percent"}.get(u, u))
    st = L.CSS()
    setattr(st, p, f"{n}{u}" if x.choice("form", ("text", "unit")) == "text" else n * unit)
    v = getattr(st, p)
    x.check(x.eq(fields(v), ["unit", u, n]), "it is what was given")
    other = L.CSS()
    setattr(other, q, v)
    x.check(x.eq(fields(getattr(other, q)), ["unit", u, n]), "the same in another style")
    setattr(st, p, v)
    x.check(x.eq(fields(getattr(st, p)), ["unit", u, n]), "the same when assigned again")
