"""C11: percentages are resolved against the containing block (CSS 2.1, 8.3, 8.4, 10.2, 10.5)."""

from . import model
from .common import Display, Node, layout, noise, registry

HARNESSES, harness = registry()

OUTSIDE = (
    "percentage heights of elements whose parent's height is auto; known finding KF6 is checked against its exact behaviour; percentages "
    "with more than the listed fractional digits; percentages of border widths, which CSS does not define"
)

PROPS = (
    "margin_top",
    "margin_right",
    "margin_bottom",
    "margin_left",
    "padding_top",
    "padding_right",
    "padding_bottom",
    "padding_left",
)
TOL = 65  # allowed error in 1/8192 px: half a layout unit (1/128 px) and float rounding


def close(x, used, p, size):
    """|used - p * size / 100| <= 65/8192 px."""
    d = 100 * used - p * size
    return x.all(8192 * d <= TOL * 100, 8192 * d >= -TOL * 100)


def wrap(L, node, where):
    if where == "root":
        return node
    if where == "child":
        return Node(L, L.CSS(display="block", padding_left=7, border_right_width=3, height=77), [node])
    mid = Node(L, L.CSS(display="block", margin_left=11, padding_right=5, height=60), [node])
    return Node(L, L.CSS(display="block", padding_left=2), [Node(L, L.CSS(display="block", height=9)), mid])


INSET = {"root": 0, "child": 10, "nested": 18}


def used(x, L, prop, size, where, value, vw, vh, **more):
    """Lay out a block with one percentage; return its used value."""
    node = Node(L, L.CSS(display="block", height=10, **dict(more, **{prop: value})))
    layout(L, Display(vw, vh), wrap(L, node, where), L.constants.HTML4)
    if prop == "width":
        return node.layout.content_width
    return getattr(node.layout, prop)


def assign(x, L, p, form):
    return p * L.units.percent if form == "unit" else f"{p}%"


@harness(
    "one margin or padding of a block (root, child, grandchild) is p%, p any integer 0..200, in a block 800 or 777 px wide (thorough: also 1, 64, 1023); "
    "assigned as a string or a unit value"
)
def any_percent(x, L):
    prop = x.choice("property", PROPS)
    where = x.choice("where", ("root", "child", "nested"))
    p = x.int("p", 0, 200)
    size = x.choice("size", (800, 777) if x.tier == "quick" else (800, 777, 1, 1023, 64))
    v = used(x, L, prop, None, where, assign(x, L, p, x.choice("form", ("unit", "text"))), size + INSET[where], 640)
    x.observe("used", v)
    x.check(close(x, v, p, size), "percentage of the containing block's width")


@harness("width p%, p any integer 0..200 or multiple of 1/8, of 800 px, at three depths")
def any_width(x, L):
    where = x.choice("where", ("root", "child", "nested"))
    p = x.int("p", 0, 200) if x.bool("whole") else x.frac("q", 0, 200, 8)
    v = used(x, L, "width", None, where, p * L.units.percent, 800 + INSET[where], 640)
    x.observe("used", v)
    x.check(close(x, v, p, 800), "percentage of the containing block's width")


@harness("the same properties at 1, 5, 12.5, 33, 50, 99 and 150% of an arbitrary viewport width 100..4000, height 1..4000")
def any_viewport(x, L):
    prop = x.choice("property", PROPS + ("width",))
    where = x.choice("where", ("root", "child", "nested"))
    p = x.choice("p", (1, 5, 12.5, 33, 50, 99, 150))
    vw, vh = x.int("vw", 100, 4000), x.int("vh", 1, 4000)
    v = used(x, L, prop, None, where, f"{p}%", vw, vh)
    x.observe("used", v)
    x.check(close(x, v, p, vw - INSET[where]), "percentage of the containing block's width")


@harness("margins, paddings and widths as 5, 12.5, 33 or 50% of a block whose own width is any multiple of 1/64 px, 1..500")
def fractional(x, L):
    prop = x.choice("property", PROPS + ("width",))
    p = x.choice("p", (5, 12.5, 33, 50))
    w = x.frac("w", 1, 500, 64)
    inline = prop != "width" and x.bool("inline")
    node = Node(L, L.CSS(display="inline" if inline else "block", **{prop: f"{p}%"}), width=7 if inline else None, height=8 if inline else None)
    outer = Node(L, L.CSS(display="block", width=w, padding=6), [node])
    layout(L, Display(x.int("vw", 600, 4000), 480), Node(L, L.CSS(display="block"), [outer]), L.constants.HTML4)
    v = node.layout.content_width if prop == "width" else getattr(node.layout, prop)
    if prop == "margin_right" and not inline:
        x.check(node.layout.content_width + v == w, "an auto width fills the rest")
    x.observe("used", v)
    x.check(close(x, v, p, w), "percentage of the containing block's width")


@harness("margins, paddings and widths as 25, 50 or 150% of a block whose paddings are wider than it is given (a negative width), or of no width at all")
def overfull(x, L):
    prop = x.choice("property", PROPS)
    p = x.choice("p", (25, 50, 150))
    vw, pad = x.int("vw", 1, 500), x.int("pad", 500, 900)
    node = Node(L, L.CSS(display="block", height=3, **{prop: f"{p}%"}))
    outer = Node(L, L.CSS(display="block", **(dict(width=0) if x.bool("no width") else dict(padding_left=pad))), [node])
    layout(L, Display(vw, 480), Node(L, L.CSS(display="block"), [outer]), L.constants.HTML4)
    v = getattr(node.layout, prop)
    x.observe("used", v)
    x.check(close(x, v, p, outer.layout.content_width), "percentage of the containing block's width")


@harness("percentages of percentages: outer width p% (25, 50, 75) of any viewport, inner width, margin or padding q%")
def nested(x, L):
    vw = x.int("vw", 100, 4000)
    p, q = x.choice("p", (25, 50, 75)), x.choice("q", (25, 50, 100))
    prop = x.choice("property", PROPS + ("width",))
    extra = {"margin_left": 3} if prop != "margin_left" else {}
    node = Node(L, L.CSS(display="block", height=4, **dict(extra, **{prop: f"{q}%"})))
    outer = Node(
        L, L.CSS(display="block", width=f"{p}%", padding=x.int("padding", 1, 50), margin_left=x.int("margin", 1, 50)), [node]
    )
    layout(L, Display(vw, 480), Node(L, L.CSS(display="block"), [outer]), L.constants.HTML4)
    w = outer.layout.content_width
    x.check(close(x, w, p, vw), "the outer width is a percentage of the viewport")
    v = node.layout.content_width if prop == "width" else getattr(node.layout, prop)
    x.observe("used", [w, v])
    x.check(close(x, v, q, w), "the inner value is a percentage of the outer content width, without its padding")


@harness("root height p% of an arbitrary viewport height; child height q% of a parent with any pixel height, whole or a multiple of 1/64")
def height(x, L):
    vh = x.int("vh", 1, 4000)
    p, q = x.choice("p", (5, 12.5, 33, 50, 100, 150)), x.choice("q", (10, 25, 50, 100, 120))
    if x.bool("root"):
        root = Node(L, L.CSS(display="block", height=f"{p}%"))
        layout(L, Display(700, vh), root, L.constants.HTML4)
        x.observe("used", root.layout.content_height)
        x.check(close(x, root.layout.content_height, p, vh), "root: percentage of the viewport's height")
    else:
        h = x.int("h", 0, 4000) if x.bool("whole") else x.frac("hf", 0, 500, 64)
        node = Node(L, L.CSS(display="block", height=f"{q}%", padding_top=x.int("pt", 1, 90)))
        outer = Node(L, L.CSS(display="block", height=h, padding=6), [node])
        root = Node(L, L.CSS(display="block"), [outer])
        layout(L, Display(700, vh), root, L.constants.HTML4)
        x.observe("used", node.layout.content_height)
        x.check(outer.layout.content_height == h, "the parent has its given height")
        x.check(close(x, node.layout.content_height, q, h), "percentage of the parent's given height")


@harness("heights as percentages of percentages: root p% of any viewport or middle block p% of any given height, inner block q% (KF6: of 0)")
def height_chain(x, L):
    size = x.int("h", 1, 4000)
    p, q = x.choice("p", (25, 50, 100)), x.choice("q", (25, 50, 100))
    node = Node(L, L.CSS(display="block", height=f"{q}%"))
    outer = Node(L, L.CSS(display="block", height=f"{p}%", padding_top=x.int("pt", 1, 90)), [node])
    if x.bool("root"):
        layout(L, Display(700, size), outer, L.constants.HTML4)
    else:
        given = Node(L, L.CSS(display="block", height=size), [outer])
        layout(L, Display(700, 333), Node(L, L.CSS(display="block"), [given]))
    x.observe("used", [outer.layout.content_height, node.layout.content_height])
    x.check(close(x, outer.layout.content_height, p, size), "the outer height is a percentage of the given one")
    x.check(
        close(x, node.layout.content_height, q, outer.layout.content_height),
        "the inner height is a percentage of the outer one",
        known="KF6",
        alt=node.layout.content_height == 0,
    )


@harness("child height p%, p any integer 0..150, of a parent 400 px high; root height p% of a 640 px viewport")
def height_percent(x, L):
    p = x.int("p", 0, 150)
    node = Node(L, L.CSS(display="block", height=p * L.units.percent))
    if x.bool("root"):
        layout(L, Display(700, 640), node, L.constants.HTML4)
        size = 640
    else:
        outer = Node(L, L.CSS(display="block", height=400), [node])
        layout(L, Display(700, 640), outer, L.constants.HTML4)
        size = 400
    x.observe("used", node.layout.content_height)
    x.check(close(x, node.layout.content_height, p, size), "percentage of the containing height")


@harness("margins of inline elements as p% (25, 50, 75) of the containing block's width, itself px, percentage or auto")
def inline(x, L):
    vw = x.int("vw", 100, 4000)
    prop, p = x.choice("property", PROPS), x.choice("p", (25, 50, 75))
    rep = x.bool("replaced")
    node = Node(L, L.CSS(display="inline", **{prop: f"{p}%"}), replaced=rep, width=x.int("w", 1, 90), height=8)
    w = x.choice("width", ("px", "pct", "auto"))
    st = {"px": dict(width=x.int("bw", 50, 900)), "pct": dict(width="50%"), "auto": {}}[w]
    blk = Node(L, L.CSS(display="block", padding_left=4, **st), [node])
    layout(L, Display(vw, 480), Node(L, L.CSS(display="block"), [blk]), L.constants.HTML4)
    cw = blk.layout.content_width
    x.observe("used", [cw, getattr(node.layout, prop)])
    x.check(close(x, getattr(node.layout, prop), p, cw), "percentage of the containing block's width")


@harness(
    "25% or 150% of any containing width (height), for margins, paddings, width and height, both blocks with one more declaration that has no "
    "influence (60 of them: position relative, list items, ...)"
)
def unrelated(x, L):
    extra = noise(x, without=("top", "right", "bottom", "left"))
    prop = x.choice("property", ("margin_top", "margin_left", "padding_right", "padding_bottom", "width", "height"))
    p = x.choice("p", (25, 150))
    w, h = x.int("w", 1, 4000), x.int("h", 1, 4000)
    st = {"display": "block", "height": 10, prop: f"{p}%"}
    node = Node(L, L.CSS(**dict(st, **extra)))
    outer = Node(L, L.CSS(**dict(dict(display="block", width=w, height=h, padding_left=5), **extra)), [node])
    layout(L, Display(700, 500), Node(L, L.CSS(display="block"), [outer]))
    v = getattr(node.layout, {"width": "content_width", "height": "content_height"}.get(prop, prop))
    if prop == "margin_left" and extra.get("direction") == "rtl":
        return
    x.observe("used", v)
    x.check(close(x, v, p, h if prop == "height" else w), "percentage of the containing block's width (height)")


@harness(
    "root > [s, p > [c > [e], d], z]: each percentage on p (thorough: or c, or the root), together with any of 53 features "
    "(margins, paddings, borders, sizes, limits, directions, positions, hidden elements) on it, its parent, child or sibling: every part of every box"
)
def pairs(x, L):
    focus = [f for f in model.F if "%" in f]
    model.pairs(x, L, focus, ("p",) if x.tier == "quick" else ("p", "c", "root"), parts=model.ACROSS + model.DOWN)
