"""C02: minimum and maximum sizes (CSS 2.1, 10.4 and 10.7)."""

from . import model
from .common import Display, Node, layout, length, noise, registry

HARNESSES, harness = registry()

OUTSIDE = (
    "min/max-width of an auto width and max-height of an auto height, which the engine does not apply; "
    "percentage limits of heights in blocks of auto height; known finding KF4 is checked against its exact behaviour"
)


def clamp(x, size, lo, hi):
    if hi is not None:
        size = x.min(size, hi)
    if lo is not None:
        size = x.max(size, lo)
    return size


def limit(x, name, kinds, none, hi=4000, **more):
    kind = x.choice(name + ".kind", kinds + ("none",))
    if kind == "none":
        return None, lambda size: None
    return length(x, name, 0, hi, (kind,), **more)


def widths(x, L, kinds, at_root, extra=None, **more):
    vw = x.int("viewport", 1, 100000)
    st = {"display": x.choice("display", ("block", "list-item")), "direction": x.choice("direction", ("ltr", "rtl"))} if extra is None else dict({"display": "block"}, **extra)
    st["width"], w = length(x, "width", 0, 100000, kinds, **more)
    v, lo = limit(x, "min_width", kinds, "auto", **more)
    if v is not None:
        st["min_width"] = v
    v, hi = limit(x, "max_width", kinds, None, **more)
    if v is not None:
        st["max_width"] = v
    pad = x.int("padding_left", 1, 100000)
    border = x.int("border_right", 1, 100000)
    st["margin_left"] = x.int("margin_left", 1, 100000)
    node = Node(L, L.CSS(height=10, padding_left=pad, border_right_width=border, **st))
    if at_root:
        root = node
        cw = vw
    else:
        root = Node(L, L.CSS(display="block", padding_right=x.int("outer.padding", 1, 100000)), [node])
    layout(L, Display(vw, 600), root)
    if not at_root:
        cw = root.layout.content_width
    box = node.layout
    x.observe("box", [box.content_width, box.margin_left, box.margin_right])
    want = clamp(x, w(cw), lo(cw), hi(cw))
    x.check(box.content_width == want, "used width = max(min-width, min(max-width, width))")
    x.check(
        box.margin_left + box.border_box_width + box.margin_right == cw,
        "the limited box still fills its containing block",
    )
    x.check(x.all(box.padding_left == pad, box.border_right_width == border), "padding and border not limited")


@harness("a block in a padded root: width, min-width and max-width arbitrary integers 0..100000 or unset")
def width_px(x, L):
    widths(x, L, ("px",), False)


@harness("as width_px, sizes px or 25%/50%/100% of the containing block")
def width_pct(x, L):
    widths(x, L, ("px", "pct"), False, pcts=(25, 50) if x.tier == "quick" else (25, 50, 75, 100))


@harness("as width_px, sizes arbitrary multiples of 1/64 px")
def width_frac(x, L):
    widths(x, L, ("frac",), False)


@harness("the root element itself, sizes px or a percentage of the viewport")
def width_root(x, L):
    widths(x, L, ("px", "pct"), True)


def heights(x, L, kinds, hmin=0, **more):
    """Explicit height of a block below the root."""
    st = {}
    st["height"], h = length(x, "height", hmin, 100000, kinds, **more)
    v, lo = limit(x, "min_height", kinds, "auto", **more)
    if v is not None:
        st["min_height"] = v
    v, hi = limit(x, "max_height", kinds, None, **more)
    if v is not None:
        st["max_height"] = v
    return st, h, lo, hi


def place(x, L, st, nchildren, at_root, whole=True, deep=False):
    kids = [
        Node(L, L.CSS(display="block", height=x.int(f"kid{i}.height", 1, 100000))) for i in range(nchildren)
    ]
    if deep:
        # children whose height is that of their own
        kids = [Node(L, L.CSS(display="block"), [k]) for k in kids]
    node = Node(
        L,
        L.CSS(
            display=st.pop("display", "block"),
            padding_top=x.int("padding_top", 1, 100000),
            border_bottom_width=x.int("border_bottom", 1, 100000),
            **st,
        ),
        kids,
    )
    vh = x.int("viewport_height", 1, 100000) if whole else x.frac("viewport_fraction", 1, 100000, 16)
    if at_root:
        root = node
    else:
        after = Node(L, L.CSS(display="block", height=7))
        root = Node(L, L.CSS(display="block"), [node, after])
    layout(L, Display(1000, vh), root, L.constants.HTML4)
    box = node.layout
    x.observe("box", [box.content_height, box.padding_top, box.border_bottom_width])
    if not at_root:
        x.check(
            after.layout.border_box_top == box.border_box_bottom,
            "what follows starts at the end of the limited box",
        )
    return node, kids, vh


@harness("a block with a given height: height, min-height, max-height arbitrary integers 0..100000 or unset; 0..2 children of given or auto height")
def height_px(x, L):
    st, h, lo, hi = heights(x, L, ("px",))
    node, kids, vh = place(x, L, st, x.choice("children", (0, 1, 2)), False, deep=x.bool("deep"))
    x.check(
        node.layout.content_height == clamp(x, h(0), lo(0), hi(0)),
        "used height = max(min-height, min(max-height, height))",
    )


@harness("as height_px, multiples of 1/64 px")
def height_frac(x, L):
    st, h, lo, hi = heights(x, L, ("frac",))
    node, kids, vh = place(x, L, st, 1, False)
    x.check(
        node.layout.content_height == clamp(x, h(0), lo(0), hi(0)),
        "used height = max(min-height, min(max-height, height))",
    )


@harness("the root under the HTML4 rule: sizes px or 25%/50% of the viewport height, whole or a multiple of 1/16")
def height_root(x, L):
    st, h, lo, hi = heights(x, L, ("px", "pct"))
    node, kids, vh = place(x, L, st, 0, True, whole=x.bool("whole"))
    x.check(
        node.layout.content_height == clamp(x, h(vh), lo(vh), hi(vh)),
        "used height = max(min-height, min(max-height, height))",
    )


@harness("a block in a parent with any given height: min-height and max-height px, 25% or 50% of it, or unset (KF4: percentages are taken of 0)")
def height_nested(x, L):
    size = x.int("parent.height", 1, 4000)
    h = x.int("height", 1, 4000)
    lov, lo = limit(x, "min_height", ("px", "pct"), "auto")
    hiv, hi = limit(x, "max_height", ("px", "pct"), None)
    st = {k: v for k, v in (("min_height", lov), ("max_height", hiv)) if v is not None}
    node = Node(L, L.CSS(display="block", height=h, **st))
    after = Node(L, L.CSS(display="block", height=7))
    parent = Node(L, L.CSS(display="block", height=size, padding_top=x.int("padding", 1, 1000)), [node, after])
    layout(L, Display(1000, x.int("viewport_height", 1, 4000)), Node(L, L.CSS(display="block"), [parent]))
    got = node.layout.content_height
    x.observe("box", [got, parent.layout.content_height])
    x.check(parent.layout.content_height == size, "the parent has its given height")
    x.check(
        got == clamp(x, h, lo(size), hi(size)),
        "used height = max(min-height, min(max-height, height)), percentages of the parent's height",
        known="KF4",
        alt=got == clamp(x, h, lo(0), hi(0)),
    )
    x.check(after.layout.border_box_top == node.layout.border_box_bottom, "what follows starts at the end of the limited box")


@harness("a block with auto height and 0..3 children; min-height an arbitrary integer or unset")
def height_auto(x, L):
    v, lo = limit(x, "min_height", ("px", "frac"), "auto")
    st = {} if v is None else {"min_height": v}
    node, kids, vh = place(x, L, st, x.choice("children", (0, 1, 2, 3)), False, deep=x.bool("deep"))
    content = sum([k.layout.content_height for k in kids]) if kids else 0
    x.check(
        node.layout.content_height == clamp(x, content, lo(0), None),
        "auto height: the content's height, but at least min-height",
    )


@harness("widths and heights with px limits and one more declaration that has no influence (60 of them)")
def unrelated(x, L):
    if x.bool("of the width"):
        # a relatively positioned block is as wide as any
        widths(x, L, ("px",), x.bool("root"), extra=noise(x))
        return
    extra = noise(x, without=("top", "bottom"))
    st = {"height": x.int("height", 1, 100000), "min_height": x.int("min_height", 1, 100000), "max_height": x.int("max_height", 1, 100000)}
    h, lo, hi = st["height"], st["min_height"], st["max_height"]
    if extra.get("position"):
        node = Node(L, L.CSS(display="block", **st, **extra))
        layout(L, Display(1000, 500), Node(L, L.CSS(display="block"), [node]))
    else:
        node, kids, vh = place(x, L, dict(st, **extra), 1, False)
    x.check(node.layout.content_height == clamp(x, h, lo, hi), "used height = max(min-height, min(max-height, height))")


@harness(
    "root > [s, p > [c > [e], d], z]: each kind of limit on p (thorough: or c, or the root), together with any of 53 features "
    "(margins, paddings, borders, sizes, limits, directions, positions, hidden elements) on it, its parent, child or sibling: all sizes"
)
def pairs(x, L):
    focus = [f for f in model.F if "min" in f or "max" in f]
    model.pairs(x, L, focus, ("p",) if x.tier == "quick" else ("p", "c", "root"), parts=("content_width", "content_height"))


@harness(
    "root > [s, p > [c > [e], d], z]: minimum and maximum width or height with given margins, paddings and borders (18 combinations) on p (thorough: or c, or the root), all of them arbitrary, together with any of 53 features on it or its parent: "
    "all sizes"
)
def sets(x, L):
    others = ("p", "root") if x.tier == "quick" else ("p", "root", "c", "s")
    model.pairs(x, L, model.ALL_LIMITS, ("p",) if x.tier == "quick" else ("p", "c", "root"), others, parts=("content_width", "content_height"))
