"""C01: horizontal geometry of a block in normal flow (CSS 2.1, 10.3.3)."""

from . import model
from .common import Display, Node, layout, length, noise, registry

HARNESSES, harness = registry()

OUTSIDE = (
    "min-width/max-width (C02), relative offsets (C08), display:none (C07); floats, absolute positions, "
    "inline-block and block replaced elements, which the engine rejects; percentages other than the listed ones"
)


def judge(x, node, cw, direction, ml, w, mr, pl, pr, bl, br):
    """The seven widths of node's box against its containing block's width cw."""
    box = node.layout
    x.observe("box", [box.margin_left, box.content_width, box.margin_right, box.content_left])
    x.check(
        x.all(
            box.padding_left == pl,
            box.padding_right == pr,
            box.border_left_width == bl,
            box.border_right_width == br,
        ),
        "paddings and borders are used as specified",
    )
    x.check(
        box.content_left == box.margin_left + bl + pl,
        "content edge = margin + border + padding",
    )
    total = box.margin_left + bl + pl + box.content_width + pr + br + box.margin_right
    inner = bl + pl + pr + br
    lm = 0 if ml is None else ml
    rm = 0 if mr is None else mr
    if w is None:
        x.check(x.eq(box.margin_left, lm), "auto width: left margin as given, auto is 0")
        x.check(x.eq(box.margin_right, rm), "auto width: right margin as given, auto is 0")
        x.check(total == cw, "auto width: the box fills the containing block")
        x.cover("auto-width")
        return
    x.check(box.content_width == w, "a given width is used")
    if inner + w + lm + rm > cw:
        # too wide: auto margins are zero, then over-constrained
        if direction == "ltr":
            x.check(x.eq(box.margin_left, lm), "overflow: left margin kept (ltr)")
        else:
            x.check(x.eq(box.margin_right, rm), "overflow: right margin kept (rtl)")
        x.check(total == cw, "overflow: the other margin absorbs the difference")
        x.cover("overflow")
    elif ml is None and mr is None:
        free = cw - inner - w
        x.check(box.margin_left == box.margin_right, "two auto margins are equal")
        x.check(
            x.all(2 * box.margin_left <= free, free < 2 * box.margin_left + 2),
            "two auto margins share the free space (whole pixels)",
        )
        x.cover("centred")
    else:
        x.check(total == cw, "the seven widths add up to the containing block")
        if ml is not None and (mr is None or direction == "ltr"):
            x.check(x.eq(box.margin_left, lm), "given left margin is used")
        if mr is not None and (ml is None or direction == "rtl"):
            x.check(x.eq(box.margin_right, rm), "given right margin is used")
        x.cover("one-auto-or-none")


def run(x, L, margins, widths, edges, vw=(0, 100000), display=("block",), at=None, lo=0, fine=False, extra=None, **more):
    vw = x.frac("viewport", *vw, 16) if fine else x.int("viewport", *vw)
    direction = x.choice("direction", ("ltr", "rtl"))
    st = {"display": x.choice("display", display), "direction": direction}
    fs = {}
    st["margin_left"], fs["ml"] = length(x, "margin_left", -100000, 100000, margins, **more)
    st["margin_right"], fs["mr"] = length(x, "margin_right", -100000, 100000, margins, **more)
    st["width"], fs["w"] = length(x, "width", 0, 100000, widths, **more)
    st["padding_left"], fs["pl"] = length(x, "padding_left", lo, 100000, edges, **more)
    st["padding_right"], fs["pr"] = length(x, "padding_right", lo, 100000, edges, **more)
    st["border_left_width"], fs["bl"] = length(x, "border_left", lo, 100000, (edges[0],), **more)
    st["border_right_width"], fs["br"] = length(x, "border_right", lo, 100000, (edges[0],), **more)
    extra = extra or {}
    child = Node(L, L.CSS(height=10, **dict(st, **extra)))
    node = child
    if at == "root":
        std = x.choice("standard", (L.constants.HTML5, L.constants.HTML4))
        layout(L, Display(vw, 600), child, std)
        judge(x, child, vw, direction, **{k: None if f is None else f(vw) for k, f in fs.items()})
        return
    if at == "nested":
        outer = Node(
            L,
            L.CSS(
                **dict(
                    dict(
                        display="block",
                        direction=direction,
                        padding_left=x.int("outer.padding_left", 1, 100000),
                        border_right_width=x.int("outer.border_right", 1, 100000),
                        margin_left=x.int("outer.margin_left", 1, 100000),
                    ),
                    **extra,
                )
            ),
            [Node(L, L.CSS(display="block", width=11, height=3)), child],
        )
        root = Node(L, L.CSS(display="block", padding_right=x.int("root.padding_right", 1, 100000)), [outer])
    else:
        outer = root = Node(L, L.CSS(display="block"), [child])
    layout(L, Display(vw, 600), root)
    rl = root.layout
    x.check(
        rl.margin_left + rl.padding_left + rl.content_width + rl.padding_right + rl.margin_right == vw,
        "the root block fills the viewport",
    )
    if outer is not root:
        ol = outer.layout
        x.check(
            ol.margin_left + ol.border_box_width + ol.margin_right == rl.content_width,
            "the parent block fills the root",
        )
    cw = outer.layout.content_width
    judge(x, node, cw, direction, **{k: None if f is None else f(cw) for k, f in fs.items()})


@harness(
    "root > block; every margin, padding, border, width and the viewport an arbitrary integer "
    "(viewport 0..100000, width 0..100000, margins -100000..100000 or auto, paddings 0..100000, borders 0..100000), ltr and rtl",
    covers=["auto-width", "overflow", "centred", "one-auto-or-none"],
)
def all_px(x, L):
    run(x, L, ("px", "auto"), ("px", "auto"), ("px",))


@harness(
    "root > block > [block, block]; the examined block is a block, list-item or table with integer or auto "
    "margins and width, inside a padded, bordered, indented parent inside a padded root",
    covers=["auto-width", "overflow", "centred", "one-auto-or-none"],
)
def nested(x, L):
    run(x, L, ("px", "auto"), ("px", "auto"), ("px",), vw=(1, 100000), at="nested", lo=1,
        display=("block", "list-item", "table"))


@harness(
    "as nested, margins, width and paddings also 25% or 50% of the containing block",
    covers=["auto-width", "overflow", "centred", "one-auto-or-none"],
)
def percentages(x, L):
    run(x, L, ("pct", "auto"), ("pct", "px", "auto"), ("px", "pct"), vw=(400, 100000), at="nested", lo=1)


@harness(
    "root > block; widths, margins (thorough: also paddings and borders) arbitrary multiples of 1/64 px",
    covers=["auto-width", "overflow", "centred", "one-auto-or-none"],
)
def fractions(x, L):
    edges = ("frac",) if x.tier == "thorough" else ("px",)
    run(x, L, ("frac", "auto"), ("frac", "auto"), edges, lo=1)


@harness(
    "the root itself is examined (viewport any multiple of 1/16 px): margins, width, paddings and borders arbitrary integers, "
    "margins and width auto or 25% or 50% of the viewport as well",
    covers=["auto-width", "overflow", "centred", "one-auto-or-none"],
)
def root(x, L):
    run(x, L, ("px", "auto", "pct"), ("px", "auto", "pct"), ("px",), vw=(0, 100000), at="root", lo=1, fine=True)


@harness(
    "as nested, block and parent with one more declaration that has no influence on widths (60 of them: position relative, list items, colors, "
    "border styles, offsets, visibility, ...)",
    covers=["auto-width", "overflow", "centred", "one-auto-or-none"],
)
def unrelated(x, L):
    extra = noise(x, without=("direction",))
    margins, widths = x.choice("case", ((("px",), ("px",)), (("auto",), ("px",)), (("px",), ("auto",))))
    run(x, L, margins, widths, ("px",), vw=(1, 100000), at="nested", lo=1, extra=extra)


@harness(
    "root > [s, p > [c > [e], d], z]: each kind of left or right margin, padding, border, and width on p (thorough: or c, or the root), together with any of 53 features "
    "(margins, paddings, borders, sizes, limits, directions, positions, hidden elements) on it, its parent, child or sibling: all horizontal parts of every box"
)
def pairs(x, L):
    focus = [f for f in model.F if ("left" in f or "right" in f or "width" in f or f == "margins auto") and "relative" not in f and "min" not in f and "max" not in f]
    model.pairs(x, L, focus, ("p",) if x.tier == "quick" else ("p", "c", "root"), parts=model.ACROSS)


@harness(
    "root > [s, p > [c > [e], d], z]: each of the 8 combinations of given and auto margins and width, with paddings and borders on p (thorough: or c, or the root), all of them arbitrary, together with any of 53 features on it, its "
    "parent, child or sibling: all horizontal parts of every box"
)
def sets(x, L):
    others = ("p", "root") if x.tier == "quick" else ("p", "root", "c", "s")
    model.pairs(x, L, model.ALL_ACROSS, ("p",) if x.tier == "quick" else ("p", "c", "root"), others, parts=model.ACROSS)
