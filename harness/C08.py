"""C08: relative positioning moves a box and nothing else (CSS 2.1, 9.4.3)."""

from . import model
from .common import Display, Node, layout, length, noise, registry

HARNESSES, harness = registry()

OUTSIDE = (
    "offsets given as inherit; percentage vertical offsets in a block of auto height; inline elements with relative position; "
    "known findings KF1, KF2 and KF5 are checked against their exact behaviour"
)

SIZES = (
    "content_width",
    "content_height",
    "margin_top",
    "margin_right",
    "margin_bottom",
    "margin_left",
    "padding_top",
    "padding_right",
    "padding_bottom",
    "padding_left",
    "border_top_width",
    "border_right_width",
    "border_bottom_width",
    "border_left_width",
)


def sizes(node):
    return [getattr(node.layout, n) for n in SIZES]


def spot(node):
    return [node.layout.content_top, node.layout.content_left]


def offsets(x, kinds, direction, explicit=False, **more):
    """Styles for left/right/top/bottom and the expected shift (dx, dy)."""
    st = {}
    given = {}
    for side in ("left", "right", "top", "bottom"):
        v, fn = length(x, side, -100000, 100000, kinds if side in ("left", "right") else tuple(k for k in kinds if k != "pct"), **more)
        if v != "auto" or (explicit and x.bool(side + " explicit")):
            st[side] = v
        given[side] = fn
    def shift(width):
        l, r = given["left"], given["right"]
        if l is not None and (r is None or direction == "ltr"):
            dx = l(width)
        elif r is not None:
            dx = 0 - r(width)
        else:
            dx = 0
        t, b = given["top"], given["bottom"]
        dy = t(0) if t is not None else 0 - b(0) if b is not None else 0
        return dx, dy
    return st, shift


def compare(x, L, build, who, shift, width, last, edge, vw=1000, vh=700):
    """Lay out the same tree with node `who` static and relative."""
    plain, moved = build(False), build(True)
    std = x.choice("standard", (L.constants.HTML5, L.constants.HTML4))
    layout(L, Display(vw, vh), plain["root"], std)
    layout(L, Display(vw, vh), moved["root"], std)
    dx, dy = shift(width(plain))
    s, m = plain[who].layout, moved[who].layout
    x.observe("moved", spot(moved[who]))
    x.check(m.content_left - s.content_left == dx, "the box moves horizontally by its offset")
    down = m.content_top - s.content_top
    x.check(
        down == dy,
        "the box moves vertically by its offset",
        known="KF1",
        alt=down == dy + edge(s),
    )
    grow = down if last else 0
    for name in plain:
        p, q = plain[name], moved[name]
        if name == "parent" and last:
            same = sizes(p)[:1] + sizes(p)[2:]
            x.check(x.eq(same, sizes(q)[:1] + sizes(q)[2:]), "sizes are unchanged")
            x.check(
                p.layout.content_height == q.layout.content_height,
                "the parent's height is unchanged",
                known="KF2",
                alt=q.layout.content_height - p.layout.content_height == grow,
            )
        elif name == "root" and last and std == L.constants.HTML4:
            x.check(
                p.layout.content_height == q.layout.content_height,
                "the root's height is unchanged",
                known="KF2",
                alt=q.layout.content_height - p.layout.content_height == grow,
            )
        else:
            x.check(x.eq(sizes(p), sizes(q)), "sizes are unchanged")
        if name == who:
            continue
        if name == "later" and last:
            x.check(
                x.eq(spot(p), spot(q)),
                "later blocks are unchanged",
                known="KF2",
                alt=x.all(
                    p.layout.content_left == q.layout.content_left,
                    q.layout.content_top - p.layout.content_top == grow,
                ),
            )
        else:
            x.check(x.eq(spot(p), spot(q)), "other boxes, and the box's own content, stay where they were")


def no_edge(box):
    return 0


def edge(box):
    return box.border_top_width + box.padding_top


def run(x, L, kinds, where, edges, kids=False, nested=False, also=None, other=False, **more):
    direction = x.choice("direction", ("ltr", "rtl"))
    st, shift = offsets(x, kinds, direction, **more)
    h = {n: x.int(n + ".h", 1, 100000) for n in ("before", "it", "after")}
    mt, mb = x.int("mt", 1, 100000), x.int("mb", 1, 100000)
    pt = x.int("pt", 1, 100000) if edges else 0
    bt = x.int("bt", 1, 100000) if edges else 0
    rp, ib = x.int("root.pl", 1, 100000), x.int("ib", 1, 100000)

    def build(relative):
        out = {}
        out["before"] = Node(L, L.CSS(display="block", height=h["before"], margin_bottom=mb))
        extra = dict(position="relative", **st) if relative else {}
        inner = []
        if kids:
            out["kid"] = Node(L, L.CSS(display="block", height=h["it"], margin_left=mt))
            inner = [out["kid"]]
        else:
            extra["height"] = h["it"]
        extra = dict(dict(display="block"), **dict(also or {}, **extra))
        out["it"] = Node(
            L,
            L.CSS(direction=direction, margin_top=mt, margin_left=mb, margin_bottom=ib, padding_top=pt, padding_bottom=7, border_top_width=bt, border_bottom_width=3, **extra),
            inner,
        )
        out["after"] = Node(L, L.CSS(display="block", height=h["after"], margin_top=mb))
        order = {"first": ("it", "after"), "middle": ("before", "it", "after"), "last": ("before", "it")}[where]
        for gone in {"before", "after"} - set(order):
            del out[gone]
        out["parent"] = Node(L, L.CSS(display="block", direction={"ltr": "rtl", "rtl": "ltr"}[direction] if other else direction, margin_bottom=mt), [out[n] for n in order])
        out["later"] = Node(L, L.CSS(display="block", height=8))
        out["root"] = Node(L, L.CSS(display="block", padding_left=rp), [out["parent"], out["later"]])
        return out

    compare(
        x, L, build, "it", shift, lambda t: t["parent"].layout.content_width, where == "last", edge if edges else no_edge
    )


@harness(
    "root > [block > [block, it, block], block]: it's left/right/top/bottom any combination of auto and integers "
    "-100000..100000, ltr and rtl, first or in the middle; compared with the same tree not positioned"
)
def px(x, L):
    run(x, L, ("px", "auto"), x.choice("where", ("first", "middle")), False, explicit=x.tier == "thorough")


@harness("as px, the positioned block last in its parent (KF2: an auto-height parent grows by the offset)")
def last(x, L):
    run(x, L, ("px", "auto") if x.tier == "thorough" else ("px",), "last", x.bool("edges"))


@harness("as px, the positioned block with top border and padding (KF1: they are counted twice)")
def edges(x, L):
    run(x, L, ("px",), x.choice("where", ("first", "middle")), True)


@harness("as px, the positioned block with content of its own, which moves along")
def content(x, L):
    run(x, L, ("px",), x.choice("where", ("first", "middle")), x.bool("edges"), kids=True)


@harness("offsets as percentages of the containing block's width (25%, 50%) and multiples of 1/64 px")
def units(x, L):
    run(x, L, ("pct", "frac", "auto"), "middle", False)


@harness("a positioned root: left and top px or percentages of the viewport's width and height, alone or with right and bottom given too, or instead")
def root(x, L):
    vw, vh = x.int("vw", 1, 100000), x.int("vh", 1, 100000)
    left, l = length(x, "left", -100000, 100000, ("px", "pct"))
    top, t = length(x, "top", -100000, 100000, ("px", "pct"))
    given = x.choice("given", ("left top", "all", "right bottom"))
    right, r = length(x, "right", -100000, 100000, ("px", "pct"), pcts=(75,)) if given != "left top" else (None, None)
    bottom, b = length(x, "bottom", -100000, 100000, ("px", "pct"), pcts=(75,)) if given != "left top" else (None, None)
    st = {"left top": dict(left=left, top=top), "all": dict(left=left, top=top, right=right, bottom=bottom), "right bottom": dict(right=right, bottom=bottom)}[given]
    mt, ml = x.int("mt", 1, 100000), x.int("ml", 1, 100000)
    kh = x.int("kid.h", 1, 100000)

    def build(relative):
        kid = Node(L, L.CSS(display="block", height=kh, margin_left=3))
        extra = dict(position="relative", **st) if relative else {}
        return {"kid": kid, "root": Node(L, L.CSS(display="block", margin_top=mt, margin_left=ml, **extra), [kid])}

    def shift(w):
        return (0 - r(vw), 0 - b(vh)) if given == "right bottom" else (l(vw), t(vh))

    compare(x, L, build, "root", shift, lambda t: vw, False, no_edge, vw, vh)


@harness("vertical offsets as 25% or 50% of the given height of the containing block, top, bottom or both (KF5: they are taken of 0)")
def vertical(x, L):
    h, kh, before = x.int("h", 1, 100000), x.int("kid.h", 1, 100000), x.int("before.h", 1, 100000)
    top, t = length(x, "top", -100000, 100000, ("px", "pct", "auto"))
    bottom, b = length(x, "bottom", -100000, 100000, ("px", "pct", "auto"))
    st = {k: v for k, v in (("top", top), ("bottom", bottom)) if v != "auto"}

    def build(relative):
        kid = Node(L, L.CSS(display="block", height=kh, **(dict(position="relative", **st) if relative else {})))
        first = Node(L, L.CSS(display="block", height=before))
        parent = Node(L, L.CSS(display="block", height=h), [first, kid])
        after = Node(L, L.CSS(display="block", height=9))
        return {"kid": kid, "first": first, "parent": parent, "after": after, "root": Node(L, L.CSS(display="block"), [parent, after])}

    p, q = build(False), build(True)
    for tree in (p, q):
        layout(L, Display(900, 600), tree["root"])
    down = q["kid"].layout.content_top - p["kid"].layout.content_top
    x.observe("moved", down)

    def dy(size):
        return t(size) if t is not None else 0 - b(size) if b is not None else 0

    x.check(down == dy(h), "the box moves by the percentage of the given height", known="KF5", alt=down == dy(0))
    for name in ("first", "parent", "after", "root"):
        x.check(x.eq(spot(p[name]) + sizes(p[name]), spot(q[name]) + sizes(q[name])), "nothing else changes")
    x.check(x.eq(sizes(p["kid"]), sizes(q["kid"])), "sizes are unchanged")


@harness("a positioned block inside a positioned block: the offsets add up in absolute terms")
def nested(x, L):
    l1, t1 = x.int("l1", -100000, 100000), x.int("t1", -100000, 100000)
    l2, t2 = x.int("l2", -100000, 100000), x.int("t2", -100000, 100000)
    h = x.int("h", 1, 100000)

    def build(relative):
        e1 = dict(position="relative", left=l1, top=t1) if relative else {}
        e2 = dict(position="relative", left=l2, top=t2) if relative else {}
        a = Node(L, L.CSS(display="block", height=h, **e2))
        b = Node(L, L.CSS(display="block", height=5))
        c = Node(L, L.CSS(display="block", margin_left=4, **e1), [a, b])
        d = Node(L, L.CSS(display="block", height=6))
        return [a, b, c, d, Node(L, L.CSS(display="block"), [c, d])]

    p, q = build(False), build(True)
    for t in (p, q):
        layout(L, Display(900, 600), t[-1])
    want = [(l1 + l2, t1 + t2), (l1, t1), (l1, t1), (0, 0), (0, 0)]
    for s, m, (dx, dy) in zip(p, q, want):
        x.check(
            x.all(
                m.layout.absolute_content_left - s.layout.absolute_content_left == dx,
                m.layout.absolute_content_top - s.layout.absolute_content_top == dy,
            ),
            "a box moves by its own offset and its ancestors'",
        )


@harness(
    "root > [block, it > [block, block], block]: the margins of it's first and last child collapse through it; sizes and margins arbitrary "
    "integers, it moved by arbitrary integers"
)
def through(x, L):
    m = {n: x.int(n, 1, 100000) for n in ("before.mb", "it.mt", "it.mb", "first.mt", "last.mb", "after.mt", "h")}
    left, top = x.int("left", -100000, 100000), x.int("top", -100000, 100000)

    def build(relative):
        extra = dict(position="relative", left=left, top=top) if relative else {}
        before = Node(L, L.CSS(display="block", height=4, margin_bottom=m["before.mb"]))
        first = Node(L, L.CSS(display="block", height=m["h"], margin_top=m["first.mt"]))
        last = Node(L, L.CSS(display="block", height=6, margin_bottom=m["last.mb"]))
        it = Node(L, L.CSS(display="block", margin_top=m["it.mt"], margin_bottom=m["it.mb"], **extra), [first, last])
        after = Node(L, L.CSS(display="block", height=5, margin_top=m["after.mt"]))
        return {"before": before, "first": first, "last": last, "it": it, "after": after, "root": Node(L, L.CSS(display="block"), [before, it, after])}

    compare(x, L, build, "it", lambda w: (left, top), lambda t: 0, False, no_edge)


@harness("as px, all four offsets given or left and top, in a parent of the other direction: the box's own direction decides")
def directions(x, L):
    run(x, L, ("px",), "middle", False, other=True)


@harness("as px, the positioned block with one more declaration that has no influence (50 of them: list items, visibility, ...)")
def unrelated(x, L):
    also = noise(x, without=("top", "left", "right", "bottom", "position", "direction"))
    run(x, L, ("px",), x.choice("where", ("first", "middle")), False, also=also)


@harness(
    "root > [s, p > [c > [e], d], z]: relative positions by each offset on p (thorough: or c), together with any of 53 features "
    "(margins, paddings, borders, sizes, limits, directions, positions, hidden elements) on it, its parent, child or sibling: every part of every box"
)
def pairs(x, L):
    focus = [f for f in model.F if f.startswith("relative") or f == "offsets"]
    model.pairs(x, L, focus, ("p",) if x.tier == "quick" else ("p", "c"), parts=model.ACROSS + model.DOWN)


@harness(
    "root > [s, p > [c > [e], d], z]: relative positions by one or two offsets in either direction with margins, paddings and borders (12 combinations) on p (thorough: or c), all of them arbitrary, together with any of 53 features on it, its parent, child or sibling: "
    "every part of every box"
)
def sets(x, L):
    others = ("p", "root", "c", "s") if x.tier == "quick" else ("p", "root", "c", "s")
    model.pairs(x, L, model.ALL_MOVES, ("p",) if x.tier == "quick" else ("p", "c"), others, parts=model.ACROSS + model.DOWN)
