"""C03: vertical stacking and margin collapsing of blocks (CSS 2.1, 8.3.1 and 10.6.3)."""

from . import model
from .common import big, Display, layout, length, Node, noise, registry

HARNESSES, harness = registry()

OUTSIDE = (
    "negative vertical margins; blocks that are empty and borderless, whose own margins would collapse; "
    "relative offsets (C08); trees deeper than 12 levels or with more than 18 siblings, and more than a few arbitrary lengths in trees of that size"
)


class B:
    """A block of the reference model: numbers only."""

    def __init__(self, node, mt, mb, bt, pt, bb, pb, height, kids=()):
        self.node, self.mt, self.mb = node, mt, mb
        self.bt, self.pt, self.bb, self.pb = bt, pt, bb, pb
        self.height, self.kids = height, list(kids)


def reference(x, b, out):
    """Collapsed margins and content height of b; appends (node, expected border-box top)."""
    y = 0
    top, bottom = b.mt, b.mb
    prev = None
    for kid in b.kids:
        ktop, kbottom, kheight = reference(x, kid, out)
        if prev is None:
            apart = b.bt + b.pt > 0
            y = y + x.ite(apart, ktop, 0)
            top = x.max(top, x.ite(apart, 0, ktop))
        else:
            y = y + x.max(prev, ktop)
        out.append((kid.node, y))
        y = y + kid.bt + kid.pt + kheight + kid.pb + kid.bb
        prev = kbottom
    if b.height is not None:
        height = b.height
    elif b.kids:
        apart = b.bb + b.pb > 0
        height = y + x.ite(apart, prev, 0)
        bottom = x.max(bottom, x.ite(apart, 0, prev))
    else:
        height = 0
    out.append((b.node, None, height))
    return top, bottom, height


def blk(x, L, name, kids=(), margin=("px",), edge=("zero",), height=("px",), cw=None, lo=1, **more):
    st = {"display": x.choice(name + ".display", ("block", "list-item")) if more.pop("li", False) else "block"}
    f = {}
    st["margin_top"], f["mt"] = length(x, name + ".mt", lo, 100000, margin)
    st["margin_bottom"], f["mb"] = length(x, name + ".mb", lo, 100000, margin)
    kind = x.choice(name + ".edge", edge) if len(edge) > 1 else edge[0]
    if kind.startswith("frac"):
        # one edge alone, thinner than 2 px
        kind = kind[5:]
        prop = {"pt": "padding_top", "bt": "border_top_width", "pb": "padding_bottom", "bb": "border_bottom_width"}[kind]
        st[prop], f[kind] = length(x, name + "." + kind, 0, 2, ("frac",))
        kind = "zero"
    for prop, key in (("padding_top", "pt"), ("border_bottom_width", "bb")):
        if kind in ("all", key):
            st[prop], f[key] = length(x, name + "." + key, 1, 100000, ("px",))
    for prop, key in (("border_top_width", "bt"), ("padding_bottom", "pb")):
        if kind in ("all", key, "pt" if key == "bt" else "bb"):
            st[prop], f[key] = length(x, name + "." + key, 1, 100000, ("px",))
    st["height"], f["height"] = length(x, name + ".height", 1, 100000, height)
    st.update(more)
    node = Node(L, L.CSS(**st), [k.node for k in kids])
    val = {k: (None if f[k] is None else f[k](cw)) if k in f else 0 for k in ("mt", "mb", "bt", "pt", "bb", "pb", "height")}
    val["mt"] = 0 if val["mt"] is None else val["mt"]
    val["mb"] = 0 if val["mb"] is None else val["mb"]
    return B(node, kids=kids, **val)


def judge(x, L, root, vw=1000, vh=600):
    layout(L, Display(vw, vh), root.node, L.constants.HTML4)
    out = []
    reference(x, root, out)
    for item in out:
        box = item[0].layout
        if len(item) == 2:
            x.check(box.border_box_top == item[1], "a block starts below the previous one, by the collapsed margin")
        else:
            x.check(box.content_height == item[2], "a block's height: as given, or to the bottom of its content")
        x.observe("box", [box.content_top, box.content_height])
    x.check(
        root.node.layout.content_top
        == reference(x, root, [])[0] + root.node.layout.border_top_width + root.node.layout.padding_top,
        "the margin collapsed into the root is displayed",
    )


@harness("root > block > 3 blocks with integer heights and margins 0..100000, paddings and borders")
def siblings(x, L):
    kids = [blk(x, L, f"k{i}", edge=("all",), lo=0) for i in range(3)]
    parent = blk(x, L, "p", kids, height=("auto",), margin=("zero",))
    root = blk(x, L, "r", [parent], height=("auto",), margin=("zero",))
    judge(x, L, root)


@harness("root > 1..4 (thorough 6) blocks or list items, with margins, px or auto height")
def count(x, L):
    n = x.choice("n", (1, 2, 3, 4) if x.tier == "quick" else (1, 2, 3, 4, 5, 6))
    kids = [blk(x, L, f"k{i}", edge=("all",), height=("px",), li=i == 1) for i in range(n)]
    root = blk(x, L, "r", kids, height=("auto", "px"))
    judge(x, L, root)


@harness(
    "root > [block > [block, block], block, block]; the first block's top/bottom padding/border present or absent, "
    "its height auto or given: margins collapse through it, or do not"
)
def through(x, L):
    g = [blk(x, L, f"g{i}", edge=("all",)) for i in range(2)]
    a = blk(x, L, "a", g, height=("auto", "px"), edge=("zero", "pt", "bb", "bt", "pb", "all"), margin=("px", "zero"))
    b = blk(x, L, "b", edge=("all",))
    c = blk(x, L, "c", edge=("zero",), margin=("px", "auto"))
    kids = x.choice("order", ((0, 1, 2), (1, 0, 2), (1, 2, 0)))
    kids = [(a, b, c)[i] for i in kids]
    judge(x, L, blk(x, L, "r", kids, height=("auto",), margin=("zero",)))


@harness("root > block > block > [block, block]; margins collapse through two levels, in first or second position")
def deep(x, L):
    h = [blk(x, L, f"h{i}") for i in range(2)]
    g = blk(x, L, "g", h, height=("auto",), edge=("zero", "pt", "bb"))
    a = blk(x, L, "a", [g], height=("auto",), edge=("zero", "bt", "pb"))
    b = blk(x, L, "b")
    kids = [a, b] if x.bool("a first") else [b, a]
    edge = ("zero", "all") if x.tier == "thorough" else ("zero",)
    judge(x, L, blk(x, L, "r", kids, height=("auto",), edge=edge))


@harness("root > 2 blocks whose margins are multiples of 1/64 px, percentages of the width, whole pixels or auto")
def units(x, L):
    vw = x.int("viewport", 1, 100000)
    deep = x.tier == "thorough"
    kinds = ("px", "frac", "pct", "auto")
    a = blk(x, L, "a", margin=kinds if deep else ("frac", "pct", "auto"), height=("px", "frac"), cw=vw)
    b = blk(x, L, "b", margin=kinds if deep else ("pct",), cw=vw)
    judge(x, L, blk(x, L, "r", [a, b], height=("auto",), margin=("zero",)), vw=vw)


@harness("root > [block > [block, block], block]; one edge of the first block, or of the root, is any multiple of 1/64 px from 0 to 2")
def thin(x, L):
    kinds = ("frac pt", "frac bt", "frac pb", "frac bb")
    g = [blk(x, L, f"g{i}") for i in range(2)]
    outer = x.bool("of the root")
    a = blk(x, L, "a", g, height=("auto",), edge=("zero",) if outer else kinds)
    b = blk(x, L, "b")
    judge(x, L, blk(x, L, "r", [a, b], height=("auto",), edge=kinds if outer else ("zero",)))


@harness(
    "root > [block > [block, block], block], all but the root with one more declaration that has no influence (60 of them: list items, position "
    "relative, visibility, ...); the first block without edges or with all of them"
)
def unrelated(x, L):
    extra = noise(x)
    more = dict(extra)
    edges = ("zero",) if "position" in extra else ("zero", "all")
    first = blk(x, L, "g0", margin=("px",), **more)
    last = blk(x, L, "g1", margin=("px",), **more)
    a = blk(x, L, "a", [first, last], height=("auto",), edge=edges, **more)
    b = blk(x, L, "b", **more)
    judge(x, L, blk(x, L, "r", [a, b], height=("auto",), margin=("zero",)))


@harness("root > [block > n blocks, block] in either order, n 3..6 (thorough 9); the margins of the first and last of them collapse through their parent")
def many(x, L):
    n = x.choice("n", (3, 4, 6) if x.tier == "quick" else (3, 4, 5, 6, 9))
    kids = [blk(x, L, f"k{i}", margin=("px",) if i in (0, n - 1) else ("zero",)) for i in range(n)]
    a = blk(x, L, "a", kids, height=("auto",))
    b = blk(x, L, "b")
    kids = [a, b] if x.bool("a first") else [b, a]
    judge(x, L, blk(x, L, "r", kids, height=("auto",), margin=("zero",)))


@harness("root > 18 blocks, the last of which has 11 levels below it: the margins of two neighbours, one of them anywhere, and of the innermost block arbitrary")
def large(x, L):
    at = x.choice("at", tuple(range(17)))

    def one(i, kids=()):
        given = kids == () and i < 100
        mt = x.int(f"mt{i}", 1, 100000) if i in (at + 1, 111) else 0
        mb = x.int(f"mb{i}", 1, 100000) if i in (at, 111) else 0
        h = x.int(f"h{i}", 1, 100000) if i in (at, 111) else 10 + i if given else None
        st = dict(display="block", margin_top=mt, margin_bottom=mb)
        if h is not None:
            st["height"] = h
        return B(Node(L, L.CSS(**st), [k.node for k in kids]), mt, mb, 0, 0, 0, 0, h, kids)

    chain = one(111)
    for i in range(10):
        chain = one(110 - i, (chain,))
    root = one(200, tuple([one(i) for i in range(17)] + [chain]))
    judge(x, L, root)


@harness(
    "root > [s, p > [c > [e], d], z]: each kind of top or bottom margin, padding, border, and height on p (thorough: or c, or the root), together with any of 53 features "
    "(margins, paddings, borders, sizes, limits, directions, positions, hidden elements) on it, its parent, child or sibling: all vertical parts of every box"
)
def pairs(x, L):
    focus = [f for f in model.F if ("top" in f or "bottom" in f or "height" in f) and "relative" not in f and "min" not in f and "max" not in f]
    model.pairs(x, L, focus, ("p",) if x.tier == "quick" else ("p", "c", "root"), parts=model.DOWN)


@harness(
    "root > [s, p > [c > [e], d], z]: both margins with each of the 27 combinations of no edge, padding or border at the top and at the bottom, and auto, minimum or given height on p (thorough: or c, or the root), all of them arbitrary, together with any of 53 features on it, its "
    "parent, child or sibling: all vertical parts of every box"
)
def sets(x, L):
    others = ("p", "root") if x.tier == "quick" else ("p", "root", "c", "s")
    model.pairs(x, L, model.ALL_DOWN, ("p",) if x.tier == "quick" else ("p", "c", "root"), others, parts=model.DOWN)
