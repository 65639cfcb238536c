"""C10: sizes and positions of inline elements (CSS 2.1, 10.3.1, 10.3.2, 10.6.1, 10.6.2)."""

from . import model
from .common import Display, Node, layout, length, noise, registry

HARNESSES, harness = registry()

OUTSIDE = (
    "line breaking and the flow of several inline elements, which the engine does not implement; the width of a "
    "replaced element with auto width, a given height and an intrinsic ratio; ratios other than the listed ones"
)


def edges(x, kinds, cw, lo=1):
    st, v = {}, {}
    for side in ("top", "right", "bottom", "left"):
        st[f"margin_{side}"], f = length(x, f"margin_{side}", lo, 100000, kinds)
        v["m" + side[0]] = 0 if f is None else f(cw)
        st[f"padding_{side}"] = v["p" + side[0]] = x.int(f"padding_{side}", lo, 100000)
        st[f"border_{side}_width"] = v["b" + side[0]] = x.int(f"border_{side}", lo, 100000)
    return st, v


def exact(x, node):
    """Whether the host calls the sizes exact makes no difference to a single element."""
    flags = x.choice("exact", ((True, True), (False, True), (True, False)))
    node.intrinsic.exact_width, node.intrinsic.exact_height = flags


def place(x, L, node, vw):
    where = x.choice("where", ("root", "block", "nested"))
    if where == "root":
        root = node
    elif where == "block":
        root = Node(L, L.CSS(display="block"), [node])
    else:
        outer = Node(L, L.CSS(display="block", padding_left=6, margin_top=3), [node])
        root = Node(L, L.CSS(display="block", border_left_width=2), [outer])
    layout(L, Display(vw, 700), root, L.constants.HTML4)
    return where


def judge_edges(x, box, v, root):
    x.check(
        x.all(
            box.margin_top == v["mt"],
            box.margin_right == v["mr"],
            box.margin_bottom == v["mb"],
            box.margin_left == v["ml"],
        ),
        "margins as given, auto is 0",
    )
    x.check(
        box.content_left == v["ml"] + v["bl"] + v["pl"],
        "the content starts after the left margin, border and padding",
    )
    top = v["mt"] + v["bt"] + v["pt"]
    if root:
        # the root's top margin is displayed once more: see C09
        x.check(box.content_top >= top, "the content starts below the top margin, border and padding")
    else:
        x.check(box.content_top == top, "the content starts below the top margin, border and padding")


def nonreplaced(x, L, kinds, num):
    vw = 1000
    st, v = edges(x, kinds, None)
    w, h = num("width", 0, 100000), num("height", 0, 100000)
    given = x.choice("given", ("none", "sizes", "minimum", "maximum"))
    if given == "sizes":
        st["width"], st["height"] = 55, 66
    elif given != "none":
        limit = x.int("limit", 1, 100000)
        for p in ("width", "height"):
            st[("min_" if given == "minimum" else "max_") + p] = limit
    node = Node(L, L.CSS(display="inline", **st), width=w, height=h)
    exact(x, node)
    where = place(x, L, node, vw)
    box = node.layout
    x.observe("box", [box.content_width, box.content_height, box.content_left, box.content_top])
    x.check(x.all(box.content_width == w, box.content_height == h), "a non-replaced inline has its content's size")
    judge_edges(x, box, v, where == "root")


@harness("a non-replaced inline element, root or in one or two blocks: size and edges arbitrary integers, margins px or auto")
def text_px(x, L):
    nonreplaced(x, L, ("px", "auto"), x.int)


@harness("as text_px with sizes multiples of 1/64 px and zero margins")
def text_frac(x, L):
    nonreplaced(x, L, ("px", "zero"), lambda n, lo, hi: x.frac(n, lo, hi, 64))


RATIOS = (0.5, 0.75, 1, 2)


def image(x, L, kinds, ratios=RATIOS, vw=(800, 100000)):
    vw = x.int("vw", *vw)
    # percentages refer to the containing block's width
    st, v = edges(x, kinds, None)
    sw, fw = length(x, "style.width", 0, 100000, ("auto", "px"))
    sh, fh = length(x, "style.height", 0, 100000, ("auto", "px"))
    iw = x.int("width", 0, 100000) if x.bool("has width") else None
    ih = x.int("height", 0, 100000) if x.bool("has height") else None
    ratio = x.choice("ratio", (None,) + ratios)
    node = Node(L, L.CSS(display="inline", width=sw, height=sh, **st), replaced=True, width=iw, height=ih, ratio=ratio)
    exact(x, node)
    where = place(x, L, node, vw)
    cw = node.parent.layout.content_width if node.parent else vw
    box = node.layout
    x.observe("box", [box.content_width, box.content_height, box.content_left, box.content_top])
    w = box.content_width
    if fw is not None:
        x.check(w == fw(cw), "given width")
    elif fh is None and iw is not None:
        x.check(w == iw, "auto width: the intrinsic width")
    elif fh is None and ih is not None and ratio is not None:
        x.check(x.all(2 * w <= 2 * ih * ratio + 1, 2 * w >= 2 * ih * ratio - 1), "auto width: height x ratio, rounded")
        x.cover("by-ratio")
    elif fh is None and ratio is not None:
        x.check(
            w == cw - v["ml"] - v["bl"] - v["pl"] - v["pr"] - v["br"] - v["mr"],
            "auto width, only a ratio: as a block fills its container",
        )
        x.cover("fills")
    elif ratio is None:
        x.check(w == (300 if iw is None else iw), "auto width: the intrinsic width, or 300")
    h = box.content_height
    if fh is not None:
        x.check(h == fh(0), "given height")
    elif fw is None and ih is not None:
        x.check(h == ih, "auto height: the intrinsic height")
    elif ratio is not None:
        x.check(h * ratio == w, "auto height: width / ratio", known="KF3", alt=h == w * ratio)
        x.cover("height-by-ratio")
    elif ih is not None:
        x.check(h == ih, "auto height: the intrinsic height")
    else:
        x.check(x.any(h == 150, x.all(h < 150, 2 * h <= w, w < 2 * h + 2)), "auto height: half the width, at most 150")
        x.check(x.implies(w >= 300, h == 150), "auto height: 150 if the width allows")
        x.cover("default-height")
    judge_edges(x, box, v, where == "root")


@harness(
    "a replaced inline element, root or in one or two blocks: given or auto width and height, intrinsic width and "
    "height present or not, ratio none, 0.5, 0.75, 1 or 2, edges arbitrary integers",
    covers=["by-ratio", "fills", "height-by-ratio", "default-height"],
)
def image_px(x, L):
    image(x, L, ("px",))


@harness("as image_px in a viewport of 1..60 px, ratio none or 2")
def image_narrow(x, L):
    image(x, L, ("px",), ratios=(2,), vw=(1, 60))


@harness("as image_px, margins auto or px")
def image_auto(x, L):
    image(x, L, ("px", "auto"), ratios=(2,))


@harness(
    "a replaced inline element with any ratio that is a multiple of 1/64 from 1/64 to 8, intrinsic sizes none or 40 x 30, style sizes "
    "auto or 50 and 70"
)
def ratios(x, L):
    ratio = x.frac("ratio", 0, 8, 64)
    x.assume(ratio > 0)
    iw, ih = x.choice("intrinsic", ((None, None), (40, None), (None, 30), (40, 30)))
    sw, sh = x.choice("style", (("auto", "auto"), (50, "auto"), (50, 70)))
    node = Node(L, L.CSS(display="inline", width=sw, height=sh), replaced=True, width=iw, height=ih, ratio=ratio)
    layout(L, Display(400, 300), Node(L, L.CSS(display="block"), [node]))
    w, h = node.layout.content_width, node.layout.content_height
    x.observe("size", [w, h])
    if sw != "auto":
        x.check(w == sw, "given width")
    elif iw is not None:
        x.check(w == iw, "auto width: the intrinsic width")
    elif ih is not None:
        x.check(x.all(2 * w <= 2 * ih * ratio + 1, 2 * w >= 2 * ih * ratio - 1), "auto width: height x ratio, rounded")
    else:
        x.check(w == 400, "auto width, only a ratio: as a block fills its container")
    if sh != "auto":
        x.check(h == sh, "given height")
    elif sw == "auto" and ih is not None:
        x.check(h == ih, "auto height: the intrinsic height")
    elif isinstance(w, int):
        x.check(h * ratio == w, "auto height: width / ratio", known="KF3", alt=h == w * ratio)


@harness("as image_px, given and intrinsic sizes multiples of 1/64 px, given sizes also percentages of the containing block")
def image_frac(x, L):
    sw, fw = length(x, "style.width", 0, 100000, ("auto", "frac", "pct"))
    sh, fh = length(x, "style.height", 0, 100000, ("auto", "frac"))
    iw, ih = x.frac("width", 0, 100000, 64), x.frac("height", 0, 100000, 64)
    node = Node(L, L.CSS(display="inline", width=sw, height=sh), replaced=True, width=iw, height=ih)
    vw = x.frac("vw", 1, 100000, 16)
    layout(L, Display(vw, 300), Node(L, L.CSS(display="block"), [node]))
    w, h = node.layout.content_width, node.layout.content_height
    x.observe("size", [w, h])
    x.check(w == (iw if fw is None else fw(vw)), "the given width, or the intrinsic one")
    x.check(h == (ih if fh is None else fh(0)), "the given height, or the intrinsic one")


@harness("an inline element, replaced or not, with one more declaration that has no influence (50 of them): sizes and edges arbitrary integers")
def unrelated(x, L):
    extra = noise(x, without=("position", "display"))
    w, h, sw, sh = (x.int(n, 1, 100000) for n in ("width", "height", "style.width", "style.height"))
    ml, pl, mt, bt = (x.int(n, 1, 100000) for n in ("ml", "pl", "mt", "bt"))
    replaced, given = x.bool("replaced"), x.bool("given")
    st = dict(width=sw, height=sh) if given else {}
    if x.bool("limits"):
        x.assume(not replaced)
        st.update(min_width=x.int("min_width", 1, 100000), max_height=x.int("max_height", 1, 100000))
    node = Node(L, L.CSS(display="inline", margin_left=ml, padding_left=pl, margin_top=mt, border_top_width=bt, **st, **extra),
                replaced=replaced, width=w, height=h)  # fmt: skip
    layout(L, Display(1000, 700), Node(L, L.CSS(display="block", **extra), [node]))
    box = node.layout
    x.observe("box", [box.content_width, box.content_height, box.content_left, box.content_top])
    want = (sw, sh) if replaced and given else (w, h)
    x.check(x.all(box.content_width == want[0], box.content_height == want[1]), "its own size, or the given one if replaced")
    x.check(x.all(box.content_left == ml + pl, box.content_top == mt + bt), "it starts after its margin, border and padding")


@harness(
    "an inline element, replaced or not, with or without intrinsic sizes, in a block in a block, with any two of 44 features (margins, paddings, "
    "borders, sizes, limits if not replaced, direction), each on the element or on the block: all parts of its box"
)
def pairs(x, L):
    replaced = x.bool("replaced")
    out = ("relative", "hidden", "list", "offsets") + (("min", "max") if replaced else ())
    features = [f for f in model.F if not f.startswith(out) and not (replaced and (" min" in f or " max" in f))]
    me, outer = model.M("me", display="inline"), model.M("outer", margin_left=3, padding_top=4)
    nodes = {"me": me, "outer": outer}
    model.put(x, nodes, 0, features, ("me",))
    model.put(x, nodes, 1, features, ("me", "outer"))
    sized = not replaced or x.bool("sized")
    w, h = (x.int("width", 0, 100000), x.int("height", 0, 100000)) if sized else (None, None)
    outer.build(L)
    me.build(L)
    for n, v in (("width", w), ("height", h)):
        if v is not None:
            setattr(me.node.intrinsic, n, v)
    me.node.intrinsic.is_replaced = replaced
    outer.node.add(me.node)
    d = model.screen(x)
    layout(L, d, Node(L, L.CSS(display="block"), [outer.node]), L.constants.HTML4)
    cw = outer.node.layout.content_width
    box = me.node.layout
    v = {}
    for side in model.SIDES:
        for k, p in (("m", f"margin_{side}"), ("p", f"padding_{side}"), ("b", f"border_{side}_width")):
            got = model.resolve(x, me, p, cw, d)
            v[k + side[0]] = 0 if got is None else got
            x.check(x.eq(getattr(box, p), v[k + side[0]]), "edges as given, auto is 0")
    x.observe("box", [box.content_width, box.content_height, box.content_left, box.content_top])
    sw, sh = (model.resolve(x, me, n, cw, d, "auto") if replaced else None for n in ("width", "height"))
    x.check(x.eq(box.content_width, sw if sw is not None else w if sized else 300), "width: given, intrinsic, or 300")
    if sh is not None or sized:
        x.check(x.eq(box.content_height, sh if sh is not None else h), "height: given or intrinsic")
    judge_edges(x, box, v, False)
