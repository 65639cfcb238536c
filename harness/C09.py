"""C09: the root element and the viewport."""

from . import model
from .common import Display, Node, layout, length, noise, registry

HARNESSES, harness = registry()

OUTSIDE = "negative margins of the root; other displays than block for the root"


def run(x, L, child, lo=0, kinds=("px",), fine=False):
    num = (lambda n, lo, hi: x.frac(n, lo, hi, 16)) if fine else x.int
    vw, vh = num("vw", 0, 100000), num("vh", 0, 100000)
    st, f = {}, {}
    for key, prop, hi in (
        ("mt", "margin_top", 100000),
        ("mb", "margin_bottom", 100000),
        ("ml", "margin_left", 100000),
        ("mr", "margin_right", 100000),
        ("pt", "padding_top", 100000),
        ("bt", "border_top_width", 100000),
        ("pl", "padding_left", 100000),
        ("pb", "padding_bottom", 100000),
    ):
        margin = prop.startswith("margin_")
        st[prop], f[key] = length(x, key, lo if margin or not child else 0, hi, kinds if margin else ("px",))
    v = {k: fn(vw) for k, fn in f.items()}
    kids = []
    kmt = kmb = kh = 0
    if child:
        kmt, kmb, kh = x.int("kid.mt", 1, 100000), x.int("kid.mb", 1, 100000), x.int("kid.h", 1, 100000)
        kids = [Node(L, L.CSS(display="block", margin_top=kmt, margin_bottom=kmb, height=kh))]
    given = child and x.bool("height given")
    if given:
        st["height"] = x.int("height", 1, 100000)
    root = Node(L, L.CSS(display="block", **st), kids)
    std = x.choice("standard", ("default", "html5", "html4"))
    d = Display(vw, vh)
    if std == "default":
        layout(L, d, root)
    else:
        layout(L, d, root, L.constants.HTML5 if std == "html5" else L.constants.HTML4)
    box = root.layout
    x.observe("root", [box.content_top, box.content_left, box.content_width, box.content_height])
    # margins collapsed into the root's own
    top = x.max(v["mt"], x.ite(v["bt"] + v["pt"] > 0, 0, kmt))
    through = child and not given
    bottom = x.max(v["mb"], x.ite(v["pb"] > 0, 0, kmb)) if through else v["mb"]
    x.check(box.border_box_top == top, "the root starts below its collapsed top margin")
    x.check(box.border_box_left == v["ml"], "the root starts after its left margin")
    x.check(
        box.margin_left + box.border_box_width + box.margin_right == vw,
        "the root's margin box is as wide as the viewport",
    )
    x.check(
        x.all(box.absolute_content_top == box.content_top, box.absolute_content_left == box.content_left),
        "the root is positioned relative to the viewport's corner",
    )
    if std == "html4":
        if given:
            want = st["height"]
        else:
            want = x.ite(v["bt"] + v["pt"] > 0, kmt, 0) + kh + x.ite(v["pb"] > 0, kmb, 0) if child else 0
        x.check(box.content_height == want, "html4: the root's height is its own or its content's")
    else:
        x.check(
            box.content_height == vh - top - bottom,
            "html5: the root's height fills the viewport less its collapsed margins",
        )
    x.check(x.all(d.content_width == vw, d.content_height == vh), "the display is unchanged")
    if child:
        k = kids[0].layout
        x.check(
            x.all(
                k.absolute_border_box_top == box.absolute_content_top + x.ite(v["bt"] + v["pt"] > 0, kmt, 0),
                k.absolute_content_left == box.absolute_content_left,
                k.content_width == box.content_width,
            ),
            "the child starts at the root's content edge and is as wide",
        )


@harness("an empty root: margins, paddings, border and viewport arbitrary integers from 0")
def empty(x, L):
    run(x, L, False)


@harness("a root with a child with margins; root margins 1..100000, paddings/borders 1..100000")
def with_child(x, L):
    run(x, L, True, lo=1)


@harness("a root with no margins, padding or border: the child's margins collapse through it")
def collapsing(x, L):
    vw, vh = x.int("vw", 1, 100000), x.int("vh", 1, 100000)
    depth = x.choice("depth", (1, 2, 3))
    tops = [x.int(f"mt{i}", 1, 100000) for i in range(depth)]
    bottoms = [x.int(f"mb{i}", 1, 100000) for i in range(depth)]
    mt, mb = x.int("mt", 0, 100000), x.int("mb", 0, 100000)
    node = Node(L, L.CSS(display="block", height=x.int("h", 1, 100000), margin_top=tops[-1], margin_bottom=bottoms[-1]))
    for t, b in list(zip(tops, bottoms))[-2::-1]:
        node = Node(L, L.CSS(display="block", margin_top=t, margin_bottom=b), [node])
    root = Node(L, L.CSS(display="block", margin_top=mt, margin_bottom=mb), [node])
    layout(L, Display(vw, vh), root)
    top, bottom = x.max(mt, *tops), x.max(mb, *bottoms)
    box = root.layout
    x.observe("root", [box.content_top, box.content_height])
    x.check(box.content_top == top, "the whole collapsed top margin is displayed")
    x.check(box.content_height == vh - top - bottom, "the root fits the viewport less the collapsed margins")
    while node is not None:
        x.check(node.layout.absolute_content_top == top, "collapsed-through children start with the root")
        node = node.children[0] if node.children else None


@harness("fractional (thorough: and percentage) margins of the root; the viewport any multiple of 1/16 px")
def units(x, L):
    run(x, L, False, lo=1, kinds=("frac", "pct") if x.tier == "thorough" else ("frac",), fine=True)


@harness("percentage margins of the root; the viewport any multiple of 1/16 px")
def percent(x, L):
    run(x, L, False, lo=1, kinds=("pct",), fine=True)


@harness("a root with a child, all of them arbitrary, on a display whose sizes are multiples of 1/16 px")
def fine(x, L):
    run(x, L, True, lo=1, fine=True)


@harness("html5: a root (block or list item) with any height, minimum and maximum height, given or not, empty or with a child: its content height is that of the viewport less its margins")
def limits(x, L):
    vh, mt, mb = x.int("vh", 0, 100000), x.int("mt", 0, 100000), x.int("mb", 0, 100000)
    st = {p: x.int(p, 0, 100000) for p in ("height", "min_height", "max_height") if x.bool(p + " given")}
    kids = [Node(L, L.CSS(display="block", height=x.int("kid.h", 1, 100000)))] if x.bool("child") else []
    root = Node(L, L.CSS(display=x.choice("display", ("block", "list-item")), margin_top=mt, margin_bottom=mb, **st), kids)
    d = Display(x.int("vw", 1, 100000), vh)
    layout(L, d, root, *(() if x.bool("default") else (L.constants.HTML5,)))
    x.observe("root", [root.layout.content_height])
    x.check(root.layout.content_height == vh - mt - mb, "the root's height fills the viewport less its margins")
    x.check(root.layout.border_box_top == mt, "the root starts below its margin")


@harness("a root and its child with one more declaration that has no influence (50 of them), any margins, paddings and heights")
def unrelated(x, L):
    extra = noise(x, without=("position", "display", "direction"))
    vw, vh, mt, mb, ml, pt, kh = (x.int(n, 1, 100000) for n in ("vw", "vh", "mt", "mb", "ml", "pt", "kid.h"))
    std = x.choice("standard", ("default", "html4"))
    kid = Node(L, L.CSS(display="block", height=kh, **extra))
    root = Node(L, L.CSS(display="block", margin_top=mt, margin_bottom=mb, margin_left=ml, padding_top=pt, **extra), [kid])
    layout(L, Display(vw, vh), root, *(() if std == "default" else (L.constants.HTML4,)))
    box = root.layout
    x.observe("root", [box.content_top, box.content_left, box.content_width, box.content_height])
    x.check(x.all(box.border_box_top == mt, box.border_box_left == ml), "the root starts after its margins")
    x.check(ml + box.border_box_width + box.margin_right == vw, "the root's margin box is as wide as the viewport")
    x.check(box.content_height == (kh if std == "html4" else vh - mt - mb), "the root's height is the viewport's, or its content's")


@harness(
    "root > [s, p > [c > [e], d], z]: any of 53 features (margins, paddings, borders, sizes, limits, directions, hidden elements) on the root, "
    "together with any on it, or on its first child (thorough: or others): every part of the root's box, in both standards"
)
def pairs(x, L):
    std = x.choice("standard", (L.constants.HTML4, L.constants.HTML5))
    focus = [f for f in model.F if "relative" not in f]
    if x.tier == "quick":
        focus = [f for f in focus if not f.endswith("%") and f not in ("min-max-width", "width 0", "height min max")]
    others = ("root", "s") if x.tier == "quick" else ("root", "s", "z", "p")
    model.pairs(x, L, focus, ("root",), others, standard=std, second=focus, names=("root",))
