"""C04: the content, padding and border boxes of a node nest consistently."""

from .C16 import TABLE
from .C20 import sample
from .common import Display, Node, layout, registry

HARNESSES, harness = registry()

OUTSIDE = "multiples of 1/64 px are the only fractions; margins have no edge accessors"


def judge(x, box, otop, oleft):
    """Every derived edge and size against the stored geometry and the origin."""
    ct, cl, cw, ch = box.content_top, box.content_left, box.content_width, box.content_height
    pt, pr, pb, pl = box.padding_top, box.padding_right, box.padding_bottom, box.padding_left
    bt, br = box.border_top_width, box.border_right_width
    bb, bl = box.border_bottom_width, box.border_left_width
    want = {
        "content": (ct, cl + cw, ct + ch, cl),
        "padding_box": (ct - pt, cl + cw + pr, ct + ch + pb, cl - pl),
        "border_box": (ct - pt - bt, cl + cw + pr + br, ct + ch + pb + bb, cl - pl - bl),
    }
    for kind, (top, right, bottom, left) in want.items():
        got = [getattr(box, f"{kind}_{side}") for side in ("top", "right", "bottom", "left")]
        x.observe(kind, got)
        x.check(
            x.all(got[0] == top, got[1] == right, got[2] == bottom, got[3] == left),
            f"{kind}: edges relative to the container",
        )
        x.check(
            x.all(
                getattr(box, f"{kind}_width") == right - left,
                getattr(box, f"{kind}_height") == bottom - top,
            ),
            f"{kind}: size is the distance between its edges",
        )
        got = [getattr(box, f"absolute_{kind}_{side}") for side in ("top", "right", "bottom", "left")]
        x.observe("absolute " + kind, got)
        x.check(
            x.all(
                got[0] == otop + top,
                got[1] == oleft + right,
                got[2] == otop + bottom,
                got[3] == oleft + left,
            ),
            f"{kind}: absolute edges are the relative ones moved by the origin",
        )


FIELDS = (
    "content_width",
    "content_height",
    "padding_top",
    "padding_right",
    "padding_bottom",
    "padding_left",
    "border_top_width",
    "border_right_width",
    "border_bottom_width",
    "border_left_width",
)


def stored(x, L, num, also={}):
    leaf = Node(L, L.CSS(**dict({"display": "block"}, **also)))
    mid = Node(L, L.CSS(**dict({"display": "block"}, **also)), [leaf])
    root = Node(L, L.CSS(display="block"), [mid])
    origin = []
    for node in (root, mid):
        t, l = num(f"o{len(origin)}.top", -100000, 100000), num(f"o{len(origin)}.left", -100000, 100000)
        node.layout.content_top, node.layout.content_left = t, l
        origin.append((t, l))
    box = leaf.layout
    for name in FIELDS:
        setattr(box, name, num(name, 0, 100000))
    box.content_top = num("content_top", -100000, 100000)
    box.content_left = num("content_left", -100000, 100000)
    judge(x, box, origin[0][0] + origin[1][0], origin[0][1] + origin[1][1])
    judge(x, mid.layout, origin[0][0], origin[0][1])


@harness("a box two levels below the root, all 12 stored values and the origins arbitrary integers -100000..100000")
def stored_int(x, L):
    stored(x, L, x.int)


@harness("as stored_int with multiples of 1/64")
def stored_frac(x, L):
    stored(x, L, lambda name, lo, hi: x.frac(name, lo, hi, 64))


@harness("as stored_int (1..100000), with each property of the style of the boxes set, one at a time, to each kind of value,")
def styled(x, L):
    p = x.choice("property", tuple(TABLE))
    stored(x, L, lambda name, lo, hi: x.int(name, 1, hi), {p: sample(x, L, p, 0)})


@harness("after a layout of root > block > [block, block] with arbitrary paddings, borders, margins, sizes")
def laid_out(x, L):
    def node(name, kids=(), **kw):
        st = dict(kw)
        for side in ("top", "right", "bottom", "left"):
            st[f"margin_{side}"] = x.int(f"{name}.margin_{side}", 1, 100000)
            st[f"padding_{side}"] = x.int(f"{name}.padding_{side}", 1, 100000)
            st[f"border_{side}_width"] = x.int(f"{name}.border_{side}", 1, 100000)
        return Node(L, L.CSS(display="block", **st), kids)

    a = node("a", height=x.int("a.height", 1, 100000))
    b = node("b", height=x.int("b.height", 1, 100000), width=x.int("b.width", 1, 100000), direction="rtl")
    p = node("p", [a, b])
    root = node("r", [p])
    layout(L, Display(x.int("viewport", 1, 100000), x.int("height", 1, 100000)), root)
    judge(x, root.layout, 0, 0)
    rt, rl = root.layout.content_top, root.layout.content_left
    judge(x, p.layout, rt, rl)
    for n in (a, b):
        judge(x, n.layout, rt + p.layout.content_top, rl + p.layout.content_left)


@harness("inline replaced and non-replaced elements in a block, after layout")
def inline(x, L):
    st = {}
    for side in ("top", "right", "bottom", "left"):
        st[f"margin_{side}"] = x.int(f"margin_{side}", 1, 100000)
        st[f"padding_{side}"] = x.int(f"padding_{side}", 1, 100000)
        st[f"border_{side}_width"] = x.int(f"border_{side}", 1, 100000)
    n = Node(
        L,
        L.CSS(display="inline", **st),
        replaced=x.bool("replaced"),
        width=x.int("width", 1, 100000),
        height=x.int("height", 1, 100000),
    )
    root = Node(L, L.CSS(display="block", padding_left=x.int("root.padding", 1, 100000)), [n])
    layout(L, Display(1000, 600), root)
    judge(x, n.layout, root.layout.content_top, root.layout.content_left)




@harness("a box that was never laid out, or was reset after arbitrary values were stored in it: empty, at its origin")
def fresh(x, L):
    kid = Node(L, L.CSS(display="block"))
    root = Node(L, L.CSS(display="block"), [kid])
    box = (root if x.bool("root") else kid).layout
    if x.bool("used"):
        for i, name in enumerate(FIELDS + ("content_top", "content_left", "margin_top", "margin_right", "margin_bottom", "margin_left")):
            setattr(box, name, x.int(name, -100000, 100000))
        root.layout.reset()
    for name in FIELDS + ("content_top", "content_left", "margin_top", "margin_right", "margin_bottom", "margin_left", "collapse_top", "collapse_bottom",
                          "collapse_left", "collapse_right"):  # fmt: skip
        x.check(getattr(box, name) == 0, f"{name} is 0")
    judge(x, box, 0, 0)
    x.check(box.visible is True and box.dirty is True, "visible and in need of a layout")
