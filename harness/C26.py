"""C26: thin, medium and thick borders have the widths the display gives them, and border widths always enter the layout as given."""

from . import model
from .common import Display, Node, layout, noise, registry

HARNESSES, harness = registry()

OUTSIDE = "outlines, which take no space; border styles do not influence the used width in this library"

SIDES = ("top", "right", "bottom", "left")
WORDS = ("thin", "medium", "thick")


def display(x, w=None):
    sizes = [x.int("thin", 0, 5000), x.frac("medium", 0, 50, 64), x.frac("thick", 0, 50, 64)]
    return Display(w or x.int("vw", 1, 100000), x.int("vh", 1, 100000), thin=sizes[0], medium=sizes[1], thick=sizes[2])


def width(x, name, kinds=WORDS + ("px",)):
    """(value to assign, expected pixels given the display)."""
    k = x.choice(name + ".kind", kinds)
    if k == "px":
        n = x.int(name, 1, 5000)
        return n, lambda d: n
    return k, lambda d: d.fixed_size(k)


def judge(x, d, box, want):
    got = [getattr(box, f"border_{s}_width") for s in SIDES]
    x.observe("borders", got)
    for g, w, s in zip(got, want, SIDES):
        x.check(g == w, f"border-{s} is as wide as the display says, or as given")
    x.check(box.border_box_width == want[1] + want[3] + box.content_width + box.padding_left + box.padding_right, "the border box includes it")
    x.check(box.border_box_height == want[0] + want[2] + box.content_height + box.padding_top + box.padding_bottom, "vertically as well")
    x.check(box.content_left == box.margin_left + want[3] + box.padding_left, "the content starts after it")


@harness("a root, child or grandchild block: each of its four borders thin, medium, thick or any px 1..5000, on a display of any size with any three widths 0..5000 or multiples of 1/64")
def block(x, L):
    ws = [width(x, s) for s in SIDES]
    d = display(x)
    node = Node(L, L.CSS(display="block", height=9, padding_left=3, **{f"border_{s}_width": w[0] for s, w in zip(SIDES, ws)}))
    where = x.choice("where", ("root", "child", "grandchild"))
    root = node
    for i in range({"root": 0, "child": 1, "grandchild": 2}[where]):
        root = Node(L, L.CSS(display="block", padding_top=2), [root])
    layout(L, d, root, L.constants.HTML4)
    judge(x, d, node.layout, [w[1](d) for w in ws])


@harness("as block for an inline element, replaced or not")
def inline(x, L):
    ws = [width(x, s, ("thin", "thick", "px")) for s in SIDES]
    d = display(x)
    node = Node(L, L.CSS(display="inline", **{f"border_{s}_width": w[0] for s, w in zip(SIDES, ws)}), replaced=x.bool("replaced"), width=40, height=x.int("h", 1, 300))
    layout(L, d, Node(L, L.CSS(display="block"), [node]))
    judge(x, d, node.layout, [w[1](d) for w in ws])


@harness("all four set at once by border-width (1..4 values) or border or a side's shorthand")
def shorthand(x, L):
    d = display(x)
    a, b = width(x, "a"), width(x, "b", ("thin", "px"))
    how = x.choice("how", ("width", "tuple", "border", "side"))
    st = L.CSS(display="block", height=9)
    pa, pb = a[1](d), b[1](d)
    if how == "width":
        st.border_width = a[0]
        want = [pa] * 4
    elif how == "tuple":
        st.border_width = (a[0], b[0])
        want = [pa, pb, pa, pb]
    elif how == "border":
        st.border = ("solid", a[0])
        want = [pa] * 4
    else:
        st.border_bottom = (a[0], "dotted")
        st.border_left = (b[0], "red")
        want = [0, 0, pa, pb]
    node = Node(L, st)
    layout(L, d, Node(L, L.CSS(display="block"), [node]), x.choice("standard", (L.constants.HTML4, L.constants.HTML5)))
    judge(x, d, node.layout, want)


@harness("the same tree laid out on two displays with different widths, and again on the first: each time the display's own")
def displays(x, L):
    w = x.choice("word", WORDS)
    side = x.choice("side", SIDES)
    node = Node(L, L.CSS(display="block", height=9, **{f"border_{side}_width": w}))
    root = Node(L, L.CSS(display="block"), [node])
    sizes = [x.int("one", 0, 5000), x.int("two", 0, 5000)]
    for k in (0, 1, 0):
        d = Display(1000, 700, **{w: sizes[k]})
        layout(L, d, root)
        judge(x, d, node.layout, [sizes[k] if s == side else 0 for s in SIDES])


@harness("an unset or zero border takes no space, whatever the display's widths and the border's style and color")
def none(x, L):
    d = display(x)
    st = L.CSS(display="block", height=9, border_style=x.choice("style", ("solid", "none", "double")), border_color="red")
    zero = x.choice("zero", ("unset", 0, "0px", "0", "0mm"))
    if zero != "unset":
        st.border_width = zero
    node = Node(L, st)
    layout(L, d, Node(L, L.CSS(display="block"), [node]))
    judge(x, d, node.layout, [0, 0, 0, 0])


@harness("a border of any word or width on any side, with one more declaration that has no influence (60 of them): on the block, or on its parent too")
def unrelated(x, L):
    extra = noise(x)
    side = x.choice("side", SIDES)
    w = width(x, "w", ("thin", "thick", "px"))
    d = display(x)
    node = Node(L, L.CSS(**dict({"display": "block", "height": 9, "padding_left": 3, f"border_{side}_width": w[0]}, **extra)))
    root = Node(L, L.CSS(**dict({"display": "block", "padding_top": 1}, **(extra if x.bool("both") else {}))), [node])
    layout(L, d, root)
    if extra.get("position") or extra.get("left") or extra.get("direction"):
        x.check(getattr(node.layout, f"border_{side}_width") == w[1](d), "as wide as the display says, or as given")
        return
    judge(x, d, node.layout, [w[1](d) if s == side else 0 for s in SIDES])


@harness(
    "root > [s, p > [c > [e], d], z]: borders of given and of fixed widths on p (thorough: or c, or the root), together with any of 53 features "
    "(margins, paddings, borders, sizes, limits, directions, positions, hidden elements) on it, its parent, child or sibling: every part of every box"
)
def pairs(x, L):
    focus = [f for f in model.F if "border" in f]
    model.pairs(x, L, focus, ("p",) if x.tier == "quick" else ("p", "c", "root"), parts=model.ACROSS + model.DOWN)
