"""C06: the layout is a function of the tree, its styles and the display only."""

from . import model
from .common import big, Display, layout, Node, registry

HARNESSES, harness = registry()

OUTSIDE = "the tree shapes and style changes listed; display:none histories (C07)"

NAMES = (
    "visible",
    "content_top",
    "content_left",
    "content_width",
    "content_height",
    "margin_top",
    "margin_right",
    "margin_bottom",
    "margin_left",
    "padding_top",
    "padding_right",
    "padding_bottom",
    "padding_left",
    "border_top_width",
    "border_right_width",
    "border_bottom_width",
    "border_left_width",
    "collapse_top",
    "collapse_bottom",
    "absolute_content_top",
    "absolute_content_left",
    "absolute_border_box_bottom",
    "absolute_border_box_right",
)


def shot(nodes):
    return [None if n.layout is None else [getattr(n.layout, a) for a in NAMES] for n in nodes]


def styles_of(node):
    return {k: getattr(node.style, k) for k in sorted(node.style.keys())}


def same_styles(x, a, b):
    if a.keys() != b.keys():
        return False
    return x.all([True] + [x.eq(a[k], b[k]) for k in a])


# the values a node may carry: everything the block engine reads
def values(x, name, lo=1):
    return {
        "margin_top": x.int(name + ".mt", lo, 100000),
        "margin_bottom": x.int(name + ".mb", lo, 100000),
        "margin_left": x.int(name + ".ml", lo, 100000),
        "padding_top": x.int(name + ".pt", 1, 100000),
        "padding_left": x.int(name + ".pl", 1, 100000),
        "border_bottom_width": x.int(name + ".bb", 1, 100000),
    }


def tree(L, sa, sb, sc, sr, inline=False):
    if inline:
        a = Node(L, L.CSS(**sa), replaced=True, width=70, ratio=2)
        b = Node(L, L.CSS(**sb), width=40, height=20)
        c = Node(L, L.CSS(display="block", **sc), [a, b])
        root = Node(L, L.CSS(display="block", **sr), [c])
        return [root, c, a, b]
    a = Node(L, L.CSS(display="block", **sa))
    b = Node(L, L.CSS(display="block", **sb))
    c = Node(L, L.CSS(display="block", **sc), [a])
    root = Node(L, L.CSS(display="block", **sr), [c, b])
    return [root, c, a, b]


@harness("root > [block > block, block] or inline content; two (thorough 3) layouts of the same tree in a row")
def repeated(x, L):
    inline = x.bool("inline")
    sa, sb, sc = values(x, "a", 0 if x.tier == "thorough" else 1), values(x, "b"), values(x, "c")
    sa["height"] = x.int("a.h", 1, 100000)
    if x.bool("relative"):
        who = x.choice("who", (sa, sb, sc))
        who["position"] = "relative"
        who["left"] = x.int("left", -100000, 100000)
        who["top"] = x.int("top", -100000, 100000)
    if x.bool("auto"):
        sb["margin_left"] = "auto"
        sb["width"] = "50%"
    nodes = tree(L, sa, sb, sc, values(x, "r"), inline)
    display = Display(x.int("vw", 1, 100000), x.int("vh", 1, 100000))
    std = x.choice("standard", (L.constants.HTML5, L.constants.HTML4))
    before = [styles_of(n) for n in nodes]
    intrinsic = [(n.intrinsic.width, n.intrinsic.height, n.intrinsic.ratio, n.intrinsic.is_replaced) for n in nodes]
    layout(L, display, nodes[0], std)
    first = shot(nodes)
    x.observe("first", first)
    for i in range(1 if x.tier == "quick" else 2):
        layout(L, display, nodes[0], std)
        x.check(x.eq(first, shot(nodes)), "laying out again changes nothing")
    x.check(
        x.all([same_styles(x, s, styles_of(n)) for s, n in zip(before, nodes)]),
        "layout leaves every style as it was",
    )
    x.check(
        x.eq(
            intrinsic,
            [(n.intrinsic.width, n.intrinsic.height, n.intrinsic.ratio, n.intrinsic.is_replaced) for n in nodes],
        ),
        "layout leaves the intrinsic sizes as they were",
    )


CHANGES = ("margin_top", "margin_left", "padding_left", "border_bottom_width", "height", "width", "position", "direction")


def apply(node, prop, v):
    if prop == "position":
        node.style.position = "relative"
        node.style.left = v
        node.style.top = v
    elif prop == "direction":
        node.style.direction = "rtl"
        node.style.width = v
    else:
        setattr(node.style, prop, v)


@harness(
    "root > [block > block, block]: layout, 2 style changes of any node (thorough: and a third of two of them) with layouts in between or not, "
    "layout; compared with a fresh tree that has the final styles"
)
def edits(x, L):
    base = dict(margin_top=5, padding_left=3, height=20)
    old = tree(L, dict(base), dict(margin_left=4, height=9), dict(margin_top=11), {})
    new = tree(L, dict(base), dict(margin_left=4, height=9), dict(margin_top=11), {})
    display = Display(800, 600)
    layout(L, display, old[0])
    between = x.bool("layouts in between")
    for s in range(2 if x.tier == "quick" else 3):
        i = x.choice(f"node{s}", (0, 1, 2, 3) if s < 2 else (1, 2))
        prop = x.choice(f"prop{s}", CHANGES if s < 2 else ("margin_top", "width", "position"))
        v = x.int(f"v{s}", 1, 100000)
        apply(old[i], prop, v)
        apply(new[i], prop, v)
        if between:
            layout(L, display, old[0])
    layout(L, display, old[0])
    layout(L, display, new[0])
    x.observe("new", shot(new))
    x.check(x.eq(shot(old), shot(new)), "the layout does not depend on earlier styles or layouts")


@harness("a style set, laid out, then reset to its earlier value (or deleted), for each property the engine reads")
def undo(x, L):
    def build():
        return tree(L, dict(height=20, margin=4), dict(height=9), dict(padding_top=2), dict(margin_top=1))

    nodes, fresh = build(), build()
    display = Display(700, 500)
    layout(L, display, nodes[0])
    i = x.choice("node", (0, 1, 2, 3))
    props = CHANGES + ("margin_bottom", "margin_right", "padding_top", "min_height", "max_height", "min_width", "border_top_width")
    prop = x.choice("prop", props)
    v = x.int("v", 0, 100000)
    had = {k: getattr(nodes[i].style, k) for k in nodes[i].style.keys()}
    apply(nodes[i], prop, v)
    layout(L, display, nodes[0])
    for k in set(nodes[i].style.keys()):
        if k in had:
            nodes[i].style[k] = had[k]
        else:
            del nodes[i].style[k]
    layout(L, display, nodes[0])
    layout(L, display, fresh[0])
    x.check(x.eq(shot(nodes), shot(fresh)), "undoing a change restores the layout")


@harness("the display resized to any width/height and back, other trees laid out in between, children moved about")
def surroundings(x, L):
    def build():
        return tree(
            L,
            dict(margin_left="25%", height=x_h, width="50%", padding_top=6 * L.units.pt, padding_left=2 * L.units.vw),
            dict(height=5, margin_top=x_m, border_left_width="thin", width=1 * L.units.inch, padding_bottom=1 * L.units.vmin),
            dict(margin_left=x_m),
            {},
        )

    x_h, x_m = x.int("h", 1, 100000), x.int("m", 1, 100000)
    nodes, fresh = build(), build()
    w, h = x.int("vw", 1, 100000), x.int("vh", 1, 100000)
    display = Display(w, h)
    step = x.choice("step", ("resize", "other", "restructure", "boxes"))
    layout(L, display, nodes[0])
    if step == "resize":
        display.content_width = 333
        display.content_height = 77
        layout(L, display, nodes[0])
        display.content_width, display.content_height = w, h
    elif step == "other":
        other = build()
        layout(L, Display(123, 45, dpi=72, thin=3), other[0])
        other[0].layout.content_left = 77
    elif step == "restructure":
        root, c, a, b = nodes
        c.children.remove(a)
        root.add(a)
        layout(L, display, root)
        root.children.remove(a)
        c.add(a)
    else:
        for n in nodes:
            n.layout.content_top = 13
            n.layout.content_left += 4
            n.layout.content_height = 99
            n.layout.visible = False
            n.layout.margin_bottom = 55
            n.layout.padding_left = 3
    layout(L, display, nodes[0])
    layout(L, display, fresh[0])
    x.observe("fresh", shot(fresh))
    x.check(x.eq(shot(nodes), shot(fresh)), "the layout depends only on tree, styles and display")


def mark(x, nodes, name):
    """As a host does after drawing: boxes marked valid, being evaluated or invalid; all, or one only."""
    value = x.choice(name, (False, None, True))
    if x.bool(name + " all"):
        nodes[0].layout.dirty = value
    else:
        nodes[x.choice(name + " node", (0, 1, 2, 3))].layout.dirty = value


@harness(
    "root > [block > block, block] or inline content: laid out, boxes marked valid, invalid or being evaluated (all or any one), then "
    "nothing, a style change, an intrinsic size, another display, a child moved or added, and marked again or not; layout; compared with a fresh tree"
)
def marks(x, L):
    inline = x.bool("inline")
    m, h, v = x.int("m", 1, 100000), x.int("h", 1, 100000), x.int("v", 1, 100000)

    def build():
        one = dict(height=h, margin_left=m, padding_left=9 * L.units.pt, margin_bottom=1 * L.units.vh)
        two = dict(margin_left="10%", padding_top=m, border_top_width="medium")
        return tree(L, one, two, dict(padding_top=m), {}, inline)

    nodes, fresh = build(), build()
    one, two = Display(800, 600), Display(x.int("vw", 1, 100000), 321, dpi=72, medium=2)
    display = one
    layout(L, display, nodes[0])
    mark(x, nodes, "mark")
    what = x.choice("what", ("nothing", "style", "intrinsic", "display", "move", "add", "boxes"))
    if what == "style":
        i, prop = x.choice("node", (0, 1, 2, 3)), x.choice("prop", ("margin_top", "padding_left", "width"))
        for t in (nodes, fresh):
            setattr(t[i].style, prop, v)
    elif what == "intrinsic":
        for t in (nodes, fresh):
            t[2].intrinsic.width = v
            t[3].intrinsic.height = v
    elif what == "display":
        display = two
    elif what == "move":
        for t in (nodes, fresh):
            t[1].children.remove(t[2])
            t[1].add(t[2])
    elif what == "add":
        for t in (nodes, fresh):
            t[0].children.insert(0, Node(L, L.CSS(display="block", height=v)))
            t[0].children[0].parent = t[0]
    elif what == "boxes":
        for n in nodes:
            n.layout.content_top = v
            n.layout.content_left += 4
            n.layout.margin_bottom = 55
        nodes[x.choice("not visible", (0, 1, 3))].layout.visible = False
    if x.bool("again"):
        nodes[0].layout.dirty = False
    layout(L, display, nodes[0])
    layout(L, display, fresh[0])
    x.observe("fresh", shot(fresh))
    x.check(x.eq(shot(nodes), shot(fresh)), "whatever the boxes were marked, the layout is that of a fresh tree")
    layout(L, display, nodes[0])
    x.check(x.eq(shot(nodes), shot(fresh)), "and stays")


@harness("30 boxes, 18 of them siblings, 11 levels below the last: laid out, one height, margin or padding of any of 8 of them changed, laid out twice: as a fresh tree")
def large(x, L):
    at = x.choice("at", (0, 2, 8, 12, 17, 19, 25, 29))
    prop = x.choice("property", ("height", "margin_top", "padding_left"))
    v = x.int("v", 1, 100000)

    def build(changed):
        def make(i):
            st = dict(margin_top=2 + i, margin_bottom=3, padding_left=1)
            if i in (2, 5, 29):
                st["height"] = 7 + i
            if changed and i == at:
                st[prop] = v
            return st

        return big(L, make)

    d = Display(4000, x.int("vh", 1, 100000))
    old, new = build(False), build(True)
    layout(L, d, old[0])
    old[at].style[prop] = v
    layout(L, d, old[0])
    layout(L, d, new[0])
    x.check(x.eq(shot(old), shot(new)), "as a fresh tree")
    first = shot(old)
    layout(L, d, old[0])
    x.check(x.eq(first, shot(old)), "laying out again changes nothing")


@harness(
    "root > [s, p > [c > [e], d], z] laid out with any of 53 features on p (thorough: or c), which is then taken away and another one put on p, c "
    "or the root: the next layout, on a display of any other width, is that of the reference model, and so is one more"
)
def pairs(x, L):
    nodes = model.tree()
    before = {n: dict(m.style) for n, m in nodes.items()}
    features = [f for f in model.F if not f.startswith("hidden")]
    _, place = model.put(x, nodes, 0, features, ("p",) if x.tier == "quick" else ("p", "c"))
    root = nodes["root"].build(L)
    layout(L, model.screen(x, "first viewport"), root)
    style, old = nodes[place].node.style, nodes[place].style
    for k in old:
        if k in before[place]:
            style[k] = before[place][k]
        elif k == "display":
            style[k] = "block"
        else:
            del style[k]
    nodes[place].style = before[place]
    others = {n: dict(m.style) for n, m in nodes.items()}
    _, place = model.put(x, nodes, 1, features, ("p",) if x.tier == "quick" else ("p", "c", "root"))
    model.settle(x, nodes)
    for k, v in nodes[place].style.items():
        if k not in others[place] or v is not others[place][k]:
            nodes[place].node.style[k] = f"{v[1]}%" if isinstance(v, tuple) else v
    d = model.screen(x)
    for i in range(1 if x.tier == "quick" else 2):
        layout(L, d, root, L.constants.HTML4)
        model.compare(x, L, nodes, d)
