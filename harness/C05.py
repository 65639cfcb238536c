"""C05: absolute positions are the sum of the offsets up the tree, under any history of moves."""

from .C16 import TABLE
from .C20 import sample
from . import model
from .common import big, Display, layout, Node, registry

HARNESSES, harness = registry()

OUTSIDE = "trees deeper than 12 levels; histories longer than stated; children attached without a following layout"


def absolute(x, node, top=0, left=0):
    """Check node's subtree: absolute position = sum of relative ones."""
    box = node.layout
    t, l = top + box.content_top, left + box.content_left
    x.check(
        x.all(box.absolute_content_top == t, box.absolute_content_left == l),
        "absolute position = sum of the offsets of the box and its ancestors",
    )
    x.check(
        x.all(
            box.absolute_content_bottom == t + box.content_height,
            box.absolute_content_right == l + box.content_width,
            box.absolute_border_box_top == t - box.padding_top - box.border_top_width,
            box.absolute_border_box_left == l - box.padding_left - box.border_left_width,
            box.absolute_padding_box_bottom == t + box.content_height + box.padding_bottom,
            box.absolute_padding_box_right == l + box.content_width + box.padding_right,
        ),
        "absolute edges follow the absolute position",
    )
    x.observe("abs", [box.absolute_content_top, box.absolute_content_left])
    for kid in node.children:
        if kid.layout is not None:
            absolute(x, kid, t, l)


def tree(L, shape, nodes, **kw):
    """Nested tuples -> nodes, preorder into nodes."""
    node = Node(L, L.CSS(display="block", **kw))
    nodes.append(node)
    for sub in shape:
        node.add(tree(L, sub, nodes, **kw))
    return node


SHAPES = {
    "chain": (((((),),),),),
    "branches": (((), ()), ((),)),
    "wide": (((), (), (), (), (), ()), (), (), (), (), ()),
}


def edges(x, nodes):
    """Arbitrary paddings, borders and sizes: positions do not depend on them."""
    for i, n in enumerate(nodes):
        for k, name in enumerate(("padding_top", "padding_left", "border_top_width", "border_left_width", "padding_right",
                                  "padding_bottom", "content_width", "content_height")):  # fmt: skip
            setattr(n.layout, name, x.int(f"{name}{i}", 1, 100000))
        n.layout.margin_top = x.int(f"margin_top{i}", 1, 100000)
        n.layout.margin_left = x.int(f"margin_left{i}", *((1, 100000) if i % 2 else (-100000, -1)))


def moves(x, L, shape, steps, num, both):
    nodes = []
    root = tree(L, SHAPES[shape], nodes)
    state = x.choice("state", ("new", "some not visible", "some clean"))
    if state == "some not visible":
        nodes[0].layout.visible = nodes[2].layout.visible = False
    elif state == "some clean":
        root.layout.dirty = False
        nodes[2].layout.dirty = True
    edges(x, nodes)
    for s in range(steps):
        i = x.choice(f"node{s}", tuple(range(len(nodes))))
        box = nodes[i].layout
        top, left = box.content_top, box.content_left
        vertical = both or x.bool(f"vertical{s}")
        if vertical:
            box.content_top = top = num(f"top{s}", -100000, 100000)
        if both or not vertical:
            box.content_left = left = num(f"left{s}", -100000, 100000)
        x.check(x.all(box.content_top == top, box.content_left == left), "the box is where it was put")
        absolute(x, root)


@harness("a chain of 5 boxes: 3 moves (thorough 4), each of any box, to any integer position -100000..100000")
def chain(x, L):
    moves(x, L, "chain", 3 if x.tier == "quick" else 4, lambda n, lo, hi: x.int(n, 1, hi), True)


@harness("root with two branches (6 boxes): 2 moves (thorough 3) of any box, vertically or horizontally, fractions of 1/64")
def branches(x, L):
    moves(x, L, "branches", 2 if x.tier == "quick" else 3, lambda n, lo, hi: x.frac(n, lo, hi, 64), False)


@harness(
    "root > [a > [b, c > [d]], e] with any one or two of a..e not displayed, laid out, then 2 moves (thorough 3) of any "
    "displayed box to any integer position"
)
def some_hidden(x, L):
    kw = dict(display="block", height=9, padding_left=3, padding_top=4, border_left_width=1, border_top_width=2)
    d = Node(L, L.CSS(**kw))
    b, c = Node(L, L.CSS(**kw)), Node(L, L.CSS(**kw), [d])
    a, e = Node(L, L.CSS(**kw), [b, c]), Node(L, L.CSS(**kw))
    root = Node(L, L.CSS(**kw), [a, e])
    names = ("a", "b", "c", "d", "e")
    nodes = dict(zip(names, (a, b, c, d, e)))
    late = x.bool("hidden after a first layout")
    if late:
        layout(L, Display(1000, 600), root)
    for i in range(2):
        nodes[x.choice(f"hidden{i}", names)].style.display = "none"
    layout(L, Display(1000, 600), root)
    absolute(x, root)

    def shown(n):
        return n.layout is not None and (n.parent is None or shown(n.parent))

    boxes = [n for n in (root, a, b, c, d, e) if shown(n)]
    for s in range(2 if x.tier == "quick" else 3):
        box = boxes[x.choice(f"node{s}", tuple(range(len(boxes))))].layout
        box.content_top = x.int(f"top{s}", 1, 100000)
        box.content_left = x.int(f"left{s}", 1, 100000)
        absolute(x, root)


@harness("one box moved three times to arbitrary positions -100000..100000, also back to 0 and to where it was")
def back_and_forth(x, L):
    nodes = []
    root = tree(L, SHAPES["chain"], nodes)
    edges(x, nodes)
    i = x.choice("node", tuple(range(len(nodes))))
    j = x.choice("other", tuple(range(len(nodes))))
    nodes[j].layout.content_left = x.int("left", 1, 100000)
    for s in range(3):
        nodes[i].layout.content_top = x.int(f"top{s}", -100000, 100000)
        nodes[j].layout.content_left += x.int(f"by{s}", 1, 100000)
        absolute(x, root)


def styled(x, L, name, kids=(), **kw):
    st = dict(
        margin_top=x.int(name + ".mt", 1, 100000),
        margin_left=x.int(name + ".ml", 1, 100000),
        padding_top=x.int(name + ".pt", 1, 100000),
        padding_left=x.int(name + ".pl", 1, 100000),
        border_left_width=x.int(name + ".bl", 1, 100000),
        border_top_width=x.int(name + ".bt", 1, 100000),
    )
    st.update(kw)
    return Node(L, L.CSS(display="block", **st), kids)


@harness("layout of root > [block > block > block, block]; any position static or relative; both HTML standards")
def after_layout(x, L):
    kw = {}
    if x.bool("relative"):
        kw = dict(position="relative", left=x.int("left", -100000, 100000), top=x.int("top", -100000, 100000))
    at = x.choice("which", ("a", "b", "c", "d"))
    c = styled(x, L, "c", height=x.int("c.h", 1, 100000), **(kw if at == "c" else {}))
    b = styled(x, L, "b", [c], **(kw if at == "b" else {}))
    a = styled(x, L, "a", [b], **(kw if at == "a" else {}))
    d = styled(x, L, "d", height=5, **(kw if at == "d" else {}))
    root = styled(x, L, "r", [a, d])
    std = x.choice("standard", (L.constants.HTML5, L.constants.HTML4))
    layout(L, Display(1000, 600), root, std)
    absolute(x, root)


@harness(
    "layout, then 2 steps (thorough 3): move a box, change a margin or padding, hide or show a node (with or without a layout), add or remove a "
    "child, or nothing; each followed by a layout or (moves) not; absolute positions checked after each"
)
def histories(x, L):
    c = Node(L, L.CSS(display="block", height=10, margin=3))
    b = Node(L, L.CSS(display="block", padding_top=4, padding_left=3, margin_left=2, border_top_width=1), [c])
    a = Node(L, L.CSS(display="block", margin_top=7, border_left_width=1), [b])
    d = Node(L, L.CSS(display="block", height=6))
    root = Node(L, L.CSS(display="block", margin=5), [a, d])
    display = Display(1000, 600)
    layout(L, display, root)
    absolute(x, root)
    for s in range(2 if x.tier == "quick" else 3):
        op = x.choice(f"op{s}", ("move", "margin", "padding", "hide", "hide later", "add", "remove", "resize"))
        node = x.choice(f"node{s}", (a, b, c))
        v = x.int(f"v{s}", 1, 100000)
        if op == "move":
            if node.layout is not None:
                node.layout.content_top = v
                node.layout.content_left += v
                absolute(x, root)
            continue
        if op == "margin":
            node.style.margin_left = v
            node.style.margin_top = v
        elif op == "padding":
            node.style.padding_top = v
        elif op == "hide":
            node.style.display = "none" if node.style.display == "block" else "block"
        elif op == "hide later":
            # without a layout: the box is still there
            node.style.display = "none" if node.style.display == "block" else "block"
            absolute(x, root)
            continue
        elif op == "add":
            node.add(Node(L, L.CSS(display="block", height=v, margin_left=v)))
        elif op == "remove":
            del node.children[:1]
        else:
            display.content_width = v
        layout(L, display, root)
        absolute(x, root)


@harness(
    "a block with any 0..4 children, laid out; then children put in or taken out at either end, exchanged, replaced or given to another block, and a "
    "layout, once or twice; then a move of the block to any position"
)
def other_children(x, L):
    kid = lambda: Node(L, L.CSS(display="block", height=9, margin_left=4, padding_top=2))  # noqa: E731
    a = Node(L, L.CSS(display="block", padding_top=4, padding_left=3), [kid() for _ in range(x.choice("kids", (0, 1, 2, 3, 4)))])
    b = Node(L, L.CSS(display="block", border_top_width=1), [kid(), kid()])
    root = Node(L, L.CSS(display="block", margin=5), [a, b])
    display = Display(1000, 600)
    layout(L, display, root)
    for s in range(2):
        how = x.choice(f"how{s}", ("last", "first", "no last", "no first", "exchange", "replace", "give", "take"))
        if how in ("last", "first"):
            new = kid()
            a.add(new)
            if how == "first":
                a.children.insert(0, a.children.pop())
        elif how == "no last":
            del a.children[-1:]
        elif how == "no first":
            del a.children[:1]
        elif how == "exchange":
            a.children.reverse()
        elif how == "replace":
            n = len(a.children)
            a.children.clear()
            for _ in range(n):
                a.add(kid())
        elif how == "give":
            for k in a.children[:1]:
                a.children.remove(k)
                b.add(k)
        else:
            k = b.children.pop()
            a.add(k)
        layout(L, display, root)
        absolute(x, root)
        if s == 0 and x.bool("once"):
            break
    box = x.choice("which", (a, b, root)).layout
    box.content_top = x.int("top", 1, 100000)
    box.content_left = x.int("left", 1, 100000)
    absolute(x, root)


@harness("root with 6 children, the first of which has 6 as well (13 boxes): one move (thorough 2) of the root or the first or last child")
def wide(x, L):
    nodes = []
    root = tree(L, SHAPES["wide"], nodes)
    edges(x, nodes)
    for s in range(1 if x.tier == "quick" else 2):
        box = nodes[x.choice(f"node{s}", (0, 1, 12))].layout
        box.content_top = x.int(f"top{s}", -100000, 100000)
        box.content_left = x.int(f"left{s}", -100000, 100000)
        absolute(x, root)


@harness("30 boxes, 18 of them siblings, 11 levels below the last: one move of the root, a sibling or a box of each depth to any integer position")
def large(x, L):
    nodes = big(L, lambda i: {})
    box = nodes[x.choice("node", (0, 1, 10, 18, 19, 21, 24, 27, 29))].layout
    box.content_top = x.int("top", -100000, 100000)
    box.content_left = x.int("left", -100000, 100000)
    absolute(x, nodes[0])
    nodes[0].layout.content_top = x.int("root", -100000, 100000)
    absolute(x, nodes[0])


@harness("a chain of 4 boxes, one of them with any one property of its style set to each kind of value: one move of any box to any integer position")
def with_property(x, L):
    p = x.choice("property", tuple(TABLE))
    which = x.choice("which", (1,) if x.tier == "quick" else (1, 2))
    node, nodes = None, []
    for i in range(4):
        also = {p: sample(x, L, p, 0)} if i == which else {}
        node = Node(L, L.CSS(**dict({"display": "block"}, **also)), [node] if node else [])
        nodes.insert(0, node)
    box = nodes[x.choice("node", (0, 2) if x.tier == "quick" else (0, 1, 2, 3))].layout
    axis = x.choice("axis", ("top", "left"))
    setattr(box, f"content_{axis}", x.int("to", 1, 100000))
    total = 0
    for n in nodes:
        total = total + getattr(n.layout, f"content_{axis}")
        x.check(getattr(n.layout, f"absolute_content_{axis}") == total, "the sum of all offsets")
    absolute(x, nodes[0])


@harness(
    "layout of root > [s, p > [c > [e], d], z] with any of 53 features on p and some other one on p, its parent or child, then a move of any box to "
    "any position: absolute positions after both"
)
def pairs(x, L):
    nodes = model.tree()
    model.put(x, nodes, 0, model.F, ("p",))
    more = ("margin-top", "padding-left", "border-top-width", "relative all", "offsets", "hidden first", "rtl", "height", "width")
    model.put(x, nodes, 1, more, ("p", "root", "c"))
    root = nodes["root"].build(L)
    layout(L, model.screen(x), root)
    absolute(x, root)
    if x.tier != "quick":
        box = nodes[x.choice("moved", ("root", "p", "c"))].node.layout
        box.content_top = x.int("to top", 1, 100000)
        box.content_left = x.int("to left", 1, 100000)
        absolute(x, root)
