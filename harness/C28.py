"""C28: what the engine cannot lay out is refused, not laid out wrongly."""

from . import model
from .common import Display, Node, layout, registry

HARNESSES, harness = registry()

OUTSIDE = (
    "the state of the boxes after a refusal, beyond that a later layout without the unsupported element is right; "
    "inline elements among block siblings, tables and table parts, lists of inline elements, which have no rule yet"
)

UNSUPPORTED = {
    "float left": dict(float="left"),
    "float right": dict(float="right"),
    "absolute": dict(position="absolute"),
    "fixed": dict(position="fixed"),
    "inline block": dict(display="inline-block"),
    "absolute float": dict(position="absolute", float="left"),
    "fixed inline": dict(position="fixed", display="inline"),
    "float inline": dict(float="right", display="inline"),
    "absolute inline block": dict(position="absolute", display="inline-block"),
}


def refused(fn):
    try:
        fn()
    except NotImplementedError:
        return True
    return False


def build(x, L, extra, where, replaced=False, kid=False):
    """A tree with one special node; returns (root, special)."""
    size = {"width": x.int("iw", 1, 500), "height": x.int("ih", 1, 500)} if replaced or x.bool("sized") else {}
    style = dict(display="block", width=x.int("w", 1, 5000), height=x.int("h", 1, 5000), margin_left=x.int("ml", 1, 500))
    style.update(extra)
    kids = [Node(L, L.CSS(display="block", height=3))] if kid else []
    node = Node(L, L.CSS(**style), kids, replaced=replaced, **size)
    other = Node(L, L.CSS(display="block", height=7))
    if where == "root":
        return node, node
    if where == "only child":
        return Node(L, L.CSS(display="block"), [node]), node
    if where == "first":
        return Node(L, L.CSS(display="block"), [node, other]), node
    if where == "last":
        return Node(L, L.CSS(display="block"), [other, node]), node
    inner = Node(L, L.CSS(display="block", padding_top=2), [node])
    return Node(L, L.CSS(display="block"), [other, inner]), node


@harness(
    "a floating, absolutely or fixed positioned or inline block element of any size, replaced or not, as the root, an only, "
    "first, last or nested child: NotImplementedError; with display none it is laid out without it; put back to a "
    "plain block, the layout is that of a fresh tree"
)
def schemes(x, L):
    kind = x.choice("kind", tuple(UNSUPPORTED))
    where = x.choice("where", ("root", "only child", "first", "last", "nested"))
    extra = UNSUPPORTED[kind]
    # an inline element in a block with block siblings has no rule at all
    x.assume(where in ("root", "only child", "nested") or "display" not in extra)
    replaced = x.bool("replaced")
    root, node = build(x, L, extra, where, replaced, kid=not replaced and x.bool("kid"))
    std = x.choice("standard", (L.constants.HTML5, L.constants.HTML4))
    d = Display(x.int("vw", 0, 100000), x.int("vh", 0, 100000))
    x.check(refused(lambda: layout(L, d, root, std)), "refused")
    then = x.choice("then", ("again", "hide", "plain"))
    if then == "again":
        x.check(refused(lambda: layout(L, d, root, std)), "refused again")
    elif then == "hide":
        node.style.display = "none"
        layout(L, d, root, std)
        x.check(node.layout is None, "hidden, it does not matter")
        if where in ("first", "last"):
            kids = [k for k in root.children if k is not node]
            x.check(kids[0].layout.content_top == 0, "and takes no room")
    else:
        x.assume(not replaced)
        for p in ("float", "position"):
            del node.style[p]
        node.style.display = "block"
        layout(L, d, root, std)
        fresh, same = build_again(L, root, node)
        layout(L, d, fresh, std)
        a, b = node.layout, same.layout
        x.check(
            x.all(
                a.content_top == b.content_top,
                a.content_left == b.content_left,
                a.content_width == b.content_width,
                a.content_height == b.content_height,
                a.absolute_content_top == b.absolute_content_top,
            ),
            "as a plain block it is laid out as in a fresh tree",
        )


def build_again(L, root, node):
    found = []

    def copy(n):
        new = Node(L, n.style, [copy(k) for k in n.children], width=n.intrinsic.width, height=n.intrinsic.height)
        if n is node:
            found.append(new)
        return new

    return copy(root), found[0]


@harness("a replaced block or list item of any intrinsic size, anywhere: NotImplementedError; as an inline element it is laid out")
def replaced_blocks(x, L):
    where = x.choice("where", ("root", "only child", "first", "last", "nested"))
    kw = dict(display=x.choice("display", ("block", "list-item")))
    if x.bool("relative"):
        kw["position"] = "relative"
    root, node = build(x, L, kw, where, replaced=True)
    d = Display(x.int("vw", 0, 100000), x.int("vh", 0, 100000))
    x.check(refused(lambda: layout(L, d, root)), "refused")
    if where in ("root", "only child", "nested"):
        node.style.display = "inline"
        layout(L, d, root)
        x.check(node.layout.content_width == node.style.width.val, "inline, it is laid out")


@harness(
    "root > [s, p > [c > [e], d], z] with any of 53 features on p, and a floating, absolutely or fixed positioned element, with or without content: "
    "refused, twice; as a plain block again: laid out as the reference model says"
)
def pairs(x, L):
    name, value = x.choice("kind", (("float", "left"), ("float", "right"), ("position", "absolute"), ("position", "fixed")))
    nodes = model.tree()
    model.put(x, nodes, 0, model.F, ("p",))
    model.settle(x, nodes)
    root = nodes["root"].build(L)
    where = nodes[x.choice("where", ("p", "c", "e", "s", "d"))]
    was = where.node.style[name]
    where.node.style[name] = value
    d = model.screen(x)
    for i in range(2):
        x.check(refused(lambda: layout(L, d, root, L.constants.HTML4)), "refused")
    where.node.style[name] = was
    layout(L, d, root, L.constants.HTML4)
    model.compare(x, L, nodes, d)
