"""C21: whatever changes what the layout depends on marks the node and everything below it as needing layout."""

from . import styles
from .C16 import TABLE
from .C20 import sample
from .common import big, Display, layout, Node, registry

HARNESSES, harness = registry()

OUTSIDE = (
    "whether setting an equal color, border spacing or cursor (types without equality) marks the node; the state of a node "
    "below one already marked that the host itself marked as valid; trees beyond the listed one"
)


def tree(L, **kw):
    """root > [a > [b > c, d], e]; all valid."""
    c, d, e = (Node(L, L.CSS(display="block")) for i in range(3))
    b = Node(L, L.CSS(display="block"), [c])
    a = Node(L, L.CSS(display="block", **kw), [b, d])
    root = Node(L, L.CSS(display="block"), [a, e])
    nodes = {"root": root, "a": a, "b": b, "c": c, "d": d, "e": e}
    return nodes


BELOW = {"root": "root a b c d e", "a": "a b c d", "b": "b c", "c": "c", "d": "d", "e": "e"}


def settle(nodes, value=False):
    for n in nodes.values():
        if n.layout is not None:
            n.layout.dirty = value


def judge(x, nodes, marked, before=False):
    for name, n in nodes.items():
        if n.layout is None:
            continue
        if name in marked:
            x.check(n.layout.dirty is True, "the node and all below it need layout")
        else:
            x.check(n.layout.dirty is before, "other nodes are as valid as before")
    for name, n in nodes.items():
        if n.layout is not None:
            x.check(n.style.dirty is n.layout.dirty, "the style tells the same")
            x.check(n.intrinsic.dirty is n.layout.dirty, "the intrinsic size tells the same")


SHORT = ("margin", "padding", "border_width", "border_style", "border_color", "border", "border_top", "border_left", "outline")


@harness("each property, unset or holding a value, set to any other value by attribute, item or update, on any of 3 nodes of a tree of 6")
def set_property(x, L):
    p = x.choice("property", tuple(TABLE))
    where = x.choice("where", ("a", "c", "root"))
    nodes = tree(L)
    st = nodes[where].style
    held = x.bool("held")
    if held:
        setattr(st, p, sample(x, L, p, 0))
    old = getattr(st, p)
    settle(nodes, x.choice("state", (False, None)))
    state = nodes["root"].layout.dirty
    v = sample(x, L, p, 1)
    way = x.choice("way", ("attribute", "dashed", "update"))
    if way == "attribute":
        setattr(st, p, v)
    elif way == "dashed":
        st[p.replace("_", "-")] = v
    else:
        st.update(**{p: v})
    new = getattr(st, p)
    loose = hasattr(new, "r") or hasattr(new, "horizontal") or p == "cursor"
    if loose and not (hasattr(new, "r") and not hasattr(old, "r")):
        return
    if x.eq(new, old):
        if held or p != "text_align":  # an unset text-align follows the direction: setting it is a change
            x.cover("same")
            judge(x, nodes, (), state)
    else:
        x.cover("changed")
        judge(x, nodes, BELOW[where].split(), state)


@harness("a declaration that belongs to no node: any property set, set again and deleted; it has no mark to tell")
def free(x, L):
    p = x.choice("property", tuple(TABLE))
    st = L.CSS()
    x.check(st.dirty is None, "nothing to tell")
    setattr(st, p, sample(x, L, p, 0))
    st[p.replace("_", "-")] = sample(x, L, p, 1)
    delattr(st, p)
    st.dirty = True
    x.check(st.dirty is None, "nothing to tell")


@harness("each property and shorthand, set and then deleted by any way: marks; deleted when not set: does not")
def delete(x, L):
    p = x.choice("property", tuple(TABLE) + SHORT)
    where = x.choice("where", ("a", "c"))
    nodes = tree(L)
    st = nodes[where].style
    held = x.bool("held")
    if held and p != "display":
        base = {"margin": "margin_top", "padding": "padding_left", "border_width": "border_right_width", "border": "border_left_color",
                "border_style": "border_top_style", "border_color": "border_left_color", "border_top": "border_top_style",
                "border_left": "border_left_width", "outline": "outline_width"}.get(p, p)  # fmt: skip
        words, kinds, init = TABLE[base]
        v = sample(x, L, base, 0)
        setattr(st, base, v)
        x.assume(base in st.keys())
    state = x.choice("state", (False, None))
    settle(nodes, state)
    way = x.choice("way", ("attribute", "item", "update"))
    if way == "attribute":
        delattr(st, p)
    elif way == "item":
        del st[p]
    else:
        st.update(**{p: None})
    if held or p == "display":
        judge(x, nodes, BELOW[where].split(), state)
    elif p not in SHORT:  # deleting an unset shorthand may mark or not
        judge(x, nodes, (), state)


@harness("intrinsic width, height, ratio (any numbers or none), exactness: changed or set again, the others set or not, on any node")
def intrinsic(x, L):
    nodes = tree(L)
    where = x.choice("where", tuple(BELOW))
    size = nodes[where].intrinsic
    name = x.choice("fact", ("width", "height", "ratio", "exact_width", "exact_height", "is_replaced"))
    if name.startswith("exact") or name == "is_replaced":
        a, b = x.bool("a"), x.bool("b")
    else:
        den = (8,) if x.bool("fractions") else ()
        number = x.frac if den else x.int
        a = None if x.bool("a none") else number("a", 0, 5000, *den)
        b = None if x.bool("b none") else number("b", 0, 5000, *den)
    others = x.choice("others", ("none", "sizes", "all"))
    if others != "none":
        size.width, size.height = 11, 12
    if others == "all":
        size.ratio, size.is_replaced = 0.5, True
    setattr(size, name, a)
    settle(nodes)
    setattr(size, name, b)
    x.check(x.eq(getattr(size, name), b), "read back")
    if x.eq(a, b):
        judge(x, nodes, ())
    else:
        judge(x, nodes, BELOW[where].split())


@harness("two changes at any two nodes, settled in between or not: the union is marked; then settled at the root, and a third")
def several(x, L):
    nodes = tree(L)
    settle(nodes)
    marked = set()
    for i in range(2):
        where = x.choice(f"where{i}", tuple(BELOW))
        if x.bool(f"style{i}"):
            nodes[where].style.width = x.int(f"w{i}", 1000 * i + 1, 1000 * i + 500)
        else:
            nodes[where].intrinsic.height = x.int(f"h{i}", 1000 * i + 1, 1000 * i + 500)
        marked |= set(BELOW[where].split())
        judge(x, nodes, marked)
        if i == 0 and x.bool("settle"):
            settle(nodes)
            marked = set()
            judge(x, nodes, marked)


@harness("marking the box of any node as valid, invalid or in progress passes to all boxes below it, visible or not, and to no other")
def passes_down(x, L):
    nodes = tree(L)
    settle(nodes, x.choice("from", (True, False, None)))
    unseen = x.choice("not visible", ("none", "root", "a", "b", "d"))
    if unseen != "none":
        nodes[unseen].layout.visible = False
    was = nodes["root"].layout.dirty
    where = x.choice("where", tuple(BELOW))
    to = x.choice("to", (True, False, None))
    nodes[where].layout.dirty = to
    for name, n in nodes.items():
        x.check(n.layout.dirty is (to if name in BELOW[where].split() else was), "it and all below, no others")


@harness("a node that is not displayed has no box to mark: its style and size can change, its descendants' too; a new box needs layout")
def hidden(x, L):
    nodes = tree(L)
    where = x.choice("where", ("a", "b", "c", "e"))
    display = Display(x.int("vw", 1, 2000), 600)
    nodes[where].style.display = "none"
    layout(L, display, nodes["root"])
    settle(nodes)
    n = nodes[where]
    x.check(n.layout is None, "no box")
    at = x.choice("at", ("root", "a", "b", "c", "d", "e"))
    v = x.int("v", 1, 500)
    what = x.choice("what", ("margin_left", "intrinsic", "delete", "shorthand"))
    if what == "intrinsic":
        nodes[at].intrinsic.width = v
    elif what == "delete":
        nodes[at].style.margin_left = v
        settle(nodes)
        del nodes[at].style.margin_left
    elif what == "shorthand":
        nodes[at].style.margin = (v, 2)
    else:
        nodes[at].style.margin_left = v
    # marks pass down to the boxes there are
    reach = set()

    def down(k):
        if nodes[k].layout is None:
            return
        reach.add(k)
        for j in {"root": "ae", "a": "bd", "b": "c"}.get(k, ""):
            down(j)

    down(at)
    judge(x, nodes, reach)
    n.style.display = "block"
    layout(L, display, nodes["root"])
    x.check(n.layout is not None and n.layout.dirty is True, "a new box needs layout")


@harness("each property set to a value, settled, then set back to its initial value: marks if that is a change; then deleted (3 times): the marks stay")
def back(x, L):
    # those whose initial value can be written
    p = x.choice("property", tuple(q for q in TABLE if q not in ("cursor", "text_align", "border_spacing", "color")
                                   and not q.endswith("_color")) + ("outline_color",))  # fmt: skip
    nodes = tree(L)
    st = nodes["a"].style
    init = TABLE[p][2]
    v = sample(x, L, p, 0)
    del st[p]
    setattr(st, p, v)
    settle(nodes)
    was = getattr(st, p)
    st[p] = "none" if init is None else init
    same = x.eq(was, getattr(st, p)) if not hasattr(was, "r") else False
    judge(x, nodes, () if same else BELOW["a"].split())
    # deleting what is the initial value anyway may mark or not; marks there were stay
    marked = not same
    for way in ("attribute", "item", "update"):
        if way == "attribute":
            delattr(st, p)
        elif way == "item":
            del st[p]
        else:
            st.update(**{p: None})
        if marked:
            judge(x, nodes, BELOW["a"].split())


@harness("30 boxes, 18 of them siblings, 11 levels below the last: a change of any of 8 of them marks exactly it and what is below it")
def large(x, L):
    nodes = big(L, lambda i: {})
    for n in nodes:
        n.layout.dirty = False
    at = x.choice("at", (0, 1, 2, 10, 17, 19, 24, 29))
    v = x.int("v", 1, 9999)
    if x.bool("size"):
        nodes[at].intrinsic.width = v
    else:
        nodes[at].style.width = v
    below = {at}
    for i, n in enumerate(nodes):
        if n.parent is not None and nodes.index(n.parent) in below:
            below.add(i)
        x.check(n.layout.dirty is (i in below), "the node and all below it, and no other")
    nodes[0].layout.dirty = True
    nodes[0].layout.dirty = False
    x.check(all(n.layout.dirty is False for n in nodes), "marked as valid, to the last one")


@harness(
    "any operation on the (empty) style of a node in a tree of 6 or a full style, then any other, out of 61 (16 properties, 5 groups of sides, 4 shorthands set or deleted, "
    "refused assignments): if the second changes any property, it and all below are marked, and no other; if it is refused, none is"
)
def pairs(x, L):
    nodes = tree(L)
    st = nodes["a"].style
    model = {"display": "block"}
    if x.bool("full"):
        styles.full(x, L, st, model, without=("display",))
    else:
        styles.act(x, L, st, model, 0, ways=False)
    settle(nodes)
    before = dict(model)
    kind, p = styles.act(x, L, st, model, 1, ways=False)
    fresh = L.CSS()
    same = x.all(*[
        styles.alike(x, styles.expected(L, before, q, fresh), styles.expected(L, model, q, fresh)) for q in set(before) | set(model)
    ])  # fmt: skip
    if kind == "refuse":
        if p in TABLE:
            judge(x, nodes, ())
    elif not same:
        judge(x, nodes, BELOW["a"].split())
