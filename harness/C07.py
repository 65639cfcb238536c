"""C07: an element that is not displayed takes no part in the layout."""

from .C06 import shot
from . import model
from .common import big, Display, layout, Node, noise, registry

HARNESSES, harness = registry()

OUTSIDE = "mixed inline and block children of one parent; trees beyond the listed shapes"


def styled(x, name, **kw):
    st = dict(
        margin_top=x.int(name + ".mt", 1, 100000),
        margin_bottom=x.int(name + ".mb", 1, 100000),
        margin_left=x.int(name + ".ml", 1, 100000),
    )
    st.update(kw)
    return st


@harness("root > up to 4 blocks with arbitrary margins and heights, any subset of them hidden: same as without them")
def absent(x, L):
    n = 4
    st = [styled(x, f"k{i}", height=x.int(f"k{i}.h", 1, 100000)) for i in range(n)]
    hidden = [x.bool(f"hide{i}") for i in range(n)]
    pad = x.int("padding", 0, 100000)
    full = Node(L, L.CSS(display="block", padding_top=pad))
    for s, h in zip(st, hidden):
        full.add(Node(L, L.CSS(display="none" if h else "block", **s)))
    part = Node(L, L.CSS(display="block", padding_top=pad))
    for s, h in zip(st, hidden):
        if not h:
            part.add(Node(L, L.CSS(display="block", **s)))
    d = Display(x.int("vw", 1, 100000), 500)
    std = x.choice("standard", (L.constants.HTML5, L.constants.HTML4))
    layout(L, d, full, std)
    layout(L, d, part, std)
    shown = [c for c, h in zip(full.children, hidden) if not h]
    x.observe("boxes", shot(part.children))
    x.check(x.eq(shot([full]), shot([part])), "the parent is laid out as if hidden children were absent")
    x.check(x.eq(shot(shown), shot(part.children)), "the others are laid out as if hidden ones were absent")
    x.check(
        all(c.layout is None for c, h in zip(full.children, hidden) if h),
        "a hidden element has no layout box",
    )
    x.check(all(c.layout is not None for c in shown), "a displayed element has a layout box")


@harness("root > block > inline (replaced or not) elements, any subset hidden")
def absent_inline(x, L):
    n = 3
    hidden = [x.bool(f"hide{i}") for i in range(n)]
    rep = x.bool("replaced")
    dims = [(x.int(f"k{i}.w", 1, 100000), x.int(f"k{i}.h", 1, 100000), x.int(f"k{i}.m", 1, 100000)) for i in range(n)]

    def build(skip):
        p = Node(L, L.CSS(display="block", padding_top=4))
        for h, (w, ht, m) in zip(hidden, dims):
            if not (h and skip):
                p.add(Node(L, L.CSS(display="none" if h else "inline", margin=m), replaced=rep, width=w, height=ht))
        return Node(L, L.CSS(display="block"), [p])

    full, part = build(False), build(True)
    d = Display(1000, 500)
    layout(L, d, full)
    layout(L, d, part)
    pf, pp = full.children[0], part.children[0]
    shown = [c for c, h in zip(pf.children, hidden) if not h]
    x.check(x.eq(shot([full, pf]), shot([part, pp])), "the parents are laid out as if hidden children were absent")
    x.check(x.eq(shot(shown), shot(pp.children)), "the others are laid out as if hidden ones were absent")
    x.check(all(c.layout is None for c, h in zip(pf.children, hidden) if h), "a hidden element has no layout box")


@harness(
    "root > [block > [block > block, block], block], with arbitrary sizes: any sequence of 3 (thorough 4) hide/show "
    "steps on any node, the root included, each followed by a layout: same as a fresh tree hidden that way"
)
def toggles(x, L):
    m, h = x.int("m", 1, 100000), x.int("h", 1, 100000)

    def build():
        d = Node(L, L.CSS(display="block", height=h, margin=m))
        c = Node(L, L.CSS(display="block", padding_left=m), [d])
        e = Node(L, L.CSS(display="block", height=7, margin_top=h))
        b = Node(L, L.CSS(display="block", margin_bottom=h), [c, e])
        f = Node(L, L.CSS(display="block", height=h))
        root = Node(L, L.CSS(display="block", margin=2), [b, f])
        return [root, b, c, d, e, f]

    nodes = build()
    disp = Display(700, 500)
    if x.bool("laid out first"):
        layout(L, disp, nodes[0])
    hidden = [False] * len(nodes)
    for s in range(3 if x.tier == "quick" else 4):
        i = x.choice(f"node{s}", tuple(range(len(nodes))))
        hidden[i] = not hidden[i]
        if hidden[i]:
            nodes[i].style.display = "none"
        else:
            nodes[i].style.display = "block"
        layout(L, disp, nodes[0])
    fresh = build()
    for n, hid in zip(fresh, hidden):
        if hid:
            n.style.display = "none"
    layout(L, disp, fresh[0])

    def visible(i, parents=(None, 0, 1, 2, 1, 0)):
        while i is not None:
            if hidden[i]:
                return False
            i = parents[i]
        return True

    vis = [i for i in range(len(nodes)) if visible(i)]
    x.observe("fresh", shot([fresh[i] for i in vis]))
    x.check(
        all(nodes[i].layout is None for i in range(len(nodes)) if hidden[i] and (i == 0 or visible_parent(i, visible))),
        "a hidden element has no layout box",
    )
    x.check(
        x.eq(shot([nodes[i] for i in vis]), shot([fresh[i] for i in vis])),
        "showing an element again restores the layout it would always have had",
    )


def visible_parent(i, visible):
    return visible((None, 0, 1, 2, 1, 0)[i])


@harness("a style change or intrinsic size change made while hidden is honoured once shown again")
def changed_while_hidden(x, L):
    def build():
        a = Node(L, L.CSS(display="block", height=10))
        k = Node(L, L.CSS(display="block", height=4), [])
        p = Node(L, L.CSS(display="block"), [k])
        root = Node(L, L.CSS(display="block"), [a, p])
        return [root, a, p, k]

    nodes, fresh = build(), build()
    d = Display(700, 500)
    layout(L, d, nodes[0])
    i = x.choice("node", (1, 2, 3))
    nodes[i].style.display = "none"
    layout(L, d, nodes[0])
    prop = x.choice("prop", ("margin_top", "margin_left", "padding_top", "height", "width", "border_left_width"))
    v = x.int("v", 1, 100000)
    nodes[i].style[prop] = v
    nodes[i].intrinsic.width = v
    if x.bool("layout while hidden"):
        layout(L, d, nodes[0])
    if x.bool("delete"):
        del nodes[i].style.display
        nodes[i].style.display = "block"
    else:
        nodes[i].style.display = "block"
    layout(L, d, nodes[0])
    fresh[i].style[prop] = v
    layout(L, d, fresh[0])
    x.check(x.eq(shot(nodes), shot(fresh)), "changes made while hidden count once shown")


@harness(
    "root > [a, b > [c, d], e], any one of a..e (thorough two) hidden and all of them with one more declaration that has no influence "
    "(60 of them), which the hidden one may have alone: same as without the hidden one"
)
def unrelated(x, L):
    extra = noise(x, without=("display",))
    alone = x.bool("alone")
    hidden = {x.choice(f"hidden{i}", "abcde") for i in range(1 if x.tier == "quick" else 2)}
    m = {n: (x.int(n + ".mt", 1, 1000), x.int(n + ".mb", 1, 1000)) for n in "abcde"}

    def build(skip):
        nodes = {}

        def make(n, kids=()):
            nodes[n] = Node(
                L,
                L.CSS(
                    display="none" if n in hidden else "block",
                    margin_top=m[n][0],
                    margin_bottom=m[n][1],
                    **({} if alone and n not in hidden else extra),
                    **({} if kids else {"height": 9}),
                ),
                kids,
            )
            return nodes[n]

        def some(*names):
            return [make(n) for n in names if not (skip and n in hidden)]

        cd = some("c", "d")
        b = make("b", cd) if not (skip and "b" in hidden) else None
        a, e = some("a"), some("e")
        nodes["root"] = Node(L, L.CSS(display="block"), a + ([b] if b else []) + e)
        return nodes

    x.assume(not {"c", "d"} <= hidden)  # a block without content
    full, part = build(False), build(True)
    for t in (full, part):
        layout(L, Display(800, 600), t["root"])
    names = [n for n in part if n == "root" or (n not in hidden and not (n in "cd" and "b" in hidden))]
    x.check(all(full[n].layout is None for n in hidden if not (n in "cd" and "b" in hidden)), "a hidden element has no layout box")
    x.check(x.eq(shot([full[n] for n in names]), shot([part[n] for n in names])), "the others are laid out as if hidden ones were absent")


@harness("30 boxes, 18 of them siblings, 11 levels below the last: any one of 8 of them, and one of the siblings, hidden from the start or after a layout: same as without them")
def large(x, L):
    hide = (x.choice("one", (2, 8, 12, 17, 18, 19, 25, 29)), x.choice("two", (3, 9, 16)))
    h = x.int("h", 1, 100000)

    def make(i):
        st = dict(margin_top=2 + i, margin_bottom=3)
        if i in (2, 5, 16, 17, 18, 29):
            st["height"] = h
        return st

    full, part = big(L, make), big(L, make)
    d = Display(4000, 3000)
    late = x.bool("late")
    if late:
        layout(L, d, full[0])
    gone = set()
    for i in hide:
        full[i].style.display = "none"
        part[i].parent.children.remove(part[i])
        gone.add(i)
    for i, n in enumerate(full):
        if n.parent is not None and full.index(n.parent) in gone:
            gone.add(i)
    layout(L, d, full[0])
    layout(L, d, part[0])
    shown = [i for i in range(len(full)) if i not in gone]
    x.check(x.eq(shot([full[i] for i in shown]), shot([part[i] for i in shown])), "the others are laid out as without the hidden ones")
    x.check(all(full[i].layout is None for i in hide), "hidden ones have no box")
    for i in hide:
        full[i].style.display = "block"
    layout(L, d, full[0])
    fresh = big(L, make)
    layout(L, d, fresh[0])
    x.check(x.eq(shot(full), shot(fresh)), "shown again: as if never hidden")


@harness("root > [a > b > c, d]: a (or b) hidden, what is below it moved elsewhere and laid out there, or not, moved back, shown again, with or without layouts in between: as a fresh tree")
def moved_while_hidden(x, L):
    h = x.int("h", 1, 100000)

    def build():
        c = Node(L, L.CSS(display="block", height=h, padding_top=3, margin_left=2))
        b = Node(L, L.CSS(display="block", padding_top=4, margin_top=5), [c])
        a = Node(L, L.CSS(display="block", padding_left=6), [b])
        d = Node(L, L.CSS(display="block", padding_top=7, border_left_width=8))
        return [Node(L, L.CSS(display="block"), [a, d]), a, b, c, d]

    disp = Display(1000, 800)
    nodes = build()
    root, a, b, c, d = nodes
    if x.bool("first"):
        layout(L, disp, root)
    who = a if x.bool("outer") else b
    who.style.display = "none"
    if x.bool("hidden layout"):
        layout(L, disp, root)
    kid = who.children.pop()
    kid.parent = d
    d.children.append(kid)
    if x.bool("second"):
        layout(L, disp, root)
    d.children.pop()
    who.add(kid)
    if x.bool("third"):
        layout(L, disp, root)
    who.style.display = "block"
    layout(L, disp, root)
    fresh = build()
    layout(L, disp, fresh[0])
    x.check(x.eq(shot(nodes), shot(fresh)), "as a fresh tree")


@harness(
    "root > [s, p > [c > [e], d], z]: hidden elements before, between and after the others on p (thorough: or c, or the root), together with any of 53 features "
    "(margins, paddings, borders, sizes, limits, directions, positions, hidden elements) on it, its parent, child or sibling: every part of every box"
)
def pairs(x, L):
    focus = [f for f in model.F if f.startswith("hidden")]
    model.pairs(x, L, focus, ("p",) if x.tier == "quick" else ("p", "c", "root"), parts=model.ACROSS + model.DOWN)
