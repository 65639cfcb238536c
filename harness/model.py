"""A complete reference model of the layout of blocks, and trees in which any two features meet.

The tree is root > [s, p > [c > [e], d], z]; every margin is given, the leaves have heights.  A feature is what a
style (or the presence of elements not displayed) adds at one node; two features at a time, each with arbitrary numbers.
"""

from .common import Display, layout, Node

SIDES = ("top", "right", "bottom", "left")


class M:
    def __init__(self, name, kids=(), **style):
        self.name, self.kids, self.style, self.hidden = name, list(kids), style, ()

    def build(self, L):
        st = {"display": "block"}
        for k, v in self.style.items():
            st[k] = f"{v[1]}%" if isinstance(v, tuple) else v
        kids = [k.build(L) for k in self.kids]
        for at in self.hidden:
            inner = Node(L, L.CSS(display="block", height=77, margin_top=990))
            ghost = Node(L, L.CSS(display="none", height=50, margin=800, padding=70, border_width=9, position="relative", top=5), [inner])
            kids.insert(at if at >= 0 else len(kids), ghost)
        self.node = Node(L, L.CSS(**st), kids)
        return self.node


def tree():
    e = M("e", height=31, margin_top=17, margin_bottom=16)
    c = M("c", [e], margin_top=6, margin_bottom=14)
    d = M("d", height=23, margin_top=12, margin_bottom=27)
    p = M("p", [c, d], margin_top=13, margin_bottom=21)
    s = M("s", height=40, margin_bottom=8, margin_top=3)
    z = M("z", height=50, margin_top=18, margin_bottom=7)
    root = M("root", [s, p, z], margin_top=2, margin_bottom=5)
    return {"root": root, "s": s, "p": p, "c": c, "e": e, "d": d, "z": z}


# what can be there at a node: name -> function(n: name -> arbitrary number) -> style (or hidden elements)
F = {}
for side in SIDES:
    F[f"margin-{side}"] = lambda n, p=f"margin_{side}": {p: n("m")}
    F[f"margin-{side} auto"] = lambda n, p=f"margin_{side}": {p: "auto"}
    F[f"margin-{side} %"] = lambda n, p=f"margin_{side}": {p: ("%", 25)}
    F[f"padding-{side}"] = lambda n, p=f"padding_{side}": {p: n("p")}
    F[f"padding-{side} %"] = lambda n, p=f"padding_{side}": {p: ("%", 25)}
    F[f"border-{side}-width"] = lambda n, p=f"border_{side}_width": {p: n("b")}
F.update({
    "margins auto": lambda n: {"margin_left": "auto", "margin_right": "auto"},
    "fixed borders": lambda n: {"border_top_width": "thin", "border_right_width": "medium", "border_bottom_width": "thick", "border_left_width": "thin"},
    "width": lambda n: {"width": n("w")},
    "width 0": lambda n: {"width": 0},
    "width %": lambda n: {"width": ("%", 50)},
    "height": lambda n: {"height": n("h")},
    "min-width": lambda n: {"width": n("w"), "min_width": n("min")},
    "max-width": lambda n: {"width": n("w"), "max_width": n("max")},
    "min-width %": lambda n: {"width": n("w"), "min_width": ("%", 50)},
    "max-width %": lambda n: {"width": n("w"), "max_width": ("%", 50)},
    "min-max-width": lambda n: {"width": n("w"), "min_width": n("min"), "max_width": n("max")},
    "min-height": lambda n: {"min_height": n("min")},
    "height min": lambda n: {"height": n("h"), "min_height": n("min")},
    "height max": lambda n: {"height": n("h"), "max_height": n("max")},
    "height min max": lambda n: {"height": n("h"), "min_height": n("min"), "max_height": n("max")},
    "rtl": lambda n: {"direction": "rtl"},
    "list item": lambda n: {"display": "list-item"},
    "relative": lambda n: {"position": "relative"},
    "relative left": lambda n: {"position": "relative", "left": n("left")},
    "relative right": lambda n: {"position": "relative", "right": n("right")},
    "relative top": lambda n: {"position": "relative", "top": n("top")},
    "relative bottom": lambda n: {"position": "relative", "bottom": n("bottom")},
    "relative all": lambda n: {"position": "relative", "left": n("left"), "right": n("right"), "top": n("top"), "bottom": n("bottom")},
    "offsets": lambda n: {"left": n("left"), "top": n("top")},
    "visibility": lambda n: {"visibility": "hidden"},
    "overflow": lambda n: {"overflow": "hidden"},
    "hidden first": lambda n: {"hidden": (0,)},
    "hidden last": lambda n: {"hidden": (-1,)},
    "hidden between": lambda n: {"hidden": (1,)},
})  # fmt: skip

# whole sets of horizontal and of vertical parts
ALL_ACROSS, ALL_DOWN = [], []
for l in ("px", "auto"):
    for w in ("px", "auto"):
        for r in ("px", "auto"):
            name = f"margin-left {l}, width {w}, margin-right {r}"
            F_ = lambda n, l=l, w=w, r=r: {
                "margin_left": n("l") if l == "px" else "auto", "margin_right": n("r") if r == "px" else "auto",
                "padding_left": n("pl"), "padding_right": n("pr"), "border_left_width": n("bl"), "border_right_width": n("br"),
                **({"width": n("w")} if w == "px" else {}),
            }  # fmt: skip
            ALL_ACROSS.append((name, F_))
for t in ("none", "padding", "border"):
    for b in ("none", "padding", "border"):
        for h in ("px", "auto", "min"):
            name = f"top {t}, bottom {b}, height {h}"
            F_ = lambda n, t=t, b=b, h=h: {
                "margin_top": n("mt"), "margin_bottom": n("mb"),
                **({"padding_top": n("t")} if t == "padding" else {"border_top_width": n("t")} if t == "border" else {}),
                **({"padding_bottom": n("b")} if b == "padding" else {"border_bottom_width": n("b")} if b == "border" else {}),
                **({"height": n("h")} if h == "px" else {"min_height": n("h")} if h == "min" else {}),
            }  # fmt: skip
            ALL_DOWN.append((name, F_))
ALL_LIMITS, ALL_MOVES = [], []
for l in ("px", "auto"):
    for r in ("px", "auto"):
        for w in ("min", "max", "min max"):
            F_ = lambda n, l=l, w=w, r=r: {
                "margin_left": n("l") if l == "px" else "auto", "margin_right": n("r") if r == "px" else "auto", "width": n("w"),
                "padding_left": n("pl"), "padding_right": n("pr"), "border_left_width": n("bl"), "border_right_width": n("br"),
                **({"min_width": n("min")} if "min" in w else {}), **({"max_width": n("max")} if "max" in w else {}),
            }  # fmt: skip
            ALL_LIMITS.append((f"margin-left {l}, width {w}, margin-right {r}", F_))
for side in ("padding", "border"):
    for w in ("min", "max", "min max"):
        F_ = lambda n, side=side, w=w: {
            "height": n("h"), "margin_top": n("mt"), "margin_bottom": n("mb"),
            **({"padding_top": n("t"), "padding_bottom": n("b")} if side == "padding" else {"border_top_width": n("t"), "border_bottom_width": n("b")}),
            **({"min_height": n("min")} if "min" in w else {}), **({"max_height": n("max")} if "max" in w else {}),
        }  # fmt: skip
        ALL_LIMITS.append((f"height {w} with {side}", F_))
for rtl in ("ltr", "rtl"):
    for given in ("left right", "left", "right", "top bottom", "left bottom", "right top"):
        F_ = lambda n, rtl=rtl, given=given: {
            "position": "relative", "direction": rtl, "margin_top": n("mt"), "padding_bottom": n("pb"), "border_left_width": n("bl"),
            **{o: n(o) for o in given.split()},
        }  # fmt: skip
        ALL_MOVES.append((f"relative {given} {rtl}", F_))
SETS = dict(ALL_ACROSS + ALL_DOWN + ALL_LIMITS + ALL_MOVES)
ALL_LIMITS, ALL_MOVES = [n for n, _ in ALL_LIMITS], [n for n, _ in ALL_MOVES]
ALL_ACROSS, ALL_DOWN = [n for n, _ in ALL_ACROSS], [n for n, _ in ALL_DOWN]


def resolve(x, m, prop, size, d, default=0):
    v = m.style.get(prop, default)
    if isinstance(v, tuple):
        x.assume(size >= 0)  # nothing is promised of percentages of a block squeezed to less than nothing
        return size * v[1] / 100
    if isinstance(v, str):
        return None if v == "auto" else getattr(d, v)
    return v


def limit(x, m, v, axis, size, d):
    if v is None:
        return v
    top, low = (resolve(x, m, f"{k}_{axis}", size, d, None) for k in ("max", "min"))
    if top is not None and m.style.get(axis, "auto") != "auto":
        v = x.min(v, top)
    if low is not None:
        v = x.max(v, low)
    return v


def reference(x, m, cw, d, out):
    """Collapsed margins and height of m in a block of width cw; appends the box of each node of the subtree to out."""
    mt, mr, mb, ml = (resolve(x, m, f"margin_{s}", cw, d) for s in SIDES)
    pt, pr, pb, pl = (resolve(x, m, f"padding_{s}", cw, d) for s in SIDES)
    bt, br, bb, bl = (resolve(x, m, f"border_{s}_width", cw, d) for s in SIDES)
    mt, mb = 0 if mt is None else mt, 0 if mb is None else mb
    rtl = m.style.get("direction") == "rtl"
    w = resolve(x, m, "width", cw, d, "auto")
    inner = bl + pl + pr + br
    lm, rm = 0 if ml is None else ml, 0 if mr is None else mr
    if w is None:
        w = cw - inner - lm - rm
        ml, mr = lm, rm
    else:
        w = limit(x, m, w, "width", cw, d)
        free = cw - inner - w
        if ml is None and mr is None:
            if free < 0:
                ml, mr = (0, free) if not rtl else (free, 0)
            else:
                ml = mr = free // 2
        elif ml is None and free - rm >= 0:
            ml = free - rm
        elif mr is None and free - lm >= 0:
            mr = free - lm
        elif rtl:
            ml, mr = free - rm, rm
        else:
            ml, mr = lm, free - lm
    y, top, bottom, prev = 0, mt, mb, None
    for kid in m.kids:
        ktop, kbottom, kheight, box = reference(x, kid, w, d, out)
        if prev is None:
            if bt + pt > 0:
                y = y + ktop
            else:
                top = x.max(top, ktop)
        else:
            y = y + x.max(prev, ktop)
        box["border_box_top"] = y + kid.dy
        y = y + kheight
        prev = kbottom
    height = resolve(x, m, "height", None, d, "auto")
    if height is None:
        height = y
        if m.kids:
            if bb + pb > 0:
                height = y + prev
            else:
                bottom = x.max(bottom, prev)
    height = limit(x, m, height, "height", None, d)
    m.dx = m.dy = 0
    if m.style.get("position") == "relative":
        o = m.style
        m.dx = 0 - o["right"] if "right" in o and (rtl or "left" not in o) else o.get("left", 0)
        m.dy = o["top"] if "top" in o else 0 - o["bottom"] if "bottom" in o else 0
    box = {
        "margin_left": ml, "margin_right": mr, "margin_top": mt, "margin_bottom": mb,
        "padding_top": pt, "padding_right": pr, "padding_bottom": pb, "padding_left": pl,
        "border_top_width": bt, "border_right_width": br, "border_bottom_width": bb, "border_left_width": bl,
        "content_width": w, "content_height": height, "content_left": ml + bl + pl + m.dx,
    }  # fmt: skip
    out.append((m, box))
    return top, bottom, bt + pt + height + pb + bb, box


ACROSS = ("margin_left", "margin_right", "padding_left", "padding_right", "border_left_width", "border_right_width", "content_width", "content_left")
DOWN = ("margin_top", "margin_bottom", "padding_top", "padding_bottom", "border_top_width", "border_bottom_width", "content_height", "border_box_top")


def put(x, nodes, i, features, where, hi=100000):
    """Some feature at some place of the model."""
    name = x.choice(f"feature{i}", tuple(features))
    place = x.choice(f"at{i}", tuple(where))
    st = (F.get(name) or SETS[name])(lambda s: x.int(f"{s}{i}", 1, hi))
    nodes[place].hidden += st.pop("hidden", ())
    nodes[place].style.update(st)
    return name, place


def settle(x, nodes):
    """Leave out what is a known finding."""
    for m in nodes.values():
        if m.style.get("position") == "relative":
            # KF1: the top border and padding of a positioned block; KF2: the last child of a block of auto height
            x.assume(not any(k in m.style for k in ("padding_top", "border_top_width")))
            x.assume(m.name not in ("e", "d", "z") or not any(k in m.style for k in ("top", "bottom")))


def screen(x, name="viewport", hi=100000):
    return Display(x.int(name, 1, hi), 600, thin=2, medium=3, thick=7)


def compare(x, L, nodes, d, parts=ACROSS + DOWN, standard=None, names=None):
    """The boxes of the last layout on display d with those of the model."""
    out = []
    top, bottom, height, box = reference(x, nodes["root"], d.content_width, d, out)
    box["border_box_top"] = top + nodes["root"].dy
    if standard is L.constants.HTML5:
        box["content_height"] = d.content_height - top - bottom
    for m, want in out:
        if names is None or m.name in names:
            got = {k: getattr(m.node.layout, k) for k in parts}
            x.observe(m.name, [got[k] for k in parts])
            x.check(x.all(*[x.eq(got[k], want[k]) for k in parts]), f"every part of the box of {m.name} is as the model says")


def pairs(x, L, focus, places=("p",), others=("p", "root", "c", "s"), parts=ACROSS + DOWN, standard=None, second=tuple(F), names=None):
    """Lay out the tree with a feature out of focus at one place and any at another; compare with the model."""
    nodes = tree()
    put(x, nodes, 0, focus, places)
    put(x, nodes, 1, second, others)
    settle(x, nodes)
    d = screen(x)
    root = nodes["root"].build(L)
    layout(L, d, root, L.constants.HTML4 if standard is None else standard)
    compare(x, L, nodes, d, parts, standard, names)
    return nodes, root
