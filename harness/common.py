"""Shared pieces of the harnesses: a DOM node as in the project's tutorial, a display,
and the registration decorator.  Loaded twice: plainly (replays on the real code)
and instrumented (symbolic runs)."""


def registry():
    reg = []

    def harness(bounds, tiers=("quick", "thorough"), covers=()):
        def deco(fn):
            reg.append(
                {
                    "name": fn.__name__,
                    "bounds": bounds,
                    "tiers": tuple(tiers),
                    "covers": tuple(covers),
                }
            )
            return fn

        return deco

    return reg, harness


class Display:
    """The host's display object: the duck type the layout engine documents."""

    def __init__(self, width, height, dpi=96, thin=1, medium=5, thick=10):
        self.content_width = width
        self.content_height = height
        self.dpi = dpi
        self.thin, self.medium, self.thick = thin, medium, thick

    def fixed_size(self, value):
        return {"thin": self.thin, "medium": self.medium, "thick": self.thick}[value]


class Node:
    """A DOM node, as in docs/tutorial."""

    def __init__(self, L, style, children=(), replaced=False, width=None, height=None, ratio=None):
        self.parent = None
        self.children = []
        self.intrinsic = L.dimensions.Size(self)
        self.layout = L.dimensions.Box(self)
        self.style = style.copy(self)
        for child in children:
            self.add(child)
        self.intrinsic.is_replaced = replaced
        if width is not None:
            self.intrinsic.width = width
        if height is not None:
            self.intrinsic.height = height
        if ratio is not None:
            self.intrinsic.ratio = ratio

    def add(self, child):
        child.parent = self
        self.children.append(child)
        return child


def css(L, **kw):
    return L.CSS(**kw)


def block(L, children=(), **kw):
    return Node(L, L.CSS(display="block", **kw), children)


def layout(L, display, root, standard=None):
    if standard is None:
        L.engine.layout(display, root)
    else:
        L.engine.layout(display, root, standard)


GEOM = (
    "content_top",
    "content_left",
    "content_width",
    "content_height",
    "margin_top",
    "margin_right",
    "margin_bottom",
    "margin_left",
    "padding_top",
    "padding_right",
    "padding_bottom",
    "padding_left",
    "border_top_width",
    "border_right_width",
    "border_bottom_width",
    "border_left_width",
)


def geom(box, names=GEOM):
    return [getattr(box, n) for n in names]


# percentages with an exact binary value: p / 100 of a size
PCTS = (12.5, 25, 50, 75, 100)


def length(x, name, lo, hi, kinds=("px", "pct"), pcts=(25, 50)):
    """A length for a style: (value to assign, function(size) -> expected pixels)."""
    kind = x.choice(name + ".kind", kinds) if len(kinds) > 1 else kinds[0]
    if kind == "auto":
        return "auto", None
    if kind == "zero":
        return 0, lambda size: 0
    if kind == "pct":
        p = x.choice(name + ".pct", pcts)
        return f"{p}%", lambda size: size * p / 100
    if kind == "frac":
        v = x.frac(name, lo, hi, 64)
        return v, lambda size: v
    v = x.int(name, lo, hi)
    return v, lambda size: v


# declarations that have no influence on the geometry of block boxes
NOISE = (
    tuple((f"border_{s}_{k}", v) for s, k, v in (
        ("top", "style", "none"), ("top", "style", "hidden"), ("right", "style", "solid"), ("bottom", "style", "double"),
        ("left", "style", "inset"), ("top", "color", "red"), ("right", "color", "transparent"), ("bottom", "color", "inherit"),
        ("left", "color", "blue"),
    ))
    + (("display", "list-item"), ("position", "relative"), ("clear", "left"), ("clear", "both"), ("z_index", 0), ("z_index", -3))
    + (("top", 7), ("right", 8), ("bottom", 9), ("left", 11), ("top", "50%"), ("left", "inherit"))
    + (("direction", "rtl"), ("unicode_bidi", "embed"), ("unicode_bidi", "bidi-override"))
    + (("clip", "rect(1px, 2px, 3px, 4px)"), ("clip", "inherit"), ("visibility", "hidden"), ("visibility", "collapse"))
    + (("quotes", [("<", ">")]), ("quotes", "none"), ("page_break_before", "always"), ("page_break_after", "avoid"))
    + (("page_break_inside", "avoid"), ("orphans", 0), ("orphans", 3), ("widows", 3), ("color", "red"), ("background_color", "blue"))
    + (("text_indent", 13), ("text_indent", "50%"), ("text_align", "center"), ("text_align", "right"), ("text_decoration", "underline"))
    + (("letter_spacing", 5), ("word_spacing", 5), ("text_transform", "uppercase"), ("white_space", "nowrap"), ("white_space", "pre"))
    + (("caption_side", "bottom"), ("table_layout", "fixed"), ("border_collapse", "collapse"), ("border_spacing", (5, 6)))
    + (("empty_cells", "hide"), ("cursor", ["help"]), ("outline_width", "thick"), ("outline_width", 6), ("outline_style", "solid"))
    + (("outline_color", "red"), ("overflow", "hidden"), ("overflow", "scroll"))
)  # fmt: skip


def noise(x, without=()):
    """Some declaration without influence on the layout, other than of the given properties."""
    p, v = NOISE[x.choice("noise", tuple(i for i, (p, _) in enumerate(NOISE) if p not in without))]
    return {p: v}


def big(L, make, width=18, depth=11):
    """A tree with many siblings and many levels: root > [k0 > leaf, k1, ... k(n-1) > chain]; nodes in preorder.

    make(index) -> style of the node with that index (preorder).
    """
    nodes = []

    def new(parent):
        node = Node(L, L.CSS(**dict({"display": "block"}, **make(len(nodes)))))
        nodes.append(node)
        if parent is not None:
            parent.add(node)
        return node

    root = new(None)
    new(new(root))
    for i in range(width - 2):
        new(root)
    node = root
    for i in range(depth):
        node = new(node)
    return nodes
