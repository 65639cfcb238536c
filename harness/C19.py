"""C19: the border and outline shorthands take width, style and color in any order, reset what is missing, or change nothing."""

from . import styles
from .C14 import TABLE as COLORS
from .common import Node, registry

HARNESSES, harness = registry()

OUTSIDE = (
    "the defaulting keyword inherit, which fits more than one part; colors with blanks inside a text; what reading the "
    "border shorthand gives (the four sides are checked)"
)

SIDES = ("top", "right", "bottom", "left")
PARTS = ("width", "style", "color")
SHORT = ("border", "border_top", "border_right", "border_bottom", "border_left", "outline")
STYLES = ("hidden", "dotted", "dashed", "solid", "double", "groove", "ridge", "inset", "outset", "none")


def longhands(short, part):
    if short == "border":
        return [f"border_{s}_{part}" for s in SIDES]
    return [f"{short}_{part}"]


ALL = [p for sh in SHORT[1:] for part in PARTS for p in longhands(sh, part)]


def value(x, L, part, i, short, text):
    """(as written, check of the value read)."""
    if part == "style":
        w = x.choice(f"style{i}", ("none", "solid", "inset") if x.tier == "quick" else STYLES)
        return w, lambda got: x.eq(got, None if w == "none" else w)
    if part == "width":
        kind = x.choice(f"width{i}", ("word", "number"))
        if kind == "word":
            w = x.choice(f"word{i}", ("thin", "thick"))
            return w, lambda got: x.eq(got, w) if isinstance(got, str) else False
        n = 0 if x.bool(f"zero{i}") else x.int(f"n{i}", 10, 99)
        u = x.choice(f"unit{i}", ("px", "mm"))

        def check(got):
            return x.all(got.suffix == u, got.val == n) if hasattr(got, "suffix") else False

        if not text and u == "px":
            return n, check
        return f"{n}{u}", check
    kind = x.choice(f"color{i}", ("name", "hex", "word") if text else ("name", "hex", "rgb", "word"))
    if kind == "word":
        w = "invert" if short == "outline" else "transparent"
        return w, lambda got: x.eq(got, w) if isinstance(got, str) else False
    if kind == "name":
        r, c = 255, "red"
    elif kind == "hex":
        d = x.string(f"hex{i}", (2,), "0123456789")
        r = (ord(d[0]) - 48) * 16 + ord(d[1]) - 48
        c = "#" + d + "0000"
    else:
        r = x.int(f"r{i}", 0, 255)
        c = L.colors.rgb(r, 0, 0)
    return c, lambda got: x.all(got.r == r, got.g == 0, got.b == 0) if hasattr(got, "r") else False


def node_with(x, L):
    """A node with every part of every border and the outline set."""
    node = Node(L, L.CSS(display="block", margin_left=7))
    st = node.style
    for sh in SHORT[1:]:
        setattr(st, sh + "_width", 91)
        setattr(st, sh + "_style", "ridge")
        setattr(st, sh + "_color", "#010203")
    return node


def put(st, short, v, way):
    if way == "attribute":
        setattr(st, short, v)
    elif way == "dashed":
        st[short.replace("_", "-")] = v
    else:
        st.update(**{short: v})


ORDERS = (
    ("width",), ("style",), ("color",),
    ("width", "style"), ("style", "width"), ("width", "color"), ("color", "width"), ("style", "color"), ("color", "style"),
    ("width", "style", "color"), ("width", "color", "style"), ("style", "width", "color"), ("style", "color", "width"),
    ("color", "width", "style"), ("color", "style", "width"),
)  # fmt: skip


@harness(
    "each of the six shorthands, any 1..3 different parts in any order, as text, tuple or list; widths 0 or 10..99 px or mm or "
    "keywords, 3 (thorough 10) styles, colors by name, hex digits, object or keyword; on an empty or full style"
)
def parts(x, L):
    short = x.choice("short", SHORT)
    order = x.choice("order", ORDERS)
    form = x.choice("form", ("text", "tuple") if x.tier == "quick" else ("text", "tuple", "list"))
    vals = [value(x, L, part, i, short, form == "text") for i, part in enumerate(order)]
    full = x.bool("full")
    node = node_with(x, L) if full else Node(L, L.CSS(display="block", margin_left=7))
    st = node.style
    fresh = L.CSS()
    others = {p: getattr(st, p) for p in ALL}
    node.layout.dirty = False
    words = [v for v, f in vals]
    v = x.choice("blanks", (" ",) if x.tier == "quick" else (" ", "  ", "\t ", "\n")).join(words) if form == "text" else words if form == "list" else tuple(words)
    put(st, short, v, "attribute" if x.tier == "quick" else x.choice("way", ("attribute", "dashed", "update")))
    mine = []
    for part in PARTS:
        for p in longhands(short, part):
            mine.append(p)
            got = getattr(st, p)
            if part in order:
                x.check(vals[order.index(part)][1](got), "a given part is set")
            else:
                x.check(got is getattr(fresh, p), "a missing part is reset to its initial value")
                x.check(p not in st.keys(), "and not listed")
    x.check(all(getattr(st, p) is others[p] for p in ALL if p not in mine), "no other border or outline changes")
    x.check(st.margin_left.val == 7, "nothing else changes")
    x.check(node.layout.dirty is True, "the layout needs redoing")
    x.check(short not in st.keys(), "the shorthand itself is not listed")


BAD = ("no-such-word", "12 34", "#12", "5deg", "", "solidthin", "rgb(1,2)", "auto")


@harness(
    "each of the six: a duplicated part, four parts, an unknown word among them, nothing, or something that is no text or "
    "sequence: ValueError, and the style is as before"
)
def rejected(x, L):
    short = x.choice("short", SHORT)
    kind = x.choice("kind", ("duplicate", "four", "unknown", "empty", "type"))
    form = x.choice("form", ("text", "tuple") if x.tier == "quick" else ("text", "tuple", "list"))
    if kind == "duplicate":
        part = x.choice("part", PARTS)
        two = [value(x, L, part, i, short, form == "text")[0] for i in range(2)]
        other = x.choice("other", (None,) + tuple(p for p in PARTS if p != part))
        words = two if other is None else [two[0], {"width": "3px", "style": "dotted", "color": "blue"}[other], two[1]]
        if other is not None and x.bool("rotate"):
            words = words[1:] + words[:1]
    elif kind == "four":
        words = ["3px", "dotted", "blue", x.choice("fourth", ("solid", "thin", "red", "nothing"))]
    elif kind == "unknown":
        words = ["3px", "dotted", "blue"][: x.choice("n", (1, 2, 3))]
        words[x.choice("at", tuple(range(len(words))))] = x.choice("bad", BAD)
        x.assume(form != "text" or "" not in words)
    elif kind == "empty":
        words = []
    else:
        words = None
    if words is None:
        v = x.choice("value", (None, 3, object(), 1.5, {}, L.units.px, {"a": 1}))
    else:
        v = " ".join(words) if form == "text" else tuple(words) if form == "tuple" else words
    node = node_with(x, L) if x.bool("full") else Node(L, L.CSS(display="block", margin_left=7))
    st = node.style
    before, text = dict(st.items()), str(st)
    node.layout.dirty = False
    try:
        put(st, short, v, "attribute" if x.tier == "quick" else x.choice("way", ("attribute", "dashed")))
        bad = False
    except ValueError:
        bad = True
    x.check(bad, "rejected with ValueError")
    after = dict(st.items())
    x.check(sorted(after) == sorted(before), "the same properties are set")
    x.check(all(after[k] is before[k] for k in before if k in after), "to the same values")
    x.check(x.eq(str(st), text), "the style renders the same")
    x.check(node.layout.dirty is False, "and no new layout is needed")


@harness("any single word of 5 or 6 letters (thorough 3..7) of d o t i n l h a v e r s u: accepted exactly if a keyword of one of the parts", covers=["good", "bad", "color"])
def any_word(x, L):
    short = x.choice("short", ("border_left", "border", "outline"))
    s = x.string("s", (5, 6) if x.tier == "quick" else (3, 4, 5, 6, 7), "dotinlhaversu")
    words = STYLES + ("thin", "medium", "thick", "inherit")
    words += ("invert",) if short == "outline" else ("transparent", "initial", "unset", "revert")
    st = node_with(x, L).style
    text = str(st)
    try:
        setattr(st, short, s)
        bad = False
    except ValueError:
        bad = True
    if s in words:
        x.check(not bad, "a keyword is accepted")
        x.cover("good")
    elif s in COLORS:
        x.check(not bad, "a color name is accepted")
        x.cover("color")
    else:
        x.check(bad, "any other word is rejected")
        x.check(x.eq(str(st), text), "and changes nothing")
        x.cover("bad")


@harness("a side's border or the outline is read after any parts were set by any means: the object has exactly these, in text too")
def read(x, L):
    short = x.choice("short", SHORT[1:])
    st = L.CSS()
    which = [part for part in PARTS if x.bool("has " + part)]
    vals = {}
    via = x.choice("via", ("longhand", "shorthand"))
    ws = {"width": x.int("n", 10, 99), "style": x.choice("style", ("solid", "inset", "none")), "color": "thistle"}
    if ws["style"] == "none" and "style" in which:
        # otherwise it is the initial value already
        setattr(st, f"{short}_style", "dotted")
    if via == "longhand":
        for part in which:
            setattr(st, f"{short}_{part}", ws[part])
    elif which:
        setattr(st, short, [ws[p] for p in which])
    got = getattr(st, short)
    if not which:
        x.check(got == "", "nothing set reads as an empty text")
        return
    d = got.to_dict()
    x.check(sorted(d) == sorted(f"{short}_{p}" for p in which), "exactly the parts that are set")
    for p in which:
        x.check(getattr(got, f"{short}_{p}") is getattr(st, f"{short}_{p}"), "each with its value")
        x.check(d[f"{short}_{p}"] is getattr(st, f"{short}_{p}"), "each with its value in the dictionary")
    x.check(x.eq(sorted(str(got).split()) if "color" not in which else 0,
                 sorted(str(getattr(st, f"{short}_{p}")) for p in which) if "color" not in which else 0), "in text too")  # fmt: skip
    # a snapshot: later changes do not reach it
    other = getattr(st, short)
    x.check(x.eq(got, other) if "color" not in which else True, "reading twice gives equal objects")
    setattr(st, f"{short}_width", 500)
    x.check("width" not in which or getattr(got, f"{short}_width").val == ws["width"], "later changes do not reach it")


@harness("a shorthand deleted by attribute, item or update None, on an empty, partly or fully set style: all its parts are initial")
def delete(x, L):
    short = x.choice("short", SHORT)
    some = x.choice("set", ("none", "one", "all"))
    st = node_with(x, L).style if some == "all" else L.CSS(margin_left=7)
    if some == "one":
        p = longhands(short, x.choice("part", PARTS))
        setattr(st, p[x.choice("which", tuple(range(len(p))))], "green" if p[0].endswith("color") else "solid" if p[0].endswith("style") else x.int("n", 1, 99))
    others = {p: getattr(st, p) for p in ALL}
    way = x.choice("way", ("attribute", "item", "update"))
    if way == "attribute":
        delattr(st, short)
    elif way == "item":
        del st[short]
    else:
        st.update(**{short: None})
    fresh = L.CSS()
    mine = [p for part in PARTS for p in longhands(short, part)]
    for p in mine:
        x.check(getattr(st, p) is getattr(fresh, p), "each part is initial")
        x.check(p not in st.keys(), "and not set")
    x.check(all(getattr(st, p) is others[p] for p in ALL if p not in mine), "no other border or outline changes")
    x.check(st.margin_left.val == 7, "nothing else changes")


@harness("the wrapper objects: any subset of the parts; equal exactly if the same kind, parts and values; unknown parts are refused")
def objects(x, L):
    W = {"border_top": "BorderTop", "border_left": "BorderLeft", "outline": "Outline", "border": "Border",
         "border_right": "BorderRight", "border_bottom": "BorderBottom"}  # fmt: skip
    short = x.choice("short", tuple(W))
    cls = getattr(L.wrappers, W[short])
    a = {f"{short}_{p}": x.int("a." + p, 0, 50) for p in PARTS if x.bool("a has " + p)}
    b = {f"{short}_{p}": x.int("b." + p, 0, 50) for p in PARTS if x.bool("b has " + p)}
    one, two = cls(**a), cls(**b)
    same = x.all(*[a[k] == b[k] for k in a]) if sorted(a) == sorted(b) else False
    x.check((one == two) == same, "equal exactly if the parts and values are")
    x.check(x.eq(dict(one.to_dict()), a), "the dictionary has the given parts")
    x.check(one == cls(**a), "equal to one made alike")
    x.check(one != dict(a), "never equal to another type")
    other = L.wrappers.Outline if short != "outline" else L.wrappers.BorderTop
    x.check(not (one == other()), "nor to another shorthand")
    wrong = x.choice("wrong", ("border_top_colour", "width", "margin_top", "border_middle_width", "outline_widths"))
    try:
        cls(**dict(a, **{wrong: 1}))
        bad = False
    except ValueError:
        bad = True
    x.check(bad, "an unknown part is refused")


@harness("each of the six as text of width, style and color with other white space between the parts, or around them")
def blanks(x, L):
    short = x.choice("short", SHORT)
    sep = x.choice("between", ("  ", "   ", "\t", "\n", " \t "))
    around = x.choice("around", ("", " ", "\n"))
    n = x.int("n", 10, 99)
    st = node_with(x, L).style
    parts = ["dotted", f"{n}px", "red"][: x.choice("parts", (2, 3))]
    setattr(st, short, around + sep.join(parts) + around)
    for p in longhands(short, "style"):
        x.check(x.eq(getattr(st, p), "dotted"), "the style")
    for p in longhands(short, "width"):
        x.check(getattr(st, p).val == n, "the width")
    for p in longhands(short, "color"):
        x.check(getattr(st, p).r == 255 if len(parts) == 3 else p not in st.keys(), "the color")


@harness("the parts given in other kinds of sequence (a list type of one's own, a deque, a view of one's own): as in a list")
def sequences(x, L):
    from collections import UserList, deque
    from collections.abc import Sequence

    class View(Sequence):
        def __init__(self, v):
            self.v = v

        def __len__(self):
            return len(self.v)

        def __getitem__(self, i):
            return self.v[i]

    class Mine(list):
        pass

    short = x.choice("short", SHORT)
    n = x.int("n", 10, 99)
    parts = [n, "dotted", "red"]
    k = x.choice("rotate", (0, 1, 2))
    parts = (parts[k:] + parts[:k])[: x.choice("parts", (1, 2, 3))]
    cls = (UserList, deque, View, Mine)[x.choice("type", (0, 1, 2, 3))]
    st, other = node_with(x, L).style, L.CSS()
    setattr(st, short, cls(parts))
    setattr(other, short, list(parts))
    for part in PARTS:
        for p in longhands(short, part):
            a, b = getattr(st, p), getattr(other, p)
            x.check(a is b or (x.all(a.r == b.r) if hasattr(a, "r") else x.eq(getattr(a, "val", a), getattr(b, "val", b))), "the same parts")
    x.check(sorted(k for k in st.keys() if k in [p for part in PARTS for p in longhands(short, part)]) == sorted(other.keys()), "and no other")


@harness(
    "a full style (or one after any of 61 operations), then each of the six shorthands set to any of the 7 subsets of parts (text or tuple): "
    "every property of the style is as a model says, those not given are initial"
)
def among_all(x, L):
    st, held = L.CSS(), {}
    if x.bool("full"):
        styles.full(x, L, st, held)
    else:
        styles.act(x, L, st, held, 0, ways=False)
    short = x.choice("short", SHORT)
    parts = x.choice("parts", ("width", "style", "color", "width style", "style color", "color width", "style color width")).split()
    given = {"width": 7, "style": "double", "color": "#0a0b0c"}
    value = tuple(given[k] for k in parts)
    if x.bool("text"):
        value = " ".join(str(v) for v in value)
    setattr(st, short, value)
    for q in styles.SHORTS[short]:
        kind = q.rpartition("_")[2]
        held.pop(q, None)
        if kind in parts:
            held[q] = styles.canonical(L, q, given[kind])
    styles.judge(x, L, st, held)
