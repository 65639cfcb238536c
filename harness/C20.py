"""C20: a copied style is equal to the original at the time and independent of it ever after."""

from . import styles
from .C16 import TABLE
from .C17 import other_value
from .common import Node, registry

HARNESSES, harness = registry()

OUTSIDE = "values changed in place by the host (colors and units are shared between copies)"


def sample(x, L, p, i):
    """Some value for property p: (value to assign)."""
    words, kinds, init = TABLE[p]
    options = [("word", w) for w in words[-1:] + words[:1]]
    if "length" in kinds:
        options += [("length", None), ("zero length", None)]
    if "percentage" in kinds:
        options.append(("percentage", None))
    if "integer" in kinds:
        options += [("integer", None), ("zero", None)]
    if "color" in kinds:
        options.append(("color", None))
    options += [(k, None) for k in kinds if k in ("rect", "quotes", "spacing", "cursor")]
    kind, w = x.choice(f"{p}.kind{i}", tuple(options))
    n = x.int(f"{p}.n{i}", 1000, 9999)
    return {
        "word": lambda: w,
        "length": lambda: n * L.units.pt,
        "percentage": lambda: n * L.units.percent,
        "integer": lambda: n,
        "zero": lambda: 0,
        "zero length": lambda: 0 * L.units.mm,
        "color": lambda: L.colors.rgb(n, 1, 2, 0.5),
        "rect": lambda: L.shapes.Rect(n * L.units.px, n * L.units.mm, 3 * L.units.px, 4 * L.units.px),
        "quotes": lambda: [("<", ">"), ("a", "b")],
        "spacing": lambda: (n, 2),
        "cursor": lambda: ['url("some.cur")', "help"],
    }[kind]()


def state(st):
    return dict(st.items()), str(st), {p: getattr(st, p) for p in TABLE}


def unchanged(x, st, old):
    items, text, reads = state(st)
    oitems, otext, oreads = old
    x.check(sorted(items) == sorted(oitems), "the same properties are set")
    x.check(all(items[k] is v for k, v in oitems.items() if k in items), "to the same values")
    x.check(x.eq(text, otext), "renders the same")
    x.check(all(reads[k] is v for k, v in oreads.items()), "every property reads the same")


def same(a, b):
    """Equal by value, for the types that do not define equality."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    return a == b


@harness("each property holding any of its values (keywords, lengths, percentages, integers, colors, structured values), two more set")
def equal(x, L):
    p = x.choice("property", tuple(TABLE))
    base = dict(width=x.int("w", 1000, 9999), display="block")
    base.pop(p, None)  # whether a value reset to the initial one counts as set is not specified
    a = L.CSS(**base)
    setattr(a, p, sample(x, L, p, 0))
    old = state(a)
    b = a.copy()
    unchanged(x, a, old)
    x.check(b is not a, "another style")
    for q in TABLE:
        x.check(getattr(a, q) is getattr(b, q) or x.eq(getattr(a, q), getattr(b, q)), "every property reads the same in the copy")
    x.check(sorted(b.keys()) == sorted(a.keys()), "the same properties are set")
    x.check(x.eq(str(a), str(b)), "renders the same")
    c = b.copy()
    x.check(sorted(c.keys()) == sorted(a.keys()), "a copy of a copy as well")
    x.check(x.eq(str(a), str(c)), "a copy of a copy renders the same")


GROUP = {"margin": "margin_top", "padding": "padding_left", "border_width": "border_right_width", "border_top": "border_top_style",
         "outline": "outline_color"}  # fmt: skip


@harness("any property or shorthand set, deleted or updated in the copy or the original: the other does not change")
def independent(x, L):
    p = x.choice("property", tuple(TABLE) + tuple(GROUP))
    base = GROUP.get(p, p)
    a = L.CSS(width=x.int("w", 1000, 9999), display="block", margin_top=x.int("m", 1000, 9999))
    if x.bool("set before"):
        setattr(a, base, sample(x, L, base, 0))
    b = a.copy()
    first, second = (a, b) if x.bool("change original") else (b, a)
    old = state(second)
    how = x.choice("how", ("set", "delete", "update"))
    if how == "delete":
        delattr(first, p)
    else:
        v = sample(x, L, base, 1)
        if p in ("border_top", "outline"):
            v = (v,)
        if how == "set":
            setattr(first, p, v)
        else:
            first.update(**{p: v})
    unchanged(x, second, old)


@harness("the copy (of a style with two properties or all of them) belongs to the node it is made for: changes to it are noted there, and those of the original are not")
def node(x, L):
    style = L.CSS(display="block", height=x.int("h", 1000, 9999))
    p = x.choice("property", ("width", "margin_left", "color", "position", "clip", "z_index"))
    if x.bool("full"):
        for q in TABLE:
            if q != p and q not in style.keys():
                style[q] = other_value(L, q, 1234)
    one = Node(L, style)
    two = Node(L, one.style if x.bool("from node") else style)
    loose = one.style.copy()
    v = {"color": "red", "position": "relative", "clip": "rect(1px, 2px, 3px, 4px)"}.get(p) or x.int("v", 1000, 9999)
    which = x.choice("which", ("one", "two", "loose", "style"))
    one.layout.dirty = False
    two.layout.dirty = False
    setattr({"one": one.style, "two": two.style, "loose": loose, "style": style}[which], p, v)
    x.check(one.layout.dirty == (which == "one"), "the first node is told of its own changes only")
    x.check(two.layout.dirty == (which == "two"), "the second node is told of its own changes only")
    for name, st in (("one", one.style), ("two", two.style), ("loose", loose), ("style", style)):
        x.check((p in st.keys()) == (which == name), "only the changed style has the value")


@harness("a style with every property set: the copy has them all, and each can be changed or deleted in it (or the original) without effect on the other")
def everything(x, L):
    from .C23 import fields  # which imports this module

    n = x.int("n", 1000, 5000)
    st = L.CSS()
    for p in TABLE:
        st[p] = other_value(L, p, n)
    dup = st.copy()
    x.check(sorted(dup.keys()) == sorted(TABLE), "all are set in the copy")
    for p in TABLE:
        x.check(getattr(dup, p) is getattr(st, p) or x.eq(fields(getattr(dup, p)), fields(getattr(st, p))), "to the same values")
    x.check(x.eq(str(dup), str(st)), "and renders the same")
    p = x.choice("property", tuple(TABLE))
    one, two = (st, dup) if x.bool("original") else (dup, st)
    old = state(two)
    if x.bool("delete"):
        delattr(one, p)
    else:
        setattr(one, p, other_value(L, p, n + 1))
    unchanged(x, two, old)
    third = two.copy()
    x.check(x.eq(str(third), old[1]), "another copy renders the same")


@harness(
    "a full style, or an empty one after any operation, then a copy, then any operation on either of the two, out of 61 (16 properties, 5 groups of sides, 4 shorthands set or "
    "deleted, refused assignments): both are as their models say"
)
def pairs(x, L):
    st, model = L.CSS(), {}
    if x.bool("full"):
        styles.full(x, L, st, model)
    else:
        styles.act(x, L, st, model, 0, ways=False)
    dup, other = st.copy(), dict(model)
    if x.bool("copy changes"):
        styles.act(x, L, dup, other, 1, ways=False)
    else:
        styles.act(x, L, st, model, 1, ways=False)
    styles.judge(x, L, st, model)
    styles.judge(x, L, dup, other)
