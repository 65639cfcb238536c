"""C18: margin, padding, border-width, -style and -color spread over the four sides as in CSS, all or nothing."""

from .common import Node, registry

HARNESSES, harness = registry()

OUTSIDE = "sequences other than tuples; text with several values (not documented)"

SIDES = ("top", "right", "bottom", "left")
GROUPS = {
    "margin": [f"margin_{s}" for s in SIDES],
    "padding": [f"padding_{s}" for s in SIDES],
    "border_width": [f"border_{s}_width" for s in SIDES],
    "border_style": [f"border_{s}_style" for s in SIDES],
    "border_color": [f"border_{s}_color" for s in SIDES],
}
# which of n given values each side takes
SPREAD = {1: (0, 0, 0, 0), 2: (0, 1, 0, 1), 3: (0, 1, 2, 1), 4: (0, 1, 2, 3)}
WORDS = {
    "margin": ("auto", "auto", "auto", "auto"),
    "padding": None,
    "border_width": ("thin", "medium", "thick", "thin"),
    "border_style": ("dotted", "solid", "inset", "double"),
    "border_color": ("transparent", "inherit", "unset", "revert"),
}


def equal(x, got, want):
    if isinstance(want, str):
        return x.eq(got, want) if isinstance(got, str) else False
    if hasattr(want, "r"):
        return got is want
    return x.all(got.suffix == "px", got.val == want) if hasattr(got, "suffix") else False


def item(x, L, group, i):
    """One value: a word, a number or a color."""
    if group == "border_style":
        return x.choice(f"word{i}", ("dotted", "solid")) if i % 2 else WORDS[group][i % 4]
    if group == "border_color":
        return WORDS[group][i % 4] if x.bool(f"word{i}") else L.colors.rgb(x.int(f"red{i}", 0, 255), i, 0)
    if group != "padding" and x.bool(f"word{i}"):
        return WORDS[group][i % 4]
    return x.int(f"v{i}", 0, 100000)


def fill(st, group, value, way):
    if way == "attribute":
        setattr(st, group, value)
    elif way == "item":
        st[group] = value
    elif way == "dashed":
        st[group.replace("_", "-")] = value
    else:
        st.update(**{group: value})


WAYS = ("attribute", "item", "dashed", "update")


def before(x, L, group):
    """A node whose style has one side set."""
    node = Node(L, L.CSS(display="block", z_index=7))
    for other, props in GROUPS.items():
        if other in ("margin", "padding", "border_width"):
            setattr(node.style, props[1], 77)
    old = x.choice("old", (None, 0, 3))
    if old is not None:
        setattr(node.style, GROUPS[group][old], "solid" if group == "border_style" else "transparent" if group == "border_color" else 5)
        if group != "border_color" and x.bool("then the initial value"):
            # set, to what it is initially
            setattr(node.style, GROUPS[group][old], "none" if group == "border_style" else 0)
    return node


def rest(st, group):
    return {p: getattr(st, p) for g, props in GROUPS.items() if g != group for p in props}


@harness(
    "each of the five: 1..4 values, each a number 0..100000, keyword or color, or one value not in a tuple; set as "
    "attribute, item or update; over sides set before"
)
def spread(x, L):
    group = x.choice("group", tuple(GROUPS))
    node = before(x, L, group)
    st = node.style
    n = x.choice("n", (0, 1, 2, 3, 4))
    vals = [item(x, L, group, i) for i in range(max(n, 1))]
    others = rest(st, group)
    was = [getattr(st, p) for p in GROUPS[group]]
    node.layout.dirty = False
    fill(st, group, tuple(vals) if n else vals[0], x.choice("way", WAYS[:2] if x.tier == "quick" else WAYS))
    for p, i in zip(GROUPS[group], SPREAD[max(n, 1)]):
        x.check(equal(x, getattr(st, p), vals[i]), f"{n} values: each side takes its own")
    got = getattr(st, group)
    x.check(len(got) == 4, "four values read back")
    x.check(x.all(*[equal(x, g, vals[i]) for g, i in zip(got, SPREAD[max(n, 1)])]), "in the order top, right, bottom, left")
    x.check(all(getattr(st, p) is v for p, v in others.items()), "no other property changes")
    if not x.all(*[x.eq(getattr(st, p), w) for p, w in zip(GROUPS[group], was)]):
        x.check(node.layout.dirty is True, "the layout needs redoing")


JUNK = {
    "margin": ("thin", None, "5 deg", object),
    "padding": ("auto", None, "5deg", ()),
    "border_width": ("auto", None, (1, 2), "5%%"),
    "border_style": ("thin", 5, "solid solid", ()),
    "border_color": ("thick", 3, None, "#12"),
}


@harness("each of the five: 1..4 values of which any one is invalid, or a tuple of 0, 5 or 6: ValueError, and nothing at all has changed")
def all_or_nothing(x, L):
    group = x.choice("group", tuple(GROUPS))
    node = before(x, L, group)
    st = node.style
    n = x.choice("n", (0, 1, 2, 3, 4, 5, 6, -1))
    if n in (0, 5, 6):
        value = tuple(item(x, L, "padding" if group in ("margin", "border_width") else group, i) for i in range(n))
    elif n == -1:
        value = x.choice("junk", tuple(j for j in JUNK[group] if not isinstance(j, tuple)))
    else:
        vals = [item(x, L, "padding" if group in ("margin", "border_width") else group, i) for i in range(n)]
        vals[x.choice("at", tuple(range(n)))] = x.choice("junk", JUNK[group])
        value = tuple(vals)
    way = x.choice("way", WAYS[:2] if x.tier == "quick" else WAYS)
    x.assume(not (value is None and way == "update"))  # there, None deletes
    others = rest(st, None)
    text = str(st)
    keys = sorted(st.keys())
    try:
        fill(st, group, value, way)
        bad = False
    except ValueError:
        bad = True
    x.check(bad, "rejected with ValueError")
    x.check(all(getattr(st, p) is v for p, v in others.items()), "every side is as before")
    x.check(sorted(st.keys()) == keys, "the same properties are set")
    x.check(x.eq(str(st), text), "the style renders the same")


@harness("each of the five: deleted by any way, after any of the sides was set: all sides are initial again, others not")
def delete(x, L):
    group = x.choice("group", tuple(GROUPS))
    fresh = L.CSS()
    node = before(x, L, group)
    st = node.style
    if x.bool("all set"):
        v = item(x, L, group, 0)
        setattr(st, group, v)
    others = rest(st, group)
    way = x.choice("way", ("attribute", "item", "dashed", "update"))
    if way == "attribute":
        delattr(st, group)
    elif way == "item":
        del st[group]
    elif way == "dashed":
        del st[group.replace("_", "-")]
    else:
        st.update(**{group: None})
    for p in GROUPS[group]:
        x.check(getattr(st, p) is getattr(fresh, p), "every side is initial")
        x.check(p not in st.keys(), "no side is set")
    x.check(all(getattr(st, p) is v for p, v in others.items()), "no other property changes")
    x.check(len(getattr(st, group)) == 4, "four values are read")


@harness("a group read (4 values), after any side was set, and assigned to another style: the same sides there")
def transfer(x, L):
    group = x.choice("group", ("margin", "padding", "border_width", "border_style"))
    a = L.CSS()
    v = item(x, L, group, 1)
    side = x.choice("side", (0, 1, 2, 3))
    setattr(a, GROUPS[group][side], v)
    b = L.CSS()
    setattr(b, group, getattr(a, group))
    x.check(x.all(*[x.eq(getattr(a, p), getattr(b, p)) for p in GROUPS[group]]), "the same sides")
    x.check(sorted(a.keys()) == sorted(b.keys()), "and only these set")


class Four(tuple):
    pass


@harness("values given as a tuple of a derived type: as a plain tuple", covers=["1", "2", "3", "4"])
def derived(x, L):
    n = x.choice("n", (1, 2, 3, 4))
    name = x.choice("name", ("margin", "padding", "border_width"))
    vals = [x.int(f"v{i}", 1, 9999) for i in range(n)]
    st = L.CSS()
    setattr(st, name, Four(vals))
    sides = (vals[0], vals[1 % n], vals[2] if n > 2 else vals[0], vals[3] if n > 3 else vals[1 % n])
    for got, want in zip(getattr(st, name), sides):
        x.check(got.val == want, "each side its value")
    x.cover(str(n))


@harness(
    "margin, padding and border-width: 1..4 values, each a whole or fractional number, a text with or without unit, point or sign, a percentage "
    "(not for borders) or a unit value; or one of them not in a tuple: each side as if it was set alone"
)
def forms(x, L):
    group = x.choice("group", ("margin", "padding", "border_width"))
    n = x.choice("values", (0, 1, 2, 3, 4))
    kinds = ("int", "float", "text", "decimal", "unit", "long", "zero") + (("percent",) if group != "border_width" else ())
    first = x.choice("first", kinds)
    second = x.choice("second", kinds if x.tier != "quick" and n > 1 else ("int",))
    k = x.int("k", 10, 99)

    def one(kind, i):
        return {
            "int": k + i, "float": i + 0.5, "text": f"{30 + i}px", "decimal": f"{i}.25mm", "unit": (k + i) * L.units.em, "percent": f"{12.5 + i}%",
            "long": f"{i}00.0625in", "zero": "0",
        }[kind]  # fmt: skip

    given = [one((first, second)[i % 2], i) for i in range(max(n, 1))]
    st = L.CSS(width=5)
    setattr(st, group, tuple(given) if n else given[0])
    for side, at in zip(GROUPS[group], SPREAD[max(n, 1)]):
        alone = L.CSS()
        setattr(alone, side, given[at])
        got, want = getattr(st, side), getattr(alone, side)
        x.check(x.all(got.suffix == want.suffix, got.val == want.val), "as if set alone")
    x.check(set(st.keys()) <= set(GROUPS[group]) | {"width"}, "and nothing else")
