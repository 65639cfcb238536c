"""C17: a style behaves as one map from property names to values, however it is written and read."""

from . import styles
from .C16 import TABLE
from .common import Node, registry

HARNESSES, harness = registry()

OUTSIDE = (
    "whether a property set to the value it already had counts as set; the order of items(); histories longer than stated"
)

SET = ("attribute", "item", "dashed", "update", "update-dashed")
DEL = ("del attribute", "del item", "del dashed", "update None")


def dash(prop):
    return prop.replace("_", "-")


def put(st, prop, value, way):
    if way == "attribute":
        setattr(st, prop, value)
    elif way == "item":
        st[prop] = value
    elif way == "dashed":
        st[dash(prop)] = value
    elif way == "update":
        st.update(**{prop: value})
    else:
        st.update(**{dash(prop): value})


def drop(st, prop, way):
    if way == "del attribute":
        delattr(st, prop)
    elif way == "del item":
        del st[prop]
    elif way == "del dashed":
        del st[dash(prop)]
    else:
        st.update(**{prop: None})


def equal(x, got, want):
    """want: None, a word, or ("px", n)."""
    if isinstance(want, tuple):
        if not hasattr(got, "suffix"):
            return False
        return x.all(got.suffix == want[0], got.val == want[1])
    if hasattr(got, "suffix"):
        return False
    if isinstance(got, list):  # cursor
        return x.all(len(got) == 1, x.eq(got[0], want))
    return x.eq(got, want)


def start(L, prop):
    want = TABLE[prop][2]
    if prop == "border_spacing":
        return None
    if want == 0:
        return ("px", 0)
    return want


def judge(x, L, st, model, props):
    """model: {prop: value} of what is set; props: all names to read."""
    for p in props:
        want = model.get(p, start(L, p))
        for got in (getattr(st, p), st[p], st[dash(p)]):
            x.check(equal(x, got, want), "each property reads as it was last set, or as its initial value")
    for p in props:
        if p in model:
            if model[p] != start(L, p):
                x.check(p in st.keys(), "a property set to something else than its initial value is listed")
        else:
            x.check(p not in st.keys(), "a property that is not set is not listed")
    items = st.items()
    x.check(sorted(k for k, v in items) == sorted(st.keys()), "keys and items agree")
    x.check(len(set(st.keys())) == len(items), "each property once")
    for k, v in items:
        if k in model:
            x.check(equal(x, v, model[k]), "items have the values set")
    text = "; ".join(sorted(f"{dash(k)}: {'none' if v is None else v}" for k, v in items))
    x.check(x.eq(str(st), text), "the text lists the same properties and values, sorted")


PROPS = ("width", "margin_left", "display", "max_height", "text_align")


def value(x, prop, i):
    if prop in ("width", "margin_left", "max_height"):
        n = x.int(f"{prop}{i}", 1000, 9999)
        return n, ("px", n)
    if prop == "display":
        w = x.choice(f"display{i}", ("block", "none"))
        return w, None if w == "none" else w
    return "justify", "justify"


@harness("histories of 3 (thorough 4) sets and deletes of 5 properties by any of 5 + 4 ways")
def history(x, L):
    st = L.CSS()
    model = {}
    n = 3
    props = PROPS if x.tier == "thorough" else PROPS[:3]
    for i in range(n):
        p = x.choice(f"p{i}", props)
        way = x.choice(f"way{i}", SET[1:3] + DEL[1:3] if 0 < i < n - 1 else SET + DEL if i else SET[:1])
        if way in SET:
            v, want = value(x, p, i)
            put(st, p, v, way)
            model[p] = want
        else:
            drop(st, p, way)
            model.pop(p, None)
    judge(x, L, st, model, PROPS + ("height", "margin_right", "direction"))


@harness("each property: set by any way to each of its keywords or a length, all others unaffected; then deleted by any way")
def each(x, L):
    p = x.choice("property", tuple(TABLE))
    words, kinds, init = TABLE[p]
    st = L.CSS()
    n = x.int("z", 6000, 7000)
    st.z_index = n
    others = {q: getattr(st, q) for q in TABLE}
    way = x.choice("way", SET)
    if "length" in kinds and x.bool("length"):
        k = x.int("k", 0, 5000)
        v, want = k, ("px", k)
    elif "integer" in kinds and not words:
        v = want = k = x.int("k", -5, 5000)
    elif p == "z_index":
        v = want = x.int("k", -5, 5000)
    elif words:
        v = x.choice("word", words)
        want = None if v == "none" else v
    else:
        v = want = None
        if kinds == ("color",):
            v = L.colors.rgb(x.int("r", 0, 255), 0, 0)
        x.assume(v is not None)
    put(st, p, v, way)
    for got in (getattr(st, p), st[p], st[dash(p)]):
        if kinds == ("color",) and want is None:
            x.check(got is v, "reads as it was set")
        else:
            x.check(equal(x, got, want), "reads as it was set")
    follow = {"color": "border_top_color border_right_color border_bottom_color border_left_color".split(),
              "direction": ["text_align"]}.get(p, ())  # fmt: skip
    for q in TABLE:
        if q != p and q not in follow:
            x.check(x.eq(getattr(st, q), others[q]) if q == "z_index" else getattr(st, q) is others[q], "no other property changes")
    drop(st, p, {"attribute": DEL[0], "item": DEL[1], "dashed": DEL[2], "update": DEL[3], "update-dashed": DEL[0]}[way])
    if p == "z_index":
        x.check(x.eq(st.z_index, "auto"), "deleted: initial again")
    else:
        x.check(getattr(st, p) is others[p], "deleted: initial again")
        x.check(sorted(st.keys()) == ["z_index"], "deleted: no longer listed")
    for way in DEL:
        drop(st, p, way)
    x.check(p not in st.keys(), "deleting what is not set changes nothing")


NAMES = set(TABLE) | {"margin", "padding", "border", "border_top", "border_right", "border_bottom", "border_left",
                      "border_width", "border_style", "border_color", "outline"}  # fmt: skip


def refuses(exc, fn):
    try:
        fn()
    except exc:
        return True
    return False


@harness("any name of 1..7 characters (thorough 1..10) over a-z _ -: reading, setting and deleting by item", covers=["known", "unknown"])
def names(x, L):
    s = x.string("name", (1, 3, 5, 7) if x.tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10), "abcdefghijklmnopqrstuvwxyz_-")
    st = L.CSS(width=x.int("w", 1, 500), display="block")
    before = str(st)
    what = x.choice("what", ("get", "set", "del"))
    known = s.replace("-", "_") in NAMES
    if what == "get":
        bad = refuses(KeyError, lambda: st[s])
    elif what == "set":
        bad = refuses(KeyError, lambda: refuses(ValueError, lambda: st.__setitem__(s, "no-such-value")))
    else:
        bad = refuses(KeyError, lambda: st.__delitem__(s))
    if known:
        x.check(not bad, "a property of CSS is known, with dashes or underscores")
        x.cover("known")
    else:
        x.check(bad, "any other name is refused")
        x.check(x.eq(str(st), before), "and changes nothing")
        x.cover("unknown")


@harness("a style made from 2 properties, then updated with 3 (one removed): as if each was set or deleted in turn")
def several(x, L):
    a, b, c, d = (x.int(n, 1000, 9999) for n in "abcd")
    st = L.CSS(width=a, margin_left=b)
    gone = x.choice("gone", ("width", "margin_left", "height", "display"))
    st.update(**{"padding-top": c, gone: None, "max_height": d})
    model = {"width": ("px", a), "margin_left": ("px", b), "padding_top": ("px", c), "max_height": ("px", d)}
    model.pop(gone, None)
    judge(x, L, st, model, ("width", "margin_left", "padding_top", "max_height", "height", "display"))
    node = Node(L, st)
    node.style.update(width=d)
    x.check(node.style.width.val == d, "updated")


@harness("an update (or new style) of 4 properties, one of which, anywhere, has an unknown name or an invalid value: those before it are set, those after not")
def partly(x, L):
    a, b, c, d = (x.int(n, 1000, 9999) for n in "abcd")
    at, new = x.choice("at", (0, 1, 2, 3)), x.bool("dashed")
    kind = x.choice("kind", ("name", "value"))
    items = [("margin_top", a), ("height", b), ("padding-left" if new else "padding_left", c)]
    items.insert(at, ("no_such_property", d) if kind == "name" else ("width", x.choice("invalid", ("no-such-value", "", " ", (), "None"))))
    st = L.CSS(height=d, width=a)
    x.check(refuses(NameError if kind == "name" else ValueError, lambda: st.update(**dict(items))), "refused")
    model = {"height": ("px", d), "width": ("px", a)}
    model.update({k.replace("-", "_"): ("px", v) for k, v in items[:at]})
    judge(x, L, st, model, ("width", "margin_top", "padding_left", "height", "display"))
    x.check(refuses(NameError if kind == "name" else ValueError, lambda: L.CSS(**dict(items))), "refused on creation")


@harness("names that are not properties, given to a new style or an update, alone or after a property")
def unknown(x, L):
    name = x.choice("name", ("no_such_property", "Width", "width_", "_width", "margin__top", "copy", "update", "dirty", "node",
                             "_node", "items", "keys", "engine", "font-size", "", " width", "margin%s", "line_height"))  # fmt: skip
    a = x.int("a", 1000, 9999)
    st = L.CSS(width=a)
    before = str(st)
    v = x.choice("value", (None, 1, "auto"))
    x.check(refuses(NameError, lambda: L.CSS(**{name: v})), "refused on creation")
    x.check(refuses(NameError, lambda: st.update(**{name: v})), "refused in an update")
    x.check(refuses(KeyError, lambda: st[name]), "refused when read")
    x.check(refuses(KeyError, lambda: st.__setitem__(name, v)), "refused when set")
    x.check(refuses(KeyError, lambda: st.__delitem__(name)), "refused when deleted")
    x.check(x.eq(str(st), before), "and nothing changes")


@harness("the properties there are: each known name can be read, and items, keys and text of an empty style are empty")
def known(x, L):
    name = x.choice("name", tuple(sorted(NAMES)))
    st = L.CSS()
    st[name]
    st[dash(name)]
    del st[name]
    st.update(**{name: None})
    x.check(not st.keys() and not st.items() and str(st) == "", "nothing is set")


@harness(
    "an update of 3 entries out of a group, two of its sides and another property, in any order, each set or removed: as if each was set or "
    "deleted in turn, the last one counts"
)
def overlapping(x, L):
    group, sides = x.choice("group", (
        ("margin", ("margin_top", "margin_left")),
        ("padding", ("padding_right", "padding_bottom")),
        ("border_width", ("border_left_width", "border_top_width")),
    ))  # fmt: skip
    names = list(x.choice("order", ((0, 1, 2), (0, 2, 1), (1, 0, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0), (0, 1, 3), (3, 1, 0))))
    names = [(group,) + sides + ("height",) for i in "x"][0], names
    names = [names[0][i] for i in names[1]]
    st = L.CSS(width=x.int("w", 1000, 9999))
    model = {"width": ("px", st.width.val)}
    all_sides = [group.replace("border_", "border_%s_") % s if "border" in group else f"{group}_{s}" for s in ("top", "right", "bottom", "left")]
    if x.bool("set before"):
        setattr(st, group, 77)
        model.update({s: ("px", 77) for s in all_sides})
    given = {}
    for i, n in enumerate(names):
        v = None if x.bool(f"remove{i}") else x.int(f"v{i}", 1000, 9999)
        given[n.replace("_", "-") if i == 1 else n] = v
        for s in all_sides if n == group else [n]:
            if v is None:
                model.pop(s, None)
            else:
                model[s] = ("px", v)
    st.update(**given)
    judge(x, L, st, model, tuple(all_sides) + ("width", "height"))


@harness("None given to a property as attribute, item or dashed item: the keyword none, where there is one; ValueError otherwise; update removes")
def nothing(x, L):
    p = x.choice("property", tuple(TABLE))
    st = L.CSS()
    other = {"width": "height"}.get(p, "width")
    st[other] = x.int("w", 1000, 9999)
    words = TABLE[p][0]
    held = x.bool("held") and [w for w in words if w != "none"]
    if held:
        st[p] = held[-1]
    before = getattr(st, p)
    way = x.choice("way", ("attribute", "item", "dashed"))
    ok = not refuses(ValueError, lambda: put(st, p, None, way))
    if "none" in words:
        x.check(ok, "none is accepted")
        x.check(getattr(st, p) is None, "and read back")
        x.check(str(st).count(dash(p) + ": none") == (1 if p in st.keys() else 0), "its text is none")
    else:
        x.check(not ok, "refused")
        x.check(getattr(st, p) is before, "and nothing changes")
    st.update(**{dash(p): None})
    x.check(p not in st.keys() and other in st.keys(), "an update with None removes it")


def other_value(L, p, n):
    """A value for p that is not its initial one; n: a number from 1000 on."""
    words, kinds, init = TABLE[p]
    words = [w for w in words if w != init and not (w == "none" and init is None)]
    if "length" in kinds:
        return n * L.units.pt
    if "integer" in kinds:
        return n
    if "color" in kinds:
        return L.colors.rgb(n % 256, 1, 2, 0.5)
    for k, v in (("rect", L.shapes.Rect(*[k * L.units.px for k in (n, 2, 3, 4)])), ("quotes", [("<", ">")]), ("spacing", (n, 2)), ("cursor", ["url(a)", "help"])):
        if k in kinds:
            return v
    return words[-1] if p != "text_align" else "justify"


@harness("a style with every property set: one of them, any, set again to any of its keywords or another number, or deleted, by any way: every other one is as it was")
def full(x, L):
    n = x.int("n", 1000, 5000)
    st = L.CSS()
    for p in TABLE:
        st[p] = other_value(L, p, n)
    x.check(sorted(st.keys()) == sorted(TABLE), "all are set")
    before = dict(st.items())
    p = x.choice("property", tuple(TABLE))
    what = x.choice("what", ("delete", "number") + (("word",) if TABLE[p][0] else ()))
    if what == "delete":
        drop(st, p, x.choice("way", DEL))
        x.check(p not in st.keys(), "deleted")
    else:
        v = other_value(L, p, n + 1) if what == "number" else x.choice("word", TABLE[p][0])
        put(st, p, v, x.choice("way", SET if x.tier == "thorough" else ("attribute", "dashed", "update")))
        x.check(p in st.keys(), "still set")
    after = dict(st.items())
    for q in TABLE:
        if q != p:
            x.check(q in after and after[q] is before[q], "every other property is as it was")


@harness(
    "any two operations after each other on an empty style, or any one on a full style, out of 61: 16 properties, 5 groups of sides and 4 shorthands set "
    "or deleted, 12 refused assignments; by each of 3 ways: all of the style is as a model says"
)
def pairs(x, L):
    st, model = L.CSS(), {}
    if x.bool("full"):
        styles.full(x, L, st, model)
    else:
        styles.act(x, L, st, model, 0, ways=False)
    styles.judge(x, L, st, model)
    styles.act(x, L, st, model, 1, ways=x.tier != "quick")
    styles.judge(x, L, st, model)
