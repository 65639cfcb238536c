"""C24: initial values that follow another property: border colors follow the color, text-align the direction, until set."""

from .C16 import TABLE
from .C20 import sample
from .common import registry

HARNESSES, harness = registry()

OUTSIDE = "histories longer than stated; inheritance from parents, which the library does not do"

SIDES = ("top", "right", "bottom", "left")
BORDERS = tuple(f"border_{s}_color" for s in SIDES)


def colored(x, L, name):
    k = x.choice(name + ".form", ("rgb", "name"))
    return L.colors.rgb(x.int(name, 0, 255), 1, 2) if k == "rgb" else x.choice(name + ".name", ("red", "navy"))


def check_colors(x, L, st, color, own):
    want = L.constants.default if color is None else color
    if color is None:
        x.check(st.color is want, "unset color is up to the platform")
    for p in BORDERS:
        got = getattr(st, p)
        if own[p] is None:
            x.check(got is st.color, "an unset border color is the color, as it is now")
            x.check(p not in st.keys(), "without being set")
        else:
            x.check(got is own[p], "a set border color is its own")
    x.check(all(g is getattr(st, p) for g, p in zip(st.border_color, BORDERS)), "as group as well")


@harness("3 steps (thorough 4): set or delete the color, one border's color or all of them, or copy; checked after each")
def border_color(x, L):
    st = L.CSS()
    color, own = None, {p: None for p in BORDERS}
    check_colors(x, L, st, color, own)
    for i in range(3 if x.tier == "quick" else 4):
        step = x.choice(f"step{i}", ("color", "no color", "border", "no border", "all", "none", "copy", "shorthand"))
        if step == "color":
            st.color = x.choice(f"c{i}", ("red", "navy"))
            color = st.color
        elif step == "no color":
            del st.color
            color = None
        elif step in ("border", "no border"):
            p = x.choice(f"side{i}", BORDERS[:2] if i else BORDERS)
            if step == "border":
                c = L.colors.rgb(x.int(f"r{i}", 0, 255), 1, 2)
                setattr(st, p, c)
                own[p] = c
            else:
                delattr(st, p)
                own[p] = None
        elif step == "all":
            c = L.colors.rgb(9, 9, x.int(f"b{i}", 0, 255))
            st.border_color = c
            own = {p: c for p in BORDERS}
        elif step == "none":
            del st["border-color"]
            own = {p: None for p in BORDERS}
        elif step == "shorthand":
            st.border_left = (x.int(f"w{i}", 1, 99), "solid")  # no color: reset
            own["border_left_color"] = None
        else:
            st = st.copy()
        check_colors(x, L, st, color, own)


@harness("3 steps (thorough 5): set or delete direction or text-align, or copy; checked after each")
def text_align(x, L):
    st = L.CSS()
    direction, own = "ltr", None
    for i in range(3 if x.tier == "quick" else 5):
        step = x.choice(f"step{i}", ("ltr", "rtl", "no direction", "left", "right", "center", "justify", "no align", "copy", "update"))
        if step in ("ltr", "rtl"):
            st.direction = direction = step
        elif step == "no direction":
            del st.direction
            direction = "ltr"
        elif step == "no align":
            del st["text-align"]
            own = None
        elif step == "copy":
            st = st.copy()
        elif step == "update":
            st.update(direction="rtl", text_align=None)
            direction, own = "rtl", None
        else:
            st.text_align = own = step
        want = own or {"ltr": "left", "rtl": "right"}[direction]
        x.check(x.eq(st.text_align, want), "text-align is what was set, or follows the direction")
        x.check(x.eq(st["text-align"], want), "as item as well")
        x.check((own is not None) == ("text_align" in st.keys()), "listed exactly if set")
        x.check(x.eq(st.direction, direction), "the direction is as set")


@harness("two styles: the color or direction of one never shows in the other")
def separate(x, L):
    a, b = L.CSS(), L.CSS(color="green")
    c = colored(x, L, "c")
    a.color = c
    x.check(b.border_top_color is b.color, "the other follows its own color")
    x.check(a.border_top_color is a.color, "the first follows its own")
    b.direction = "rtl"
    x.check(a.text_align == "left" and b.text_align == "right", "each follows its own direction")
    x.check(L.CSS().border_left_color is L.constants.default, "a new style is not affected")
    del b.color
    x.check(b.border_left_color is L.constants.default, "deleted: up to the platform")
    x.check(a.border_bottom_color is a.color, "the first still follows its own")


@harness("any one other property set (before or after the color was read), then the color and the direction set, changed and deleted")
def among_others(x, L):
    p = x.choice("property", tuple(q for q in TABLE if q not in BORDERS + ("color", "direction", "text_align")))
    st = L.CSS()
    own = {q: None for q in BORDERS}
    if x.bool("read before"):
        check_colors(x, L, st, None, own)
        x.check(x.eq(st.text_align, "left"), "text-align follows the direction")
    setattr(st, p, sample(x, L, p, 0))
    check_colors(x, L, st, None, own)
    x.check(x.eq(st.text_align, "left"), "text-align follows the direction")
    for c in ("red", "navy"):
        st.color = c
        st.direction = "rtl" if c == "red" else "ltr"
        check_colors(x, L, st, st.color, own)
        x.check(x.eq(st.text_align, "right" if c == "red" else "left"), "text-align follows the direction")
    if x.bool("delete the other"):
        delattr(st, p)
    del st.color
    st.direction = "rtl"
    check_colors(x, L, st, None, own)
    x.check(x.eq(st.text_align, "right"), "text-align follows the direction")
