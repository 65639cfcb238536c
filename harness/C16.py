"""C16: every property accepts exactly its values, stores them canonically, and rejects the rest unchanged."""

from .common import Display, Node, registry

HARNESSES, harness = registry()

OUTSIDE = (
    "texts longer than 8 characters that are not keywords, or with characters outside a-z and -; the defaulting keywords "
    "(inherit, initial, unset, revert) where CSS would allow them and the property does not list them; "
    "lengths, colors and structured values in detail (C13, C14, C22)"
)

STYLES = "none hidden dotted dashed solid double groove ridge inset outset"
# property: (keywords, kinds of other values, initial)
TABLE = {}


def define(names, keywords, kinds="", initial=None):
    for name in names.split():
        TABLE[name] = (tuple(keywords.split()), tuple(kinds.split()), initial)


SIDES = ("top", "right", "bottom", "left")
for side in SIDES:
    define(f"margin_{side}", "auto", "length percentage", 0)
    define(f"padding_{side}", "", "length percentage", 0)
    define(f"border_{side}_width", "thin medium thick", "length", 0)
    define(f"border_{side}_style", STYLES, "", None)
    define(f"border_{side}_color", "transparent initial inherit unset revert", "color", "color")
    define(side, "auto inherit", "length percentage", "auto")
define(
    "display",
    "none block inline list-item inline-block table inline-table table-row-group table-header-group table-footer-group "
    "table-row table-column-group table-column table-cell table-caption flex inline-flex grid inline-grid",
    "",
    "inline",
)
define("position", "static relative absolute fixed", "", "static")
define("float", "left right none", "", None)
define("clear", "none left right both", "", None)
define("z_index", "auto", "integer", "auto")
define("direction", "ltr rtl", "", "ltr")
define("unicode_bidi", "normal embed bidi-override", "", "normal")
define("width height min_width min_height", "auto", "length percentage", "auto")
define("max_width max_height", "none", "length percentage", None)
define("overflow", "visible hidden scroll auto inherit", "", "visible")
define("clip", "auto inherit", "rect", "auto")
define("visibility", "visible hidden collapse", "", "visible")
define("quotes", "none initial inherit", "quotes", "initial")
define("page_break_before page_break_after", "auto always avoid left right inherit", "", "auto")
define("page_break_inside", "auto avoid inherit", "", "auto")
define("orphans widows", "inherit", "integer", 2)
define("color", "", "color", "default")
define("background_color", "transparent", "color", "default")
define("text_indent", "inherit", "length percentage", 0)
define("text_align", "left right center justify inherit", "", "left")
define("text_decoration", "none underline overline line-through blink inherit", "", None)
define("letter_spacing word_spacing", "normal inherit", "length", "normal")
define("text_transform", "none capitalize uppercase lowercase inherit", "", None)
define("white_space", "normal pre nowrap pre-wrap pre-line inherit", "", "normal")
define("caption_side", "top bottom inherit", "", "top")
define("table_layout", "auto fixed inherit", "", "auto")
define("border_collapse", "collapse separate inherit", "", "separate")
define("border_spacing", "inherit", "spacing", 0)
define("empty_cells", "show hide inherit", "", "show")
define("cursor", "inherit", "cursor", "auto")
define("outline_width", "thin medium thick inherit", "length", "medium")
define("outline_style", STYLES + " inherit", "", None)
define("outline_color", "invert inherit", "color", "invert")

PLAIN = tuple(p for p in TABLE if TABLE[p][0] and not TABLE[p][1])
LENGTHS = tuple(p for p in TABLE if "length" in TABLE[p][1])
INTEGERS = ("z_index", "orphans", "widows")


def assign(x, st, prop, value, way):
    """True if accepted, False if ValueError."""
    try:
        if way == "attribute":
            setattr(st, prop, value)
        elif way == "item":
            st[prop] = value
        elif way == "dashed":
            st[prop.replace("_", "-")] = value
        else:
            st.update(**{prop: value})
    except ValueError:
        return False
    return True


WAYS = ("attribute", "item", "dashed", "update")


@harness("each property and each of its keywords, assigned as attribute, item, dashed item or update")
def keywords(x, L):
    prop = x.choice("property", tuple(p for p in TABLE if TABLE[p][0]))
    word = x.choice("keyword", TABLE[prop][0])
    st = L.CSS()
    ok = assign(x, st, prop, word, x.choice("way", WAYS))
    x.check(ok, "a keyword is accepted")
    got = getattr(st, prop)
    x.observe("got", got)
    x.check(x.eq(got, None if word == "none" else word), "and read back")


@harness("each property with only keywords: any text of letters, blanks, dashes and underscores as long as one of its keywords, that or one longer or shorter")
def any_text(x, L):
    prop = x.choice("property", PLAIN)
    words = TABLE[prop][0]
    lens = {len(w) + d for w in words for d in (-1, 0, 1)}
    s = x.string("s", tuple(sorted(lens | ({3, 4, 5} if x.tier == "quick" else set(range(9))))), TEXT)
    st = L.CSS()
    before = getattr(st, prop)
    ok = assign(x, st, prop, s, "attribute")
    known = x.any(*[x.eq(s, w) for w in words if len(w) == len(s)])
    if known:
        x.check(ok, "a keyword is accepted")
        got = getattr(st, prop)
        for w in words:
            if len(w) == len(s) and s == w:
                # a keyword from outside is as good as the library's own constant
                x.check(x.eq(got, None if w == "none" else w), "and read back")
                x.check(canonical(L, got), "as the library's own constant")
        x.cover("known")
    else:
        x.check(not ok, "any other word is rejected")
        x.check(getattr(st, prop) is before, "and changes nothing")
        x.cover("unknown")


@harness("each property and keyword, with blanks or a line end around it, repeated, cut short, capitalized or in upper case: rejected")
def misspelled(x, L):
    prop = x.choice("property", tuple(p for p in TABLE if TABLE[p][0]))
    w = x.choice("keyword", TABLE[prop][0])
    s = x.choice("as", (" " + w, w + " ", w + "\n", w + ";", w.upper(), w.capitalize(), w[:-1], w + w[-1], w + " " + w, w + "," + w, f"'{w}'"))
    kinds = TABLE[prop][1]
    x.assume(s not in TABLE[prop][0])
    # a list of cursors and a quoted text have a syntax of their own (C22), a color name any case (C14)
    x.assume(not ("cursor" in kinds and s.strip(" ,\n") == w) and not ("quotes" in kinds and "'" in s))
    st = L.CSS()
    before = getattr(st, prop)
    ok = assign(x, st, prop, s, x.choice("way", WAYS[:2]))
    x.check(not ok, "anything but the keyword itself is rejected")
    x.check(getattr(st, prop) is before, "and changes nothing")


LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
TEXT = LETTERS + "-_ "


def canonical(L, value):
    """The value is one of the constants the layout engine tests by identity, or is not such a value."""
    if value is None:
        return True
    for name in ("BLOCK", "INLINE", "LIST_ITEM", "TABLE", "INLINE_BLOCK", "INLINE_TABLE", "TABLE_CELL", "TABLE_CAPTION",
                 "AUTO", "LTR", "ABSOLUTE", "FIXED", "RELATIVE", "THIN", "MEDIUM", "THICK"):  # fmt: skip
        c = getattr(L.constants, name)
        if value == c:
            return value is c
    return True


@harness("length properties: any text of 3..7 letters (thorough: 1..8 letters and blanks); accepted exactly if a keyword of the property")
def any_word_for_length(x, L):
    prop = x.choice("property", LENGTHS)
    words = TABLE[prop][0]
    s = x.string("s", (3, 4, 5, 6, 7) if x.tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8), LETTERS if x.tier == "quick" else LETTERS + " ")
    st = L.CSS()
    ok = assign(x, st, prop, s, x.choice("way", ("attribute", "item")))
    known = x.any(*[x.eq(s, w) for w in words if len(w) == len(s)])
    if known:
        x.check(ok, "a keyword is accepted")
        x.check(canonical(L, getattr(st, prop)), "as the library's own constant")
    else:
        x.check(not ok, "any other word is rejected")


@harness("integer properties: any integer up to 10**20 of either sign, any text of 0..3 characters over digits + - . a e blank (thorough 4)")
def integers(x, L):
    prop = x.choice("property", INTEGERS)
    st = L.CSS()
    if x.bool("number"):
        v = x.int("v", -(10**20), 10**20)
        ok = assign(x, st, prop, v, x.choice("way", WAYS))
        x.check(ok, "an integer is accepted")
        x.check(x.all(getattr(st, prop) == v, isinstance(getattr(st, prop), int)), "and read back")
        return
    s = x.string("s", (0, 1, 2, 3) if x.tier == "quick" else (0, 1, 2, 3, 4), "0123456789+-.ae")
    ok = assign(x, st, prop, s, "attribute")
    body = s[1:] if len(s) > 0 and s[0] in "+-" else s
    good = len(body) > 0
    num = 0
    for ch in body:
        if ch in "0123456789":
            num = num * 10 + (ord(ch) - 48)
        else:
            good = False
            break
    if good:
        x.check(ok, "an integer's text is accepted")
        x.check(getattr(st, prop) == (-num if s[0] == "-" else num), "and read back as the integer")
        x.check(isinstance(getattr(st, prop), int), "as an int")
    else:
        x.check(not ok, "anything else is rejected")


NEAR = (
    lambda w: "+" + w, lambda w: "-" + w, lambda w: w + "!", lambda w: w + ";", lambda w: w + "s", lambda w: w[:-1],
    lambda w: '"' + w + '"', lambda w: w + " " + w, lambda w: w + "," + w, lambda w: w + " important", lambda w: "_" + w,
    lambda w: "initial " + w, lambda w: w.replace("-", "_") + "_",
)  # fmt: skip


def junk(x, L, prop):
    """A value no property accepts (or None, for those without the keyword)."""
    kind = x.choice("junk", ("word", "near", "object", "dict", "bytes", "angle", "function", "number", "none", "style", "list",
                             "empty tuple", "empty list", "empty set", "empty dict", "empty bytes", "class"))  # fmt: skip
    kinds = TABLE[prop][1]
    if kind == "number":
        x.assume(not kinds or kinds == ("color",) or kinds == ("rect",) or kinds == ("quotes",) or kinds == ("cursor",))
        return x.int("number", -9, 9)
    if kind == "none":
        x.assume("none" not in TABLE[prop][0])
        return None
    if kind == "list":
        x.assume("cursor" not in kinds)
        return [1.5, None, ()]
    if kind in ("empty tuple", "empty list", "empty bytes"):
        x.assume("cursor" not in kinds)
    if kind == "near":
        x.assume(len(TABLE[prop][0]) > 0)
        word = TABLE[prop][0][-1]
        return x.choice("near", tuple(f(word) for f in NEAR))
    return {
        "word": "no-such-keyword",
        "object": object(),
        "dict": {"a": 1},
        "bytes": b"auto",
        "angle": 3 * L.units.deg,
        "function": len,
        "style": L.CSS(),
        "empty tuple": (),
        "empty list": [],
        "empty set": set(),
        "empty dict": {},
        "empty bytes": b"",
        "class": type(L.CSS()),
    }[kind]


@harness(
    "each property holding a value or not, in a style with other values: a value of a wrong type or an unknown word is "
    "rejected with ValueError; nothing changes, not even the need for a layout"
)
def rejected(x, L):
    prop = x.choice("property", tuple(TABLE))
    node = Node(L, L.CSS(display="block", width=x.int("w", 1, 99), direction="rtl", z_index=3))
    st = node.style
    if x.bool("set before") and TABLE[prop][0]:
        setattr(st, prop, TABLE[prop][0][-1])
    before = dict(st.items())
    text = str(st)
    dirty = x.choice("dirty", (True, False))
    node.layout.dirty = dirty
    way = x.choice("way", ("attribute", "dashed"))
    value = junk(x, L, prop)
    ok = assign(x, st, prop, value, way)
    x.check(not ok, "rejected")
    after = dict(st.items())
    x.check(sorted(before) == sorted(after), "the same properties are set")
    x.check(x.all(*[after[k] is before[k] for k in before if k in after]), "to the same values")
    x.check(node.layout.dirty == dirty, "and the layout is as valid as before")
    x.check(x.eq(str(st), text), "and the style renders the same")


@harness("a fresh style: every property reads as its initial value")
def initial(x, L):
    prop = x.choice("property", tuple(TABLE))
    st = L.CSS()
    got = getattr(st, prop)
    want = TABLE[prop][2]
    if want == 0:
        got = getattr(got, "horizontal", got)
        x.check(x.all(got.val == 0, got.suffix == "px"), "initially zero")
    elif want == "color":
        x.check(got is st.color, "initially the color")
    elif want == "default":
        x.check(got is L.constants.default, "initially up to the platform")
    elif prop == "cursor":
        x.check(x.eq(list(got), ["auto"]), "initially auto")
    else:
        x.check(x.eq(got, want), "the CSS initial value")
    x.check(st[prop] is got or want == 0, "by item as well")
    x.check(prop not in st.keys(), "without being set")
