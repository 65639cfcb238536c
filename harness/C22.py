"""C22: structured values (clip, border-spacing, quotes, cursor, url) mean what was written, or are rejected with ValueError."""

from .common import registry

HARNESSES, harness = registry()

OUTSIDE = (
    "texts longer than stated or over other characters; whether url texts whose quotes do not match are accepted; an empty cursor list; auto as "
    "an edge of a rectangle, which the library does not accept; which of left and bottom comes third in rect(): the "
    "library's order (top, right, left, bottom) is taken as given by its tests"
)


def put(L, prop, value, way="attribute"):
    st = L.CSS()
    try:
        if way == "attribute":
            setattr(st, prop, value)
        else:
            st.update(**{prop: value})
    except ValueError:
        return None
    return getattr(st, prop)


def is_len(x, got, n, unit):
    return x.all(got.suffix == unit, got.val == n)


UNITS = ("px", "em", "mm", "%", "vmin")


def length(x, L, i, text):
    """(as given, number, unit)."""
    n = 0 if x.bool(f"zero{i}") else x.int(f"n{i}", 10, 99)
    u = x.choice(f"unit{i}", ("px", "mm") if x.tier == "quick" else UNITS)
    if text or u != "px":
        return f"{n}{u}", n, u
    return n, n, u


@harness("rect(a, b, c, d), with commas or blanks, any widths 0, 10..99 in px, mm (thorough 5 units), blanks around; or a rectangle object")
def rect(x, L):
    vals = [length(x, L, i, True) for i in range(4)]
    sep = x.choice("separator", (", ", ",", " ", "  ", " , "))
    pad = x.choice("pad", ("", " "))
    text = pad + "rect(" + pad + sep.join(v[0] for v in vals) + pad + ")" + pad
    r = put(L, "clip", text, x.choice("way", ("attribute", "update")))
    x.check(r is not None, "accepted")
    if r is None:
        return
    for got, (v, n, u) in zip((r.top, r.right, r.left, r.bottom), vals):
        x.check(is_len(x, got, n, u), "each edge as written, in order")
    again = put(L, "clip", str(r))
    x.check(again is not None and again == r, "its text is accepted, for an equal rectangle")
    x.check(put(L, "clip", r) is r, "the object itself is accepted")
    x.check(L.shapes.Rect(r.top, r.right, r.left, r.bottom) == r, "equal to one made of the same edges")


@harness("two rectangles with arbitrary edges are equal exactly if all four edges are")
def rect_equal(x, L):
    a = [x.int(f"a{i}", -50, 50) for i in range(4)]
    b = [x.int(f"b{i}", -50, 50) for i in range(4)]
    ua, ub = x.choice("unit", ("px", "pt")), x.choice("other", ("px", "pt"))
    one = L.shapes.Rect(*[v * getattr(L.units, ua) for v in a])
    two = L.shapes.Rect(*[v * getattr(L.units, ub) for v in b])
    same = x.all(*[p == q for p, q in zip(a, b)]) if ua == ub else False
    x.check((one == two) == same, "equal exactly if all edges are")
    x.check(not (one == "rect") and not (one == 0), "never equal to something else")


@harness("rect texts that are wrong in one way: 3 or 5 edges, mixed separators, a blank inside a number or unit, an edge of 0..2 arbitrary characters, missing or extra parts, either parenthesis at any other place")
def rect_malformed(x, L):
    kind = x.choice("kind", ("count", "mixed", "edge", "form", "type", "place", "blank"))
    if kind == "blank":
        vals = ["11px", "12px", "13px", "14px"]
        i, at = x.choice("edge", (0, 1, 2, 3)), x.choice("after", (1, 3))
        vals[i] = vals[i][:at] + " " + vals[i][at:]
        text = "rect(" + x.choice("sep", (", ", ",", " ")).join(vals) + ")"
    elif kind == "place":
        # the parentheses elsewhere
        words = [x.choice("sep", (", ", " ")).join(("11px", "12px", "13px", "14px"))][0]
        part = x.choice("part", ("rect(", ")"))
        at = x.choice("at", tuple(range(0, len(words) + 1)))
        x.assume(at != (0 if part == "rect(" else len(words)))
        text = words[:at] + part + words[at:]
        text = text + ")" if part == "rect(" else "rect(" + text
    elif kind == "count":
        n = x.choice("n", (0, 1, 2, 3, 5, 6))
        text = "rect(" + x.choice("sep", (", ", " ")).join(f"{10 + i}px" for i in range(n)) + ")"
    elif kind == "mixed":
        text = x.choice("text", ("rect(1px 2px, 3px, 4px)", "rect(1px, 2px 3px 4px)", "rect(1px, 2px, 3px 4px)", "rect(1px,,2px,3px)",
                                 "rect(1px, 2px, 3px, 4px,)", "rect(,1px, 2px, 3px)"))  # fmt: skip
    elif kind == "edge":
        s = x.string("s", (0, 1, 2), "1px-.e")
        at = x.choice("at", (0, 3))
        vals = ["11px", "12px", "13px", "14px"]
        vals[at] = s
        text = "rect(" + ", ".join(vals) + ")"
        digits = s[1:] if len(s) > 0 and s[0] == "-" else s
        digits = digits[:-1] if len(digits) > 1 and digits[-1] == "." else digits
        digits = digits[1:] if len(digits) > 1 and digits[0] == "." else digits
        good = len(digits) > 0 and all([c in "1" for c in digits])
        if good:
            x.check(put(L, "clip", text) is not None, "a number is pixels")
            return
    elif kind == "form":
        text = x.choice("text", ("rect 1px, 2px, 3px, 4px", "rect(1px, 2px, 3px, 4px", "1px, 2px, 3px, 4px)", "rect((1px, 2px, 3px, 4px)",
                                 "rect(1px, 2px, 3px, 4px))", "rectangle(1px, 2px, 3px, 4px)", "rect(rect(1px, 2px, 3px, 4px))", "", "rect",
                                 "rect(1px, 2px, 3px, 4px) x", "xrect(1px, 2px, 3px, 4px)", "rect(1px, 2px, auto, 4deg)", "circle(1px)"))  # fmt: skip
    else:
        text = x.choice("value", (None, 5, (1, 2, 3, 4), [1, 2, 3, 4], object()))
    x.check(put(L, "clip", text) is None, "rejected")


@harness("border-spacing: 1 or 2 lengths as text (any blanks), tuple, list or number", covers=["one", "two"])
def spacing(x, L):
    form = x.choice("form", ("text", "tuple", "list", "bare"))
    n = 1 if form == "bare" else x.choice("count", (1, 2))
    vals = [length(x, L, i, form == "text") for i in range(n)]
    words = [v[0] for v in vals]
    pad = x.choice("pad", ("", " ")) if form == "text" else ""
    v = {"text": lambda: pad + (" " + pad).join(words) + pad, "tuple": lambda: tuple(words), "list": lambda: words, "bare": lambda: words[0]}[form]()
    s = put(L, "border_spacing", v)
    x.check(s is not None, "accepted")
    if s is None:
        return
    x.check(is_len(x, s.horizontal, vals[0][1], vals[0][2]), "the first length is horizontal")
    x.check(is_len(x, s.vertical, vals[-1][1], vals[-1][2]), "the last length is vertical")
    x.cover("one" if n == 1 else "two")
    t = put(L, "border_spacing", str(s))
    x.check(t is not None and x.all(t.horizontal == s.horizontal, t.vertical == s.vertical), "its text is accepted, for an equal value")
    x.check(put(L, "border_spacing", s) is s, "the object itself is accepted")
    x.check(x.eq(str(s), " ".join(f"{n}{u}" for v, n, u in vals)), "its text is the lengths")


@harness("border-spacing of 0, 3 or 4 lengths, or with one that is no length")
def spacing_malformed(x, L):
    form = x.choice("form", ("text", "tuple", "list"))
    n = x.choice("count", (0, 1, 2, 3, 4))
    words = [f"{10 + i}px" for i in range(n)]
    if n in (1, 2):
        words[x.choice("at", tuple(range(n)))] = x.choice("bad", ("px", "1,", "auto", "5deg", "x", "1px2", "--1"))
    v = " ".join(words) if form == "text" else tuple(words) if form == "tuple" else words
    x.check(put(L, "border_spacing", v) is None, "rejected")


def quote(x, name, sizes, letters="<«a' \""):
    return x.string(name, sizes, letters)


@harness("quotes: 1 or 2 (thorough 3) pairs of any texts of 1..2 characters (blanks and quotes included), as pairs or a flat list")
def quotes(x, L):
    n = x.choice("pairs", (1, 2)) if x.tier == "quick" else x.choice("pairs", (1, 2, 3))
    vals = [quote(x, f"q{i}", (1, 2) if i < 2 else (1,), "<«a '\"“”" if i < 2 else "<“a ") for i in range(2 * n)]
    form = x.choice("form", ("pairs", "flat", "tuple", "lists"))
    pairs = [(vals[2 * i], vals[2 * i + 1]) for i in range(n)]
    v = {"pairs": pairs, "flat": vals, "tuple": tuple(vals), "lists": [list(p) for p in pairs]}[form]
    q = put(L, "quotes", v)
    judge_quotes(x, L, q, pairs)


def judge_quotes(x, L, q, pairs):
    x.check(q is not None, "accepted")
    if q is None:
        return
    x.check(len(q) == len(pairs), "as many levels as pairs")
    for i, (o, c) in enumerate(pairs):
        x.check(x.eq(q.opening(i), o), "the opening quote of each level")
        x.check(x.eq(q.closing(i), c), "the closing quote of each level")
    for side in (q.opening, q.closing):
        try:
            side(len(pairs))
            x.check(False, "no level beyond the last")
        except IndexError:
            pass
    x.check(x.eq(str(q), " ".join(f"{o!r} {c!r}" for o, c in pairs)), "its text is the quotes in order")
    t = put(L, "quotes", str(q))
    x.check(t is not None and t == q, "its text is accepted, for equal quotes")
    x.check(put(L, "quotes", q) is q, "the object itself is accepted")
    x.check(L.wrappers.Quotes(pairs) == q, "equal to one made alike")
    x.check(not (L.wrappers.Quotes(pairs + [("a", "b")]) == q), "not to one with another level")


@harness("quotes as text: 1 or 2 pairs of quoted texts of 1..3 characters, single or double quotes, one or more blanks between")
def quotes_text(x, L):
    n = x.choice("pairs", (1, 2))
    vals = [quote(x, f"q{i}", (1, 3) if i == 0 else (1,), "<«a ") for i in range(2 * n)]
    mark = x.choice("mark", ("'", '"'))
    sep = x.choice("separator", (" ", "  "))
    q = put(L, "quotes", sep.join(mark + v + mark for v in vals))
    judge_quotes(x, L, q, [(vals[2 * i], vals[2 * i + 1]) for i in range(n)])


@harness("quotes that are wrong: an odd number, none, an empty one, one that is no text, unquoted text, unfinished text")
def quotes_malformed(x, L):
    kind = x.choice("kind", ("odd", "empty", "type", "text"))
    a = quote(x, "a", (1, 2), "<«a")
    if kind == "odd":
        v = x.choice("value", (1, 3, 0))
        v = [a] * v
        if x.bool("text"):
            v = " ".join("'" + s + "'" for s in v)
    elif kind == "empty":
        v = x.choice("value", (0, 1, 2))
        v = [["", a], [a, ""], [(a, a), (a, "")]][v]
        if x.bool("text") and not isinstance(v[0], tuple):
            v = " ".join("'" + s + "'" for s in v)
    elif kind == "type":
        v = x.choice("value", ([1, 2], [None, "a"], ["a", 5], [("a", b"b")], [("a", ("b", "c"))], 5, {"a": "b"}, [("a", "b"), 3, 4], [[]]))
    else:
        v = x.choice("value", ("a b", "< >", "'a b", "'a' b", "'a' 'b", "\"a' 'b\"", "1 2", "('a' 'b')", "'a', 'b'", "'a' + 'b'", "None None"))
    x.check(put(L, "quotes", v) is None, "rejected")


CURSORS = ("auto", "crosshair", "default", "pointer", "move", "e-resize", "ne-resize", "nw-resize", "n-resize", "se-resize", "sw-resize",
           "s-resize", "w-resize", "text", "wait", "help", "progress")  # fmt: skip


@harness("cursor: 0..2 (thorough 3) urls followed by any cursor name or nothing, as text or list", covers=["urls", "name"])
def cursor(x, L):
    n = x.choice("urls", (0, 1, 2)) if x.tier == "quick" else x.choice("urls", (0, 1, 2, 3))
    urls = [x.string(f"u{i}", (1, 3) if i == 0 else (1,), "ab./:") for i in range(n)]
    name = x.choice("name", (None,) + CURSORS)
    x.assume(n > 0 or name is not None)
    mark = x.choice("mark", ("", "'", '"'))
    form = x.choice("form", ("text", "list", "tuple"))
    words = ["url(" + mark + u + mark + ")" for u in urls] + ([name] if name else [])
    sep = x.choice("separator", (", ", ",")) if form == "text" else None
    c = put(L, "cursor", sep.join(words) if form == "text" else tuple(words) if form == "tuple" else words)
    x.check(c is not None, "accepted")
    if c is None:
        return
    x.check(len(c) == len(words), "as many as given")
    for got, u in zip(c, urls):
        x.check(x.eq(got.url, u), "each url in order")
    if name:
        x.check(x.eq(c[-1], name), "the name last")
        x.cover("name")
    if urls:
        x.cover("urls")
    x.check(x.eq(str(c), ", ".join(['url("' + u + '")' for u in urls] + ([name] if name else []))), "its text lists them")
    t = put(L, "cursor", str(c))
    x.check(t is not None, "its text is accepted")
    if t is not None:
        x.check(x.eq([getattr(v, "url", v) for v in t], [getattr(v, "url", v) for v in c]), "for an equal list")
    t = put(L, "cursor", c)
    x.check(t is not None and x.eq([getattr(v, "url", v) for v in t], [getattr(v, "url", v) for v in c]), "the list itself is accepted")


@harness("cursor: any single word of 2..6 letters, or two names, a name before a url, something that is no url")
def cursor_malformed(x, L):
    kind = x.choice("kind", ("word", "two", "order", "url", "type"))
    if kind == "word":
        s = x.string("s", (2, 4) if x.tier == "quick" else (2, 3, 4, 5, 6), "abcdefghijklmnopqrstuvwxyz-")
        v = s if x.bool("text") else [s]
        c = put(L, "cursor", v)
        if s in CURSORS:
            x.check(c is not None and x.eq(c[0], s), "a name is accepted")
        elif s != "inherit":
            x.check(c is None, "rejected")
        return
    if kind == "two":
        words = [x.choice("a", CURSORS), x.choice("b", CURSORS)]
    elif kind == "order":
        words = [x.choice("a", CURSORS), 'url("x")']
        if x.bool("more"):
            words = ["url(y)"] + words + (["help"] if x.bool("end") else [])
    elif kind == "url":
        words = [x.choice("bad", ("URL(x)", "Url(x)", "uRL('x')", "url (x)", "url", "url(", "url)", "uri(x)", "x.png", "'x'", "url x)", "(x)", "", "xurl(x)", "none", "Auto", "WAIT", "initial", "zoom-in", "grab", "e_resize", "hand"))]
        if x.bool("last"):
            words = words + ["help"]
    else:
        v = x.choice("value", (5, None, object(), {"auto": 1}, [None], [5], ["url(x)", 5], [["auto"]]))
        x.check(put(L, "cursor", v) is None, "rejected")
        return
    x.check(put(L, "cursor", ", ".join(words) if x.bool("text") else words) is None, "rejected")


@harness("url texts: any address of 0..4 characters without quotes (nor blanks at its ends, if not quoted), quoted or not, blanks inside the parentheses or around")
def url(x, L):
    s = x.string("s", (0, 1, 2, 4), "ab./:?\\ )(")
    mark = x.choice("mark", ("", "'", '"'))
    # between quotes, blanks belong to the address
    x.assume(mark != "" or len(s) == 0 or (s[0] != " " and s[-1] != " "))
    pad = x.choice("pad", ("", " ", "  "))
    out = x.choice("outside", ("", " "))
    text = out + "url(" + pad + mark + s + mark + pad + ")" + out
    u = L.parser.uri(text)
    x.check(x.eq(u.url, s), "the address as written")
    x.check(x.eq(str(u), 'url("' + s + '")'), "its text")
    x.check(x.eq(L.parser.uri(str(u)).url, s), "its text gives the same address")
    x.check(L.parser.uri(u) is u, "the object itself is accepted")


@harness("url texts whose quotes do not match: any address of 1..3 characters after or before one quote: rejected, or read as written")
def url_unmatched(x, L):
    s = x.string("s", (1, 2, 3), "ab./:?")
    mark = x.choice("mark", ("'", '"'))
    inner = {"open": mark + s, "close": s + mark, "mixed": mark + s + ("'" if mark == '"' else '"')}[x.choice("kind", ("open", "close", "mixed"))]
    try:
        u = L.parser.uri("url(" + inner + ")")
    except ValueError:
        return
    x.check(x.eq(u.url, inner), "the address as written")


@harness("quotes of 3..7 levels, one quote anywhere arbitrary (1 or 2 characters): every level reads back, in objects and text")
def quotes_many(x, L):
    n = x.choice("pairs", (3, 4, 5, 7))
    vals = [chr(ord("A") + i) for i in range(2 * n)]
    at = x.choice("at", tuple(range(2 * n)))
    vals[at] = quote(x, "q", (1, 2), "<a")
    pairs = [(vals[2 * i], vals[2 * i + 1]) for i in range(n)]
    v = {"pairs": pairs, "flat": vals, "text": " ".join("'" + t + "'" for t in vals)}[x.choice("form", ("pairs", "flat", "text"))]
    judge_quotes(x, L, put(L, "quotes", v), pairs)


@harness("quoted url texts: any address of 1..3 characters of letters and quotes of either kind, in quotes: the address as written")
def url_quotes(x, L):
    s = x.string("s", (1, 2, 3), "a'\"")
    mark = x.choice("mark", ("'", '"'))
    x.check(x.eq(L.parser.uri("url(" + mark + s + mark + ")").url, s), "only the outer quotes are removed")


@harness("texts that are no url: another function, other case, blanks before the parenthesis, none or one of the parentheses, around any address of 1..3 characters: ValueError")
def url_malformed(x, L):
    s = x.string("s", (1, 2, 3), "ab./:")
    head, tail = x.choice("form", (("URL(", ")"), ("Url(", ")"), ("uri(", ")"), ("url (", ")"), ("url[", "]"), ("url(", ""), ("url", ")"), ("", ""), ("", ")"), ("xurl(", ")"), ("url(", ")x"), ("src(", ")")))
    mark = x.choice("mark", ("", "'", '"'))
    try:
        L.parser.uri(head + mark + s + mark + tail)
        bad = False
    except ValueError:
        bad = True
    x.check(bad, "refused")


@harness("cursors of 5..20 urls and a name, as text or list, and quotes of 10 or 25 levels: all are kept, in order")
def long(x, L):
    n = x.choice("n", (5, 9, 12, 20))
    name = x.choice("name", ("help", "auto", None))
    a = x.string("a", (1,), "ab")
    urls = ["u%d" % i for i in range(n - 1)] + [a]
    words = ["url(" + u + ")" for u in urls] + ([name] if name else [])
    c = put(L, "cursor", ", ".join(words) if x.bool("text") else words)
    x.check(c is not None and len(c) == len(words), "as many as given")
    x.check(x.eq([getattr(v, "url", v) for v in c], urls + ([name] if name else [])), "in order")
    m = x.choice("levels", (10, 25))
    vals = ["q%d" % i for i in range(2 * m - 1)] + [a]
    q = put(L, "quotes", vals if x.bool("flat") else " ".join("'" + v + "'" for v in vals))
    x.check(q is not None and len(q) == m, "as many levels as pairs")
    x.check(all(q.opening(i) == vals[2 * i] for i in range(m)), "each opening quote")
    x.check(x.all(*[x.eq(q.closing(i), vals[2 * i + 1]) for i in range(m)]), "each closing quote")


@harness("border spacing, cursor and quotes given in other kinds of sequence: as in a list")
def sequences(x, L):
    from collections import UserList, deque

    class Mine(list):
        pass

    cls = (UserList, deque, Mine)[x.choice("type", (0, 1, 2))]
    n = x.int("n", 10, 99)
    s = put(L, "border_spacing", cls([n, "2mm"]))
    x.check(s is not None and x.all(s.horizontal.val == n, s.vertical.val == 2), "spacing")
    c = put(L, "cursor", cls(["url(a)", "help"]))
    x.check(c is not None and len(c) == 2 and c[0].url == "a" and c[1] == "help", "cursor")
    q = put(L, "quotes", cls(["a", "b"]) if x.bool("flat") else cls([cls(["a", "b"])]))
    x.check(q is not None and len(q) == 1 and q.opening(0) == "a" and q.closing(0) == "b", "quotes")


@harness(
    "one wrong item anywhere among 1..5 good ones: a quote that is empty or no text, a cursor that is no url (or a name before "
    "the end); given as a list, tuple or text: ValueError, and the style is as before"
)
def wrong_item(x, L):
    n = x.choice("items", (1, 2, 3, 4, 5))
    at = x.choice("at", (0, 1, 2, 3, 4))
    x.assume(at < n)
    form = x.choice("form", (list, tuple, str))
    what = x.choice("what", ("quotes", "cursor"))
    st = L.CSS(quotes=[("a", "b")], cursor=["help"], width=3)
    before = str(st)
    if what == "quotes":
        items = [["<", ">"] for i in range(n)]
        items[at][x.choice("side", (0, 1))] = x.choice("wrong", ("", 3, None, b"x", ()) if form is not str else ("", 3, None))
        value = form(tuple(i) for i in items) if form is not str else " ".join(repr(q) for i in items for q in i)
    else:
        items = [f"url(u{i}.png)" for i in range(n)] + ["help"]
        items[at] = x.choice("wrong", ("help", "nothing", "url", "url(", "src(u)", "", "url u", "auto"))
        value = form(items) if form is not str else ", ".join(items)
    try:
        setattr(st, what, value)
        ok = True
    except ValueError:
        ok = False
    x.check(not ok, "refused")
    x.check(str(st) == before, "nothing changed")
