"""C14: a color text is either parsed to exactly the color it names or rejected with ValueError."""

from .common import registry

HARNESSES, harness = registry()

OUTSIDE = (
    "texts longer than stated or over other characters; white space other than a single blank after a comma; "
    "percentages in rgb() and missing percent signs in hsl(), on which the documentation is silent"
)

PROPS = ("color", "background_color", "border_top_color", "outline_color")
HEX = "0123456789abcdefABCDEF"
DIGITS = "0123456789"
MARKS = ",;:!?'\"()[]{}<>/\\|@#$%^&*+=~`\t\n"

# the CSS named colors
NAMES = """
aliceblue f0f8ff, antiquewhite faebd7, aqua 00ffff, aquamarine 7fffd4, azure f0ffff, beige f5f5dc,
bisque ffe4c4, black 000000, blanchedalmond ffebcd, blue 0000ff, blueviolet 8a2be2, brown a52a2a,
burlywood deb887, cadetblue 5f9ea0, chartreuse 7fff00, chocolate d2691e, coral ff7f50,
cornflowerblue 6495ed, cornsilk fff8dc, crimson dc143c, cyan 00ffff, darkblue 00008b, darkcyan 008b8b,
darkgoldenrod b8860b, darkgray a9a9a9, darkgreen 006400, darkgrey a9a9a9, darkkhaki bdb76b,
darkmagenta 8b008b, darkolivegreen 556b2f, darkorange ff8c00, darkorchid 9932cc, darkred 8b0000,
darksalmon e9967a, darkseagreen 8fbc8f, darkslateblue 483d8b, darkslategray 2f4f4f, darkslategrey 2f4f4f,
darkturquoise 00ced1, darkviolet 9400d3, deeppink ff1493, deepskyblue 00bfff, dimgray 696969,
dimgrey 696969, dodgerblue 1e90ff, firebrick b22222, floralwhite fffaf0, forestgreen 228b22,
fuchsia ff00ff, gainsboro dcdcdc, ghostwhite f8f8ff, gold ffd700, goldenrod daa520, gray 808080,
green 008000, greenyellow adff2f, grey 808080, honeydew f0fff0, hotpink ff69b4, indianred cd5c5c,
indigo 4b0082, ivory fffff0, khaki f0e68c, lavender e6e6fa, lavenderblush fff0f5, lawngreen 7cfc00,
lemonchiffon fffacd, lightblue add8e6, lightcoral f08080, lightcyan e0ffff, lightgoldenrodyellow fafad2,
lightgray d3d3d3, lightgreen 90ee90, lightgrey d3d3d3, lightpink ffb6c1, lightsalmon ffa07a,
lightseagreen 20b2aa, lightskyblue 87cefa, lightslategray 778899, lightslategrey 778899,
lightsteelblue b0c4de, lightyellow ffffe0, lime 00ff00, limegreen 32cd32, linen faf0e6, magenta ff00ff,
maroon 800000, mediumaquamarine 66cdaa, mediumblue 0000cd, mediumorchid ba55d3, mediumpurple 9370db,
mediumseagreen 3cb371, mediumslateblue 7b68ee, mediumspringgreen 00fa9a, mediumturquoise 48d1cc,
mediumvioletred c71585, midnightblue 191970, mintcream f5fffa, mistyrose ffe4e1, moccasin ffe4b5,
navajowhite ffdead, navy 000080, oldlace fdf5e6, olive 808000, olivedrab 6b8e23, orange ffa500,
orangered ff4500, orchid da70d6, palegoldenrod eee8aa, palegreen 98fb98, paleturquoise afeeee,
palevioletred db7093, papayawhip ffefd5, peachpuff ffdab9, peru cd853f, pink ffc0cb, plum dda0dd,
powderblue b0e0e6, purple 800080, rebeccapurple 663399, red ff0000, rosybrown bc8f8f, royalblue 4169e1,
saddlebrown 8b4513, salmon fa8072, sandybrown f4a460, seagreen 2e8b57, seashell fff5ee, sienna a0522d,
silver c0c0c0, skyblue 87ceeb, slateblue 6a5acd, slategray 708090, slategrey 708090, snow fffafa,
springgreen 00ff7f, steelblue 4682b4, tan d2b48c, teal 008080, thistle d8bfd8, tomato ff6347,
turquoise 40e0d0, violet ee82ee, wheat f5deb3, white ffffff, whitesmoke f5f5f5, yellow ffff00,
yellowgreen 9acd32
"""
TABLE = {}
for entry in NAMES.replace("\n", " ").split(","):
    TABLE[entry.split()[0]] = tuple(int(entry.split()[1][i : i + 2], 16) for i in (0, 2, 4))


def put(L, prop, value):
    """(accepted, color)"""
    st = L.CSS()
    try:
        setattr(st, prop, value)
    except ValueError:
        return False, None
    return True, getattr(st, prop)


def hexval(x, ch):
    c = ord(ch)
    if x.sym:
        return x.ite(c <= 57, c - 48, x.ite(c <= 70, c - 55, c - 87))
    return int(ch, 16)


def near(x, got, num, den):
    d = den * got - num
    return x.all(1000000000 * d <= den, 1000000000 * d >= -den)


@harness("# and 3, 4, 6 or 8 hex digits of either case", covers=["rgb", "rgba"])
def hexadecimal(x, L):
    n = x.choice("n", (3, 4, 6, 8))
    s = x.string("s", (n,), HEX)
    prop = x.choice("property", PROPS)
    ok, c = put(L, prop, "#" + s)
    x.check(ok, "a hex color is accepted")
    if not ok:
        return
    v = [hexval(x, ch) for ch in s]
    parts = [17 * d for d in v] if n < 6 else [16 * v[i] + v[i + 1] for i in range(0, n, 2)]
    x.observe("rgba", [c.r, c.g, c.b, c.a])
    x.check(x.all(c.r == parts[0], c.g == parts[1], c.b == parts[2]), "red, green and blue as given")
    if len(parts) == 4:
        x.check(near(x, c.a, parts[3], 255), "alpha as given")
        x.cover("rgba")
    else:
        x.check(c.a == 1, "opaque without an alpha")
        x.cover("rgb")


@harness("# and 0..9 characters over hex digits, g, G, -, _, blank and +: rejected unless 3, 4, 6 or 8 hex digits", covers=["bad", "good"])
def hexadecimal_or_not(x, L):
    s = x.string("s", (0, 1, 2, 3, 4, 5, 6, 7, 9) if x.tier == "quick" else tuple(range(11)), HEX + "gG-_ +.x")
    ok, c = put(L, "color", "#" + s)
    good = len(s) in (3, 4, 6, 8)
    if good:
        for ch in s:
            if not (ch in HEX):
                good = False
                break
    x.observe("ok", ok)
    x.check(ok == good, "accepted exactly if hex digits")
    x.cover("good" if good else "bad")


def number(x, name, lens):
    s = x.string(name, lens, DIGITS)
    v = 0
    for ch in s:
        v = v * 10 + (ord(ch) - 48)
    return s, v


def alpha(x):
    """A decimal alpha: its text, numerator and denominator."""
    a, va = number(x, "alpha", (1,))
    b, vb = number(x, "alpha frac", (0, 1, 2))
    if len(b):
        return a + "." + b, va * 10 ** len(b) + vb, 10 ** len(b)
    return a, va, 1


@harness("rgb(r, g, b) and rgba(r, g, b, a): components of 1..3 digits, alpha d[.d[d]], with or without blanks", covers=["rgb", "rgba"])
def rgb(x, L):
    has_alpha = x.bool("alpha")
    vals = [number(x, n, (1, 3)) for n in ("r", "g", "b")]
    texts = [t for t, _ in vals]
    if has_alpha:
        at, an, ad = alpha(x)
        texts.append(at)
    sep = x.choice("separator", (",", ", "))
    text = ("rgba(" if has_alpha else "rgb(") + sep.join(texts) + ")"
    prop = x.choice("property", PROPS[:2])
    ok, c = put(L, prop, text)
    x.check(ok, "accepted")
    if ok:
        x.observe("rgba", [c.r, c.g, c.b, c.a])
        x.check(x.all(*[got == v for got, (_, v) in zip((c.r, c.g, c.b), vals)]), "red, green and blue as given")
        x.check(near(x, c.a, an, ad) if has_alpha else c.a == 1, "alpha as given, or opaque")
        x.cover("rgba" if has_alpha else "rgb")


@harness("hsl(h, s%, l%) and hsla(h, s%, l%, a): h of 1..3 digits or negative, s and l of 1..3 digits", covers=["hsl", "hsla"])
def hsl(x, L):
    has_alpha = x.bool("alpha")
    h, hv = number(x, "h", (1, 3))
    if x.bool("negative"):
        h, hv = "-" + h, -hv
    s, sv = number(x, "s", (1, 2, 3))
    l, lv = number(x, "l", (1, 2, 3))
    texts = [h, s + "%", l + "%"]
    if has_alpha:
        at, an, ad = alpha(x)
        texts.append(at)
    sep = x.choice("separator", (",", ", "))
    ok, c = put(L, "color", ("hsla(" if has_alpha else "hsl(") + sep.join(texts) + ")")
    x.check(ok, "accepted")
    if ok:
        x.observe("hsla", [c.h, c.s, c.l, c.a])
        x.check(x.all(c.h == hv, near(x, c.s, sv, 100), near(x, c.l, lv, 100)), "hue, saturation and lightness as given")
        x.check(near(x, c.a, an, ad) if has_alpha else c.a == 1, "alpha as given, or opaque")
        x.cover("hsla" if has_alpha else "hsl")


@harness("functional notation with a wrong number of components, an empty one, a missing parenthesis, another name or capitals in it, or one component of 0..2 arbitrary characters")
def malformed(x, L):
    name = x.choice("name", ("rgb", "rgba", "hsl", "hsla"))
    hs = name[0] == "h"
    parts = ["1", "2%", "3%"] if hs else ["1", "2", "3"]
    if name[-1] == "a":
        parts.append("0.5")
    how = x.choice("how", ("fewer", "more", "none", "no open", "no close", "name", "component", "after", "before", "comma", "case"))
    opening, closing, sep = "(", ")", ", "
    if how == "fewer":
        parts = parts[: x.choice("keep", (1, 2, 3))] if name[-1] == "a" else parts[: x.choice("keep", (1, 2))]
    elif how == "more":
        parts = parts + [x.string("extra", (1, 2), DIGITS)]
    elif how == "none":
        parts = []
    elif how == "no open":
        opening = x.choice("opening", ("", "[", " "))
    elif how == "no close":
        closing = x.choice("closing", ("", "]", ")x", "("))
    elif how == "name":
        name = x.choice("other", ("rg", "rgbb", "cmyk", "hs", "", "hslx", "rgbx"))
    elif how == "comma":
        parts = {"last": parts + [""], "first": [""] + parts, "middle": parts[:1] + [""] + parts[1:], "blank": parts + [" "]}[
            x.choice("comma", ("last", "first", "middle", "blank"))
        ]
        sep = x.choice("sep", (", ", ","))
    elif how == "case":
        name = {"upper": name.upper(), "title": name.title(), "last": name[:-1] + name[-1].upper()}[x.choice("letters", ("upper", "title", "last"))]
    elif how == "after":
        closing = ")" + x.string("tail", (1,), "abc0" + MARKS.strip().replace(")", ""))
    elif how == "before":
        name = x.string("head", (1,), "abc0" + MARKS.strip()) + name
    else:
        i = x.choice("which", tuple(range(len(parts))))
        s = "5%%" if x.bool("double percent") else x.string("part", (0, 1, 2), "5.-%abx")
        integer = x.any(x.eq(s, "5"), x.eq(s, "55"), x.eq(s, "-5"))
        percent = x.any(integer, x.eq(s, "5%"))
        decimal = x.any(integer, x.eq(s, "5."), x.eq(s, ".5"))
        fine = decimal if i == 3 else (percent if hs and i > 0 else integer)
        x.assume(x.no(fine))
        parts[i] = s
    ok, c = put(L, "color", name + opening + sep.join(parts) + closing)
    x.observe("ok", ok)
    x.check(not ok, "rejected")


@harness("each of the 148 CSS color names, in lower, upper or mixed case", covers=["named"])
def named(x, L):
    name = x.choice("name", tuple(TABLE))
    case = x.choice("case", ("lower", "upper", "title"))
    ok, c = put(L, "color", {"lower": name, "upper": name.upper(), "title": name.title()}[case])
    x.check(ok, "a named color is accepted")
    if ok:
        x.observe("rgba", [c.r, c.g, c.b, c.a])
        x.check(x.all(c.r == TABLE[name][0], c.g == TABLE[name][1], c.b == TABLE[name][2], c.a == 1), "the standard color")
        x.cover("named")


@harness(
    "a color name (quick 8 of them, thorough all 148) with one of 38 characters put in at any place, or one character missing: "
    "rejected unless that is a color name too"
)
def almost_named(x, L):
    name = x.choice("name", ("red", "tan", "lightblue", "darkslategray", "white", "grey", "orange", "royalblue") if x.tier == "quick" else tuple(TABLE))
    at = x.choice("at", tuple(range(len(name) + 1)))
    if x.bool("missing"):
        x.assume(at < len(name))
        s = name[:at] + name[at + 1 :]
    else:
        s = name[:at] + x.string("extra", (1,), " -_.se1" + MARKS) + name[at:]
    ok, c = put(L, x.choice("property", PROPS[:2]), s)
    x.observe("ok", ok)
    good = x.any(False, *[x.eq(s, n) for n in TABLE if len(n) == len(s)])
    if good:
        x.check(ok, "a color name is accepted")
    else:
        x.check(not ok, "no other word is a color")


@harness("any text of 3 or 4 letters, and of 0..2 arbitrary characters: accepted exactly if a color name", covers=["good", "bad"])
def any_word(x, L):
    if x.bool("letters"):
        s = x.string("s", (3, 4), "abcdefghijklmnopqrstuvwxyz")
    else:
        s = x.string("t", (0, 1, 2), "#abr0(%, -")
    ok, c = put(L, "border_left_color", s)
    good = x.any(*[x.eq(s, n) for n in TABLE if len(n) == len(s)])
    if good:
        x.check(ok, "a color name is accepted")
        for n in TABLE:
            if len(n) == len(s) and s == n and ok:
                x.check(x.all(c.r == TABLE[n][0], c.g == TABLE[n][1], c.b == TABLE[n][2]), "the standard color")
        x.cover("good")
    else:
        x.check(not ok, "no other word is a color")
        x.cover("bad")


@harness("color objects with any components are kept; values of other types are rejected")
def objects(x, L):
    prop = x.choice("property", PROPS)
    if x.bool("color"):
        r, g, b = (x.int(n, 0, 255) for n in "rgb")
        a = x.frac("a", 0, 1, 8)
        v = L.colors.rgb(r, g, b, a) if x.bool("rgb") else L.colors.hsl(r, g, b, a)
        ok, c = put(L, prop, v)
        x.check(ok, "accepted")
        if ok:
            c, v = c.rgb if isinstance(v, L.colors.rgb) else c, v
            got = [c.r, c.g, c.b, c.a] if isinstance(v, L.colors.rgb) else [c.h, c.s, c.l, c.a]
            x.check(x.eq(got, [r, g, b, a]), "kept as it is")
    else:
        v = x.choice("bad", (0, 1.5, 255, [1, 2, 3], (1, 2, 3), {}, b"red", True))
        ok, c = put(L, prop, v)
        x.check(not ok, "values of other types are invalid")


@harness("functional notation with components of 4..20 digits, of either sign: as stated")
def large(x, L):
    name = x.choice("name", ("rgb", "rgba", "hsl", "hsla"))
    n = x.int("n", 1000, 9999)
    n = n if x.bool("small") else x.choice("big", (65536, 2**31, 2**53 + 1, 10**19 + 7))
    n = -n if x.bool("negative") else n
    at = x.choice("at", (0, 1, 2))
    vals = [1, 2, 3]
    vals[at] = n
    hs = name[0] == "h"
    text = name + "(" + ", ".join(f"{v}%" if hs and i else f"{v}" for i, v in enumerate(vals)) + (", 0.5)" if name[-1] == "a" else ")")
    ok, c = put(L, "color", text)
    x.check(ok, "accepted")
    if not ok:
        return
    got = (c.h, c.s, c.l) if hs else (c.r, c.g, c.b)
    for i in range(3):
        x.check(got[i] == (vals[i] / 100.0 if hs and i else vals[i]), "each component as stated")


@harness("color objects of derived types, and texts of a type derived from str: kept, or read, as the plain ones")
def derived(x, L):
    class Mine(L.colors.rgb):
        pass

    class Other(L.colors.hsl):
        pass

    class Text(str):
        pass

    n = x.int("n", 0, 255)
    prop = x.choice("property", PROPS)
    v = {"rgb": Mine(n, 2, 3), "hsl": Other(n, 0.5, 0.5)}[x.choice("kind", ("rgb", "hsl"))]
    ok, c = put(L, prop, v)
    x.check(ok and c is v, "kept")
    text, want = x.choice("text", ((Text("red"), (255, 0, 0)), (Text("#010203"), (1, 2, 3)), (Text("rgb(4, 5, 6)"), (4, 5, 6))))
    ok, c = put(L, prop, text)
    x.check(ok and (c.r, c.g, c.b) == want, "read")
