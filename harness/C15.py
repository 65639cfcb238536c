"""C15: an hsl color converts to the rgb color CSS defines for it, to the nearest of 256 levels."""

from .common import registry

HARNESSES, harness = registry()

OUTSIDE = "hues finer than 1/4 degree; saturations and lightnesses that are not whole percentages; all of h, s and l arbitrary at once"


def expected(x, h, s, l):
    """Numerators of r, g, b over 60 * 100 * 200: CSS Color 3, 4.2.4, in integers (h degrees, s and l percent)."""
    while h < 0:
        h = h + 360
    while h >= 360:
        h = h - 360
    spread = 2 * l if l <= 50 else 200 - 2 * l  # 100 * (1 - |2l - 1|)
    c = spread * s  # 100 * 100 * chroma
    sector = 0
    while h >= 60 * (sector + 1):
        sector += 1
    ramp = h - 60 * sector if sector % 2 == 0 else 60 * (sector + 1) - h  # 60 * (1 - |h/60 mod 2 - 1|)
    m = 200 * l - c  # 2 * 100 * 100 * m
    hi = 60 * (m + 2 * c)
    mid = 60 * m + 2 * c * ramp
    lo = 60 * m
    return ((hi, mid, lo), (mid, hi, lo), (lo, hi, mid), (lo, mid, hi), (mid, lo, hi), (hi, lo, mid))[sector]


SCALE = 60 * 100 * 100 * 2


def judge(x, L, h, s, l, a=1.0, form="object", limits=True):
    if form == "object":
        c = L.colors.hsl(h, s / 100, l / 100, a)
    else:
        st = L.CSS(color=f"hsla({h}, {s}%, {l}%, {a})")
        c = st.color
    got = c.rgb
    x.observe("rgb", [got.r, got.g, got.b, got.a])
    x.check(x.eq(got.a, a), "alpha is kept")
    for v, e, name in zip((got.r, got.g, got.b), expected(x, h, s, l), ("red", "green", "blue")):
        d = v * SCALE - 255 * e
        # half a level, and float rounding
        x.check(x.all(2 * d <= SCALE + 2, 2 * d >= -SCALE - 2), f"{name} is the nearest level")
        if limits:
            x.check(x.all(v >= 0, v <= 255), f"{name} is between 0 and 255")
        x.check(isinstance(v, int), f"{name} is an int")
    x.check(got.rgb is got, "an rgb color is its own rgb form")


SL = ((100, 50), (50, 50), (75, 25), (33, 80), (0, 40), (100, 100), (100, 0), (10, 90))


@harness("any hue -1440..1800 degrees, (s, l) one of 8 pairs")
def hue(x, L):
    s, l = x.choice("sl", SL)
    judge(x, L, x.int("h", -1440, 1800), s, l)


HUES = (0, 30, 59, 60, 61, 90, 119, 120, 150, 180, 200, 239, 240, 241, 270, 299, 300, 301, 330, 359, 360, -30, 400)


@harness("any saturation 0..100%, listed hues around all sector limits, l 20, 50 or 85%")
def saturation(x, L):
    judge(x, L, x.choice("h", HUES), x.int("s", 0, 100), x.choice("l", (20, 50, 85)))


@harness("any lightness 0..100%, listed hues around all sector limits, s 30, 100 or 66%")
def lightness(x, L):
    judge(x, L, x.choice("h", HUES), x.choice("s", (30, 100, 66)), x.int("l", 0, 100))


@harness("assigned as text to a style: any hue 0..359, three (s, l) pairs, alpha 0.5")
def text(x, L):
    s, l = x.choice("sl", SL[:3])
    judge(x, L, x.int("h", 0, 359), s, l, 0.5, "text")


@harness("any alpha that is a multiple of 1/4096, 0..1, or 8 other floats; six colors")
def alpha(x, L):
    a = x.frac("a", 0, 1, 4096) if x.bool("any") else x.choice("other", (0, 1, 0.1, 1 / 3, 0.005, 0.995, 1e-9, 0.0001))
    judge(x, L, x.choice("h", (0, 45, 200)), x.choice("s", (0, 80)), 50, a)


@harness("greys: with no saturation the three levels are equal, for any hue and lightness")
def grey(x, L):
    c = L.colors.hsl(x.int("h", 0, 359), 0, x.int("l", 0, 100) / 100).rgb
    x.observe("rgb", [c.r, c.g, c.b])
    x.check(x.all(c.r == c.g, c.g == c.b), "a grey")


@harness("any saturation and lightness together, hues 0, 30, 90, 210, 300 (thorough: every multiple of 30)")
def plane(x, L):
    hues = (0, 30, 90, 210, 300) if x.tier == "quick" else tuple(range(0, 360, 30))
    judge(x, L, x.choice("h", hues), x.int("s", 0, 100), x.int("l", 0, 100), limits=False)


@harness("any hue and saturation together, lightness 20, 50, 85% (thorough 10 values)")
def wheel(x, L):
    ls = (20, 50, 85) if x.tier == "quick" else (1, 10, 20, 25, 33, 49, 50, 51, 75, 85, 99)
    judge(x, L, x.int("h", 0, 359), x.int("s", 0, 100), x.choice("l", ls))


@harness("hues that are multiples of 1/4 degree, 0..360; (s, l) one of 8 pairs")
def fine_hue(x, L):
    s, l = x.choice("sl", SL)
    judge(x, L, x.frac("h", 0, 360, 4), s, l)


@harness("saturations or lightnesses that are multiples of 1/8 percent, 0..100; hues 0, 40, 100, 170, 220, 310, l 20 or 50%")
def fine_saturation(x, L):
    h = x.choice("h", (0, 40, 100, 170, 220, 310))
    if x.bool("lightness"):
        judge(x, L, h, x.choice("s", (30, 100) if x.tier == "thorough" else (100,)), x.frac("l", 0, 100, 8), limits=False)
    else:
        judge(x, L, h, x.frac("s", 0, 100, 8), x.choice("l", (20, 50)), limits=False)


@harness("hues of up to 10**7 turns either way plus one of 7 angles: as the angle alone, (s, l) one of 2 pairs")
def many_turns(x, L):
    s, l = x.choice("sl", ((100, 50), (33, 80)))
    h = x.choice("h", (0, 30, 60, 119, 180, 241, 359))
    turns = x.choice("k", (10, 11, 100, 12345, 10**7, -4, -10, -11, -10**7))
    judge(x, L, h + 360 * turns, s, l)
