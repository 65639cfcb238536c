"""A reference model of a style as a map, and any two operations on it after each other."""

from .C16 import TABLE

SIDES = ("top", "right", "bottom", "left")
GROUPS = {
    "margin": [f"margin_{s}" for s in SIDES],
    "padding": [f"padding_{s}" for s in SIDES],
    "border_width": [f"border_{s}_width" for s in SIDES],
    "border_style": [f"border_{s}_style" for s in SIDES],
    "border_color": [f"border_{s}_color" for s in SIDES],
}
SHORTS = {f"border_{s}": [f"border_{s}_{k}" for k in ("width", "style", "color")] for s in SIDES}
SHORTS["border"] = [p for s in SIDES for p in SHORTS[f"border_{s}"]]
SHORTS["outline"] = [f"outline_{k}" for k in ("width", "style", "color")]

SINGLE = {
    "margin_top": lambda L, n: n,
    "padding_left": lambda L, n: n * L.units.mm,
    "border_left_color": lambda L, n: "#010203",
    "border_top_width": lambda L, n: n,
    "border_left_style": lambda L, n: "dotted",
    "color": lambda L, n: "red",
    "direction": lambda L, n: "rtl",
    "text_align": lambda L, n: "center",
    "outline_width": lambda L, n: "thin",
    "cursor": lambda L, n: ["help"],
    "quotes": lambda L, n: [("<", ">")],
    "width": lambda L, n: f"{12.5}%",
    "display": lambda L, n: "none",
    "z_index": lambda L, n: n,
    "clip": lambda L, n: "rect(1px, 2px, 3px, 4px)",
    "border_spacing": lambda L, n: (1, 2),
}
WRONG = {"width": "wide", "color": "reddish", "z_index": 1.5, "display": 3, "margin": (1, "x"), "border_style": ("solid", "x"), "border_left": "1px 2px",
         "outline": "x", "border": (), "border_color": (1, 2, 3, 4, 5), "cursor": ["help", "help"], "quotes": ["a"]}  # fmt: skip


def operations():
    out = [("set", p) for p in SINGLE] + [("delete", p) for p in SINGLE]
    out += [("set", g) for g in GROUPS] + [("delete", g) for g in GROUPS]
    out += [("set", s) for s in ("border", "border_left", "outline")] + [("delete", s) for s in ("border", "border_left", "border_top", "outline")]
    out += [("refuse", p) for p in WRONG]
    return out


def members(p):
    return GROUPS.get(p) or SHORTS.get(p) or [p]


def canonical(L, p, v):
    """The value as a style that has nothing else keeps it."""
    st = L.CSS()
    setattr(st, p, v)
    return getattr(st, p)


def act(x, L, st, model, i, ops=None, ways=True):
    """Some operation on the style and the same on the model; returns (kind, property)."""
    kind, p = x.choice(f"op{i}", tuple(ops or operations()))
    way = x.choice(f"way{i}", ("attribute", "dashed", "update")) if ways else "attribute"
    name = p.replace("_", "-")
    if kind == "delete":
        for q in members(p):
            model.pop(q, None)
        if way == "attribute":
            delattr(st, p)
        elif way == "dashed":
            del st[name]
        else:
            st.update(**{p: None})
        return kind, p
    n = x.int(f"n{i}", 1000, 9999)
    new = {}
    if kind == "refuse":
        value = WRONG[p]
    elif p in SINGLE:
        value = SINGLE[p](L, n)
        new[p] = value
    elif p in GROUPS:
        a, b = {"border_style": ("solid", "inset"), "border_color": ("red", "#00ff00")}.get(p, (n, f"{2.5}mm"))
        value = (a, b)
        for k, q in enumerate(GROUPS[p]):
            new[q] = value[k % 2]
    else:
        value = ("double", 7)
        new = {q: None for q in SHORTS[p]}
        for q in SHORTS[p]:
            new[q] = "double" if q.endswith("style") else 7 if q.endswith("width") else None
    try:
        if way == "attribute":
            setattr(st, p, value)
        elif way == "dashed":
            st[name] = value
        else:
            st.update(**{p: value})
        ok = True
    except ValueError:
        ok = False
    x.check(ok is (kind != "refuse"), "accepted, or refused, as it should")
    for q, v in new.items():
        if v is None:
            model.pop(q, None)
        else:
            model[q] = canonical(L, q, v)
    return kind, p


def alike(x, a, b):
    if a is b:
        return True
    if hasattr(a, "suffix") and hasattr(b, "suffix"):
        return x.all(x.eq(a.suffix, b.suffix), x.eq(a.val, b.val))
    if type(a) is not type(b):
        return x.eq(a, b) if isinstance(a, (int, float)) and isinstance(b, (int, float)) else False
    for names in (("r", "g", "b", "a"), ("horizontal", "vertical"), SIDES):
        if all(hasattr(a, k) for k in names):
            return x.all(*[alike(x, getattr(a, k), getattr(b, k)) for k in names])
    if isinstance(a, (list, tuple)):
        return x.all(len(a) == len(b), *[alike(x, c, d) for c, d in zip(a, b)])
    if type(a).__name__ == "Quotes":
        return str(a) == str(b)
    return x.eq(a, b)


def expected(L, model, p, fresh):
    if p in model:
        return model[p]
    if p.startswith("border_") and p.endswith("_color") and "color" in model:
        return model["color"]
    if p == "text_align":
        return "right" if model.get("direction") == "rtl" else "left"
    return getattr(fresh, p)


def judge(x, L, st, model, what="every property reads as last set, or as it is initially"):
    fresh = L.CSS()
    x.check(x.all(*[alike(x, getattr(st, p), expected(L, model, p, fresh)) for p in TABLE]), what)
    keys = st.keys()
    x.check(all(p in model for p in keys), "what is not set is not listed")
    for p in model:
        x.check(p in keys or alike(x, model[p], getattr(fresh, p)), "what is set is listed")
    items = st.items()
    x.check(sorted(k for k, v in items) == sorted(keys), "keys and items agree")
    x.check(x.all(*[alike(x, v, model[k]) for k, v in items if k in model]), "items have the values set")
    x.check(str(st).count(": ") >= len(items), "the text has them all")


def full(x, L, st, model, without=()):
    """Set about everything."""
    n = x.int("n of all", 1000, 9999)
    for p in list(SINGLE) + [q for g in ("margin", "padding", "border_width", "border_style", "border_color", "outline") for q in members(g)]:
        if p in without:
            continue
        if p in SINGLE:
            v = SINGLE[p](L, n)
        else:
            v = "inset" if p.endswith("style") else "blue" if p.endswith("color") else 9
        setattr(st, p, v)
        model[p] = canonical(L, p, v)
