"""What each property is compared with (used by gen.py to write DESIGN.md)."""

ORACLE = {
    "C01": "the equations of CSS 2.1 10.3.3 written over the driver's own inputs: the sum of the seven terms, who gives way, halves of the rest; no value is taken from the engine's intermediate results.",
    "C02": "max(min, min(max, size)) of the sizes the driver chose (10.4, 10.7).",
    "C03": "a recursive margin-collapsing model in the driver (which margins adjoin is decided from borders, paddings and heights chosen by the driver), giving the position of every border box and every auto height.",
    "C04": "arithmetic identities between the 12 stored values and every derived edge and size of dimensions.Box.",
    "C05": "sum of the offsets along the parent chain, recomputed by the driver after each step.",
    "C06": "differential: the same library lays out a freshly built tree with equal styles; all geometry must be equal terms. A style snapshot before and after a layout must be equal.",
    "C07": "differential: the same tree built without the hidden elements.",
    "C08": "differential: the same tree with the box static, plus the displacement computed by the driver from 9.4.3.",
    "C09": "the driver's formula for root position, width and height in both standards; the Display object is compared before and after.",
    "C10": "10.3.1, 10.3.2, 10.6.1, 10.6.2 over the driver's inputs.",
    "C11": "percentage times the reference size over 100, within 1/64 px, with the reference chosen by the driver (width for horizontal and vertical margins/paddings).",
    "C12": "rational conversion factors per unit (inch = dpi px, cm = dpi/2.54 ...), |difference| <= 1/64 px; histories of two conversions compare with fresh objects.",
    "C13": "a hand-written automaton over the symbolic characters deciding number+unit, and the exact decimal value as rational.",
    "C14": "hand-written readers of the same symbolic characters; the 148 names from a table in the harness, not from the code.",
    "C15": "the CSS Color 3 hsl algorithm as rational case split over hue sextants, nearest of 256 levels, one level of tolerance at exact halves.",
    "C16": "the data sheet TABLE in the harness: for every property its keywords, kinds of value and initial value.",
    "C17": "a plain dict model updated along the history.",
    "C18": "the CSS 1-to-4 rule over the driver's own list.",
    "C19": "a model with three slots per side; reset rule of CSS 2.1 8.5.4.",
    "C20": "value-by-value equality of all properties, and a snapshot of the untouched partner.",
    "C21": "the set of nodes below the changed node, computed by the driver over its own tree.",
    "C22": "the parts the text was assembled from.",
    "C23": "equality of the property's text and fields before and after re-assignment.",
    "C24": "model: own value if set, else the current color / the side the direction gives.",
    "C25": "a plain list with the same elements.",
    "C26": "the widths of the Display object the driver made.",
    "C27": "a declaration splitter in the driver; each text assigned to an empty style; equality of values.",
    "C28": "NotImplementedError, and differential against a fresh tree afterwards.",
    "C29": "comparison with the limits, and a hand-written reader of number texts.",
}
