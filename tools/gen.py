#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below (development aid; the checks do not need it)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/colosseum/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over.split(), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files.split()],
            "mechanism": [{"name": n, "where": S + w} for n, w in mech],
            "hook_needed": None,
        },
    }
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


BOX = ["the layout box of each node after a layout"]

prop(
    "C01",
    "Horizontal geometry of block boxes follows CSS 2.1 section 10.3.3",
    "After a layout, for every block or list item in normal flow without minimum/maximum width, left margin + borders + "
    "paddings + content width + right margin equals the width of its containing block, whichever of margins and width "
    "are auto, given or too large together; given paddings, borders and (unless over-constrained) margins and width are "
    "used as given. Over-constrained boxes give up the right margin (the left one in right-to-left direction), auto "
    "margins take up equal shares of the space left (to a whole pixel), an auto width takes all the space left, and auto "
    "margins are zero when the width is auto or does not fit.",
    "inputs configurations",
    "all pixel, 1/64-pixel and listed percentage values of the seven widths, both directions, any viewport width, root, child and grandchild boxes",
    "the reference tests lay out fixed documents in a handful of viewports; they meet each auto/over-constrained case for a "
    "few numbers only, never the equality for every combination of margins, width and direction",
    "engine.py units.py dimensions.py",
    [("block widths", "engine.py:calculate_block_non_replaced_normal_flow_width"), ("dispatch", "engine.py:calculate_width_and_margins")],
    BOX,
)
prop(
    "C02",
    "Minimum and maximum sizes limit the used size",
    "The used width of a block with a given width is that width limited to its max-width and then to its min-width, so the "
    "minimum wins a conflict; likewise heights, and an auto height is never less than min-height. "
    "This holds for pixel, fractional and percentage limits, for the root and for blocks within it; limits of an auto "
    "width and a maximum of an auto height are not promised. (Except for the recorded defect that percentage height limits "
    "below the root are taken of 0.)",
    "inputs configurations",
    "all integer and 1/64-pixel sizes and limits, listed percentages, limits set or not, with 0..3 children, both directions",
    "tests try a few limits; the order of the two clamps and the boundary cases (equal, crossed, zero) need every relation between the three sizes",
    "engine.py",
    [("width limits", "engine.py:calculate_width_and_margins"), ("height limits", "engine.py:calculate_height_and_margins")],
    BOX,
)
prop(
    "C03",
    "Blocks stack downwards, adjoining vertical margins collapse",
    "Block children are placed below one another in tree order; the gap between two of them is the larger of the lower "
    "margin of the first and the upper margin of the second, where a parent without border or padding on that side takes "
    "in the margin of its first or last child, and a parent with border or padding keeps it inside. "
    "The auto height of a block spans its children accordingly. (Non-negative margins; every block has some content.)",
    "inputs programs",
    "all non-negative margins, heights, paddings and borders in trees of up to three levels below the root and up to six siblings, px, fractional or percentage margins",
    "the outcome depends on which of many margins is largest and on which borders are zero; tests fix one ordering each",
    "engine.py dimensions.py",
    [("stacking and collapsing", "engine.py:layout_box"), ("auto height", "engine.py:calculate_block_non_replaced_normal_flow_height")],
    BOX,
)
prop(
    "C04",
    "Content, padding and border boxes nest consistently",
    "For every box the padding box is the content box extended by the paddings and the border box is the padding box "
    "extended by the borders, on all four sides; each reported width and height is the difference of the corresponding "
    "edges. Absolute edges are the relative ones shifted by one and the same origin.",
    "inputs",
    "all integer and 1/64-pixel values of the twelve stored quantities and origins, set directly or by a layout",
    "tests use a few boxes with several sides equal or zero, where a swapped or missing term cancels",
    "dimensions.py engine.py",
    [("derived edges", "dimensions.py:Box")],
    ["edge and size attributes of the layout box"],
)
prop(
    "C05",
    "Absolute positions are the sum of offsets, whatever was moved when",
    "At any time the absolute position of a box is the sum of its own offset and those of all its ancestors' boxes, after "
    "a layout and after any sequence of moves of any boxes of the tree.",
    "histories inputs",
    "histories of up to four moves of any box of a chain of five or a tree of six boxes to any position; layouts with static and relative boxes",
    "tests move one or two boxes once; a missed propagation shows only for particular sequences and depths",
    "dimensions.py engine.py",
    [("origin propagation", "dimensions.py:Box._origin_top/_origin_left/content_top/content_left")],
    ["absolute position attributes of each box"],
)
prop(
    "C06",
    "Layout depends on the tree, its styles and the display only",
    "Laying out a tree gives the same boxes as laying out a freshly built tree with the same styles on the same display, "
    "whatever was laid out, changed, resized or moved about before. "
    "In particular a second layout of an unchanged tree changes nothing, and a layout never changes any style.",
    "histories inputs configurations",
    "repeated layouts, any style property the engine reads changed, reset or deleted in between, display resized and restored, subtrees moved, other trees laid out, for arbitrary values",
    "every test lays out a fresh tree once; stale state needs a history",
    "engine.py dimensions.py declaration.py",
    [("box state reset per layout", "engine.py:layout_box"), ("box reset", "dimensions.py:Box.reset")],
    BOX,
)
prop(
    "C07",
    "Elements that are not displayed take no part in the layout",
    "A tree with elements whose display is none is laid out as if these elements and everything below them were absent, "
    "wherever in the tree they are and whether hidden from the start or later; hidden elements have no layout box. "
    "Shown again, they are laid out with their current style and size.",
    "inputs histories",
    "any subset of up to four siblings hidden, inline and block, nested; hide/show histories with style and size changes while hidden",
    "the reference tests contain no hidden elements in the passing set",
    "engine.py declaration.py dimensions.py",
    [("no box when display is none", "engine.py:layout_box"), ("child filtering", "engine.py:layout_box")],
    BOX,
)
prop(
    "C08",
    "Relative positioning moves a box and nothing else",
    "A relatively positioned block is displaced from its static position by its offsets, with its content, while its size "
    "and the position and size of all other boxes stay as if it were static; offsets have no effect on static boxes. "
    "Of two opposite offsets top wins over bottom, and left wins over right in left-to-right, right over left in "
    "right-to-left direction of the box itself; auto offsets are taken from the opposite one, or zero. (Except for the three recorded "
    "defects: top border/padding of the positioned block, auto-height parents whose last child is positioned, and "
    "percentage vertical offsets below the root, which are taken of 0.)",
    "inputs programs",
    "all integer offsets (positive and negative), fractions and listed percentages, any combination of the four offsets, both directions, root, first, middle or last child, nested positioned blocks",
    "tests place one box at one offset; displacement of what follows shows only against the static layout of the same tree",
    "engine.py",
    [("relative offsets", "engine.py:layout_box")],
    BOX,
)
prop(
    "C09",
    "The root box starts at its margin edge and fills the viewport's width",
    "The root element's border box starts its left margin and its collapsed top margin away from the viewport's corner, and "
    "an auto width makes margin box and viewport equally wide. By default and in the HTML5 rule the root's content height "
    "is that of the viewport less the collapsed top and bottom margins; in the HTML4 rule it is its given height or that "
    "of its content. The margins of its children collapse with its own only where no border or padding separates them "
    "(non-negative margins, block roots), and the display is never changed.",
    "inputs configurations",
    "all viewport sizes and margins, paddings, borders (px, fractional, percentage), with and without a child, both HTML standards",
    "tests use two or three viewports and fixed root styles",
    "engine.py",
    [("layout entry", "engine.py:layout"), ("root margins", "engine.py:layout_box")],
    BOX,
)
prop(
    "C10",
    "Inline elements use their intrinsic sizes and place their edges",
    "An inline non-replaced element has its intrinsic size whatever width, height or limits its style gives, and starts "
    "after its left margin, border and padding; auto margins are zero. An inline replaced element uses the width and "
    "height its style gives, and its intrinsic ones where those are auto. (Single inline elements; the height derived "
    "from an intrinsic ratio is a recorded defect.)",
    "inputs configurations",
    "all integer intrinsic sizes, margins, paddings, borders and given sizes, as root or in one or two blocks, replaced or not, listed ratios",
    "the passing tests cover a few fixed numbers and never compare given against intrinsic sizes for all combinations",
    "engine.py dimensions.py",
    [
        ("inline widths", "engine.py:calculate_inline_non_replaced_width, calculate_inline_replaced_width"),
        ("inline heights", "engine.py:calculate_inline_non_replaced_height, calculate_inline_replaced_height"),
    ],
    BOX,
)
prop(
    "C11",
    "Percentages are taken of the containing block",
    "A percentage width, margin or padding (on all four sides) is that percentage of the width of the containing block, "
    "and a percentage height that percentage of the containing block's given pixel height or, for the root, of the "
    "viewport's height; nested percentages compound. Results are exact to 1/64 pixel. "
    "(Except for the recorded defect that a percentage height within a block whose own height is a percentage is 0.)",
    "inputs configurations",
    "any integer percentage (and multiples of 1/8) of listed sizes and listed percentages of any size, at three depths, all affected properties, inline and block",
    "tests use one or two percentages of sizes whose width and height often agree, so a percentage of the wrong dimension goes unnoticed",
    "engine.py units.py",
    [("conversion", "engine.py:calculate_size"), ("percent unit", "units.py:Percent")],
    BOX,
)
prop(
    "C12",
    "A length in any unit converts to pixels, exact to 1/64 pixel",
    "Every length converts to the number of pixels CSS defines for its unit, resolution, font and viewport, rounded to "
    "whole 1/64 pixels at most; negative lengths are the negatives of positive ones. Conversions never influence each "
    "other or the length itself, arithmetic on a length leaves the original unchanged, and lengths are equal exactly when "
    "number and unit are; angles convert to degrees.",
    "inputs configurations histories",
    "any integer or 1/16 value -2000..2000 in each unit on listed resolutions, listed values on any resolution 24..600 dpi, any viewport and font metrics",
    "tests check one or two values per unit on one display",
    "units.py",
    [("units", "units.py:Unit.px, lu of each class")],
    ["pixel conversion of unit values", "layout boxes"],
)
prop(
    "C13",
    "Length text is parsed to exactly what it says or rejected",
    "A text is accepted as a length exactly when it is a decimal number followed by a known length or percentage unit (or "
    "by nothing: pixels), and then means that number of that unit; anything else, including infinities, NaN, angles and "
    "unknown units, is refused with a ValueError. Plain numbers are pixels, unit values are kept, and parsing has no "
    "lasting effect.",
    "inputs histories",
    "every number text of the stated shape with every unit; every text up to 4-6 characters over the stated alphabets; any number; repeated parses",
    "tests try a few texts; units that are suffixes of one another (mm, m, in, vmin, min) make acceptance depend on text no test contains",
    "parser.py validators.py units.py",
    [("length parser", "parser.py:units"), ("validators", "validators.py:is_length, is_percentage")],
    ["value read back from the style, or ValueError"],
)
prop(
    "C14",
    "Color text is parsed to exactly the color it names or rejected",
    "A hexadecimal color of 3, 4, 6 or 8 digits, a functional rgb()/rgba()/hsl()/hsla() color or one of the 148 CSS color "
    "names (any case) gives exactly the components it states; any other text is refused with a ValueError and nothing "
    "else. Color values are kept as they are.",
    "inputs",
    "all hex texts, all functional texts with components of up to three digits, all names, all short texts, single mutations of functional texts",
    "tests check some names and a few functional colors out of 16 million",
    "parser.py colors.py validators.py",
    [("color parser", "parser.py:color, pound_sign_color"), ("names", "colors.py:NAMED_COLOR")],
    ["components of the color read back, or ValueError"],
)
prop(
    "C15",
    "HSL colors convert to the RGB color CSS defines",
    "The RGB value of an HSL color is the one the CSS color definition gives for its hue (any angle, modulo 360 degrees), "
    "saturation and lightness, each component to the nearest of 256 levels, with the same alpha.",
    "inputs",
    "any hue -720..1080 with listed saturation/lightness pairs, any saturation or lightness with hues around all sector limits, pairs of arbitrary components, quarter degrees",
    "tests check a handful of colors; errors hide in one of the six sectors or at its limits",
    "colors.py parser.py",
    [("conversion", "colors.py:hsl.rgb")],
    ["components of the converted color"],
)
prop(
    "C16",
    "Each property accepts exactly its values and rejects all others",
    "Every style property accepts exactly the keywords and kinds of value CSS gives it, stores them in one canonical form "
    "however they were written, and refuses anything else, keywords in another case or padded with blanks included, "
    "with a ValueError leaving the style unchanged. "
    "Unset properties read as their initial value.",
    "inputs",
    "each property with each keyword and way of assignment, every other word up to 8 letters, any integer, short numeric texts, values of each other kind",
    "over 80 properties with their own value sets; tests check a few values of some of them",
    "declaration.py constants.py validators.py",
    [("choices", "constants.py:Choices.validate"), ("setter", "declaration.py:validated_property"), ("validators", "validators.py")],
    ["style attributes, ValueError"],
)
prop(
    "C17",
    "A style is one map from property names to values",
    "Setting, reading and deleting a property through an attribute, an item (with underscores or dashes) or an update are "
    "the same operation, updating with None deletes, and no property affects another; the listed keys, items and text contain "
    "exactly what is set. Unknown names are refused with an error and change nothing; an update of several properties "
    "applies them in the order given, up to the first one it refuses.",
    "histories inputs",
    "histories of up to four sets and deletes by any way, each property, any name of up to ten characters, updates of several properties",
    "tests write and read a property the same way in short fixed sequences",
    "declaration.py",
    [("mapping interface", "declaration.py:CSS.update, __getitem__, __setitem__, __delitem__, keys, items, __str__")],
    ["style attributes, items, keys, text"],
)
prop(
    "C18",
    "Side shorthands spread over the four sides, all or nothing",
    "Assigning 1 to 4 values to margin, padding, border-width, border-style or border-color sets top, right, bottom and "
    "left as CSS prescribes and nothing else; reading gives the four sides, deleting resets exactly them. "
    "If any value or the number of values is invalid there is a ValueError and no side has changed.",
    "inputs histories",
    "each shorthand, any number of arbitrary values, any position of an invalid one, any sides set before, any way of assignment",
    "tests assign valid tuples once; partial effects and left/right swaps need distinct values and failures at each position",
    "declaration.py",
    [("directional properties", "declaration.py:directional_property")],
    ["style attributes"],
)
prop(
    "C19",
    "Border and outline shorthands take their parts in any order",
    "The border, border-side and outline shorthands take a width, a style and a color, each at most once and in any order, "
    "as text or objects, and reset the parts not given; border does so on all four sides. "
    "A repeated part, an unknown part, or none at all is refused with a ValueError leaving the style unchanged; deleting "
    "resets all parts, and a side's border or outline reads back exactly the parts that are set.",
    "inputs histories",
    "every subset and order of parts with arbitrary widths, styles and colors, any previous state, any invalid or repeated part, any short word",
    "tests use fixed orders and values on fresh styles",
    "parser.py declaration.py wrappers.py",
    [("part parsing", "parser.py:border, outline"), ("spreading", "declaration.py:validated_shorthand_property"), ("wrappers", "wrappers.py:Shorthand")],
    ["style attributes, shorthand objects"],
)
prop(
    "C20",
    "A copied style is equal and independent",
    "A copy of a style has the same value for every property as the original; later changes of either (setting, deleting, "
    "updating, shorthands) never show in the other, and a copy made for a node reports changes to that node only.",
    "histories inputs",
    "each property holding any of its values, any further change to either side, bound and unbound copies",
    "tests copy a style with three simple properties",
    "declaration.py",
    [("copy", "declaration.py:CSS.copy")],
    ["style attributes of both, layout state of the node"],
)
prop(
    "C21",
    "What changes a style or size marks exactly the affected boxes",
    "Setting a property to another value, deleting a set property, or changing an intrinsic size marks the box of that "
    "node and of every node below it as needing layout, and no other box; setting a value again that is already held does "
    "not. Marking a box valid or invalid passes down to all boxes below it.",
    "histories inputs",
    "each property and shorthand, any way of change, at any node of a tree of six, arbitrary values, sequences of changes, hidden nodes",
    "tests check the mark for a few properties on a single node",
    "declaration.py dimensions.py",
    [("style changes", "declaration.py:CSS.dirty"), ("size changes", "dimensions.py:Size"), ("propagation", "dimensions.py:Box.dirty")],
    ["needs-layout state of each box"],
)
prop(
    "C22",
    "Clip, spacing, quotes, cursor and url values mean what was written",
    "A clip rectangle, border spacing, quotes, cursor list or url, given as text or as objects, is read back with exactly "
    "the lengths, texts and addresses written, in order; one spacing serves both directions and quotation levels beyond "
    "the given pairs are an error. Malformed ones are refused with a ValueError, and rectangles are equal exactly if all "
    "edges are.",
    "inputs",
    "arbitrary lengths and short arbitrary texts in each place, any separators allowed, single mutations of each form",
    "tests check fixed samples of each form",
    "parser.py validators.py wrappers.py shapes.py",
    [("parsers", "parser.py:rect, border_spacing, quotes, uri, cursor"), ("values", "wrappers.py, shapes.py")],
    ["attributes of the value read back, ValueError"],
)
prop(
    "C23",
    "Values read from a style can be assigned again and mean the same",
    "Any value read from a style, set or initial, can be assigned to the same property of the same or another style and "
    "reads the same there; on the same style it changes nothing. Lengths and colors can be moved between properties that "
    "take them, and a length given as number, text or unit value is the same length.",
    "inputs",
    "each property with any of its values, each pair of length and color properties",
    "tests never assign what they read",
    "declaration.py constants.py validators.py parser.py",
    [("canonical values", "constants.py:Choices.validate"), ("initial values", "declaration.py:validated_property")],
    ["style attributes and text"],
)
prop(
    "C24",
    "Border colors follow color, text alignment follows direction, until set",
    "An unset border color always reads as the current color, and an unset text alignment as left or right according to "
    "the current direction, through any history of changes; once set they keep their own value until deleted. "
    "Styles do not influence each other.",
    "histories",
    "histories of up to five sets, deletes and copies of the properties concerned",
    "tests check one step",
    "constants.py declaration.py",
    [("dependent initial values", "constants.py:OtherProperty, TextAlignInitialValue"), ("getter", "declaration.py:validated_property")],
    ["style attributes"],
)
prop(
    "C25",
    "Immutable list values cannot be changed",
    "No list operation changes an immutable list or a style's cursor: each raises TypeError and leaves the contents as "
    "they were. Otherwise these values read, compare, slice, hash and copy as the lists of their elements.",
    "inputs",
    "lists of up to four arbitrary elements, every list operation with any index and value",
    "tests try some of the operations on one list",
    "wrappers.py",
    [("refusing operations", "wrappers.py:ImmutableList")],
    ["list contents, TypeError"],
)
prop(
    "C26",
    "Thin, medium and thick borders have the display's widths",
    "A border width enters the layout as given, and thin, medium and thick as the widths the display in use gives them, on "
    "the side they were set for, however set; an unset border takes no space.",
    "inputs configurations",
    "any combination of keyword and pixel widths on the four sides, any display, blocks and inline elements, shorthands, two displays in turn",
    "no test uses a display with other widths than one fixed set",
    "engine.py declaration.py constants.py",
    [("border widths", "engine.py:layout_box, calculate_size")],
    BOX,
)
prop(
    "C27",
    "The text of a style is CSS that reads back equal",
    "The text of a style consists of one 'name: value' declaration in CSS syntax for each property set, in order of name, "
    "and assigning each of them as text to an empty style gives an equal style. (Not for hsl colors.)",
    "inputs",
    "each property with each of its values and kinds, pairs of properties, shorthands, arbitrary lengths, integers and rgb colors",
    "tests compare a few fixed texts and never read them back",
    "declaration.py wrappers.py units.py colors.py shapes.py",
    [("text", "declaration.py:CSS.__str__"), ("text of values", "wrappers.py, units.py, colors.py, shapes.py")],
    ["text of the style"],
)

prop(
    "C28",
    "What the engine cannot lay out is refused, never laid out wrongly",
    "A layout of a tree containing, at any place, a displayed floating, absolutely or fixed positioned, inline block or "
    "replaced block element raises NotImplementedError, however often it is tried. Once the element is hidden or "
    "turned back into a plain block, the same tree is laid out like a fresh one.",
    "inputs histories",
    "9 unsupported kinds and replaced blocks, as root, only, first, last or nested child, any size and margin; then again, hidden or plain",
    "tests never lay out unsupported elements, and the dispatch has one case for each pair of display and position",
    "engine.py",
    [("dispatch", "engine.py:calculate_width_and_margins, calculate_height_and_margins"), ("layout", "engine.py:layout_box")],
    BOX,
)
prop(
    "C29",
    "Integers and numbers are validated exactly: range, type and value",
    "is_integer and is_number, bare or made with a minimum and/or maximum, accept a value exactly if it is (or is the text of) "
    "an integer or number within the inclusive limits, return that very number as an int or float, and "
    "raise ValidationError for everything else; validators made with different limits do not influence each other.",
    "inputs",
    "any limits -1000..1000, any integer to 10**6, multiples of 1/64, any text up to 3 (thorough 4) characters over digits + - . x",
    "tests try a few numbers far from the limits",
    "validators.py",
    [("ranges", "validators.py:_numeric_validator, is_number, is_integer")],
    ["result of the validator or ValidationError"],
)

exec(open(os.path.join(HERE, "tools", "more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more.py")) else None

TECHNIQUE = "symbolic execution of the current source into SMT; z3 decides each path's assertions; counterexamples replayed"
NOTE = (
    "Every feasible path of the real functions within the bounds printed in the evidence is explored by forking on z3 "
    "verdicts, and each assertion is discharged by z3 for all values on the path; each path is also run concretely on the "
    "unmodified package and has to agree with the symbolic result. Trusted: z3 and the models of Python's numbers and "
    "strings in engine/. Outside: {outside}."
)


def main():
    import importlib
    import sys

    sys.path.insert(0, HERE)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        h = importlib.import_module("harness." + p["id"])
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"python3-vt check.py {p['id']}",
                "thorough_cmd": f"python3-vt check.py {p['id']} --thorough",
                "technique": TECHNIQUE,
                "level": "model_checking",
                "level_note": NOTE.format(outside=h.OUTSIDE),
            }
        )
    man = {
        "version": 1,
        "setup_cmd": "python3-vt -c 'import z3'",
        "checks": checks,
        "not_applicable": [],
        "notes": "see DESIGN.md; KNOWN_FINDINGS.txt lists known and repaired defects",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    design()


def design():
    """The generated part of DESIGN.md: one paragraph for each property."""
    import glob
    import importlib

    from tools.oracles import ORACLE

    seeds = {}
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d["what_it_breaks"]))
    costs = json.load(open(os.path.join(HERE, "tools", "costs.json")))
    out = []
    for p in P:
        h = importlib.import_module("harness." + p["id"])
        out.append(f"### {p['id']}: {p['title']}\n")
        out.append(f"{p['statement']}\n")
        out.append(f"*Oracle*: {ORACLE[p['id']]}  ")
        out.append(f"*Beyond the tests*: {p['why_tests_cant']}.  ")
        out.append(f"*Outside*: {h.OUTSIDE}.  ")
        c = costs.get(p["id"])
        if c:
            out.append(f"*Cost*: quick {c['quick']}; thorough {c.get('thorough', 'not measured')}.  ")
        out.append("*Drivers and bounds*:\n")
        for x in h.HARNESSES:
            tier = "" if len(x["tiers"]) == 2 else f" ({x['tiers'][0]} only)"
            out.append(f"- `{x['name']}`{tier}: {x['bounds']}")
        for i, what in seeds.get(p["id"], ()):
            out.append(f"- planted bug {i}: {what} -- caught")
        out.append("")
    path = os.path.join(HERE, "DESIGN.md")
    s = open(path).read()
    a, b = "<!-- generated by tools/gen.py -->\n", "<!-- end of generated part -->\n"
    s = s[: s.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + s[s.index(b) :]
    open(path, "w").write(s)


main()
