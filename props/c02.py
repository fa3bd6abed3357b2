from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "5 lines of 2 arbitrary printable characters (ios), 3 lines of 3 (nxos, iosxr, asa, two comment delimiters, "
                 "blank lines kept, factory on); 7 lines of indentation 0..2 without comments, 5 lines of indentation 0..2 with comments; "
                 "2 symbolic lines of indentation 0..3 around 130 siblings, or around 40 lines nested 20 deep",
        "thorough": "5 lines of 3 arbitrary printable characters (ios), 4 lines of 3 (others); 9 lines of indentation 0..2, "
                    "7 lines with comments, 5 lines of indentation 0..4",
    },
    "outside": "tabs and non-ASCII whitespace, braces, banners, macros (C03, C04), more lines or deeper indentation",
    "must_cover": ["child", "root", "standalone comment"],
}


def tasks(tier):
    big = tier == "thorough"
    out = [{"name": "ios", "n": 5, "L": 3 if big else 2, "syntax": "ios"}]
    for syn in ("nxos", "iosxr", "asa"):
        out.append({"name": syn, "n": 4 if big else 3, "L": 3, "syntax": syn})
        out.append({"name": syn + "-factory", "n": 3, "L": 2, "syntax": syn, "factory": True})
    out.append({"name": "ios-factory", "n": 3, "L": 3, "syntax": "ios", "factory": True})
    out.append({"name": "delims", "n": 4 if big else 3, "L": 3, "syntax": "ios", "comment": "!#"})
    out.append({"name": "delim-hash", "n": 3, "L": 2, "syntax": "ios", "comment": "#"})
    out.append({"name": "keepblank", "n": 4 if big else 3, "L": 3, "syntax": "ios", "blank": False})
    out.append({"name": "deep", "n": 9 if big else 7, "L": 2, "syntax": "ios", "dom": " a", "tail": "a"})
    out.append({"name": "deep-comments", "n": 7 if big else 5, "L": 2, "syntax": "ios", "dom": " a!", "tail": "a"})
    out.append({"name": "deep-keepblank", "n": 5, "L": 2, "syntax": "ios", "blank": False, "dom": " a", "tail": ""})
    # a large family: symbolic lines far below their possible parents
    out.append({"name": "far", "n": 2, "L": 3, "syntax": "ios", "dom": " a!", "tail": "a", "far": 130, "deep": 2})
    out.append({"name": "far-deep", "n": 2, "L": 3, "syntax": "nxos", "dom": " a!", "tail": "a", "far": 40, "deep": 20})
    if big:
        out.append({"name": "wide", "n": 5, "L": 4, "syntax": "ios", "dom": " a!", "tail": "a"})
        out.append({"name": "deep-nxos", "n": 8, "L": 2, "syntax": "nxos", "dom": " a", "tail": "a"})
    return out


def harness(cx, case):
    delims = case.get("comment", "!")
    dom = case.get("dom", NOBRACE)
    tail = case.get("tail", "")
    blank = case.get("blank", True)
    lines = [cx.str("l%d" % i, case["L"], dom) + tail for i in range(case["n"])]
    if "far" in case:
        # "a", symbolic, many siblings or a ladder of single children, symbolic
        body = [" " * min(i + 2, case["deep"]) + "k%d" % i for i in range(case["far"])]
        lines = ["a", lines[0]] + body + [lines[1], "  z", "b"]
    p = CiscoConfParse(lines, syntax=case["syntax"], comment=delims, factory=case.get("factory", False),
                       ignore_blank_lines=blank)
    objs = list(p.objs)
    cx.observe([o.text for o in objs])
    if blank:
        kept = [l.rstrip() for l in lines if l.strip() != ""]
    else:
        kept = [l.rstrip() for l in lines]
    cx.check(len(objs) == len(kept), "every line is represented by one object")
    par = ref_parents(kept, delims)
    cx.observe(par)
    check_tree(cx, objs, "tree")
    for i, o in enumerate(objs):
        cx.check(o.text == kept[i], "objects are in file order with their text")
        cx.check(o.indent == indent_of(kept[i]), "indent is the number of leading blanks")
        cx.check(bool(o.is_comment) == is_comment(kept[i], delims), "is_comment says whether the first non-blank character is a delimiter")
        cx.check(o.parent.linenum == par[i], "parent is the nearest preceding less-indented config line")
        cx.check(bool(o.is_child) == (par[i] != i), "is_child agrees with the parent")
        cx.check(bool(o.is_parent) == (i in [q for k, q in enumerate(par) if k != i]), "is_parent agrees with the children")
        if par[i] != i:
            cx.cover("child")
        else:
            cx.cover("root")
            if is_comment(kept[i], delims) and o.indent > 0:
                cx.cover("standalone comment")
