from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ciscoconfparse import parse_line_braces, convert_junos_to_ios
from props.common import *

META = {
    "bounds": {
        "quick": "junos syntax: up to 3 lines of every mixture of the nine kinds of line (leaf, opening, closing, 'x { }', 'x { y }', '} x {', comment, several closings) "
                 "with 1-2 symbolic characters of text, 3-5 lines of the leaf/opening/closing/'} x {'/comment kinds, 3 lines of these kinds inside 4, 9 or 16 blocks followed by any number of closing lines, and single lines of 5 symbolic characters out of 'a {};#'; "
                 "indented syntaxes: 3 lines of 2-3 characters including braces",
        "thorough": "4 lines of every kind, 4-7 lines of those, 6-character lines; 4 lines of 2 and 3 lines of 4 characters",
    },
    "outside": "unbalanced junos text, a block opened in the middle of a line and left open, text after a closing brace (other than '} else {'), braces inside quoted strings, "
               "trailing comments after an opening or closing brace, /* */ comments, banners and macros, file input",
    "assumptions": ["input lines contain no newline"],
    "must_cover": ["two levels", "reopened", "closing brace has a parent"],
}

KINDS = ["leaf;", "leaf", "open", "close", "empty block", "inline block", "reopen", "comment", "close;"]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for k in range(len(KINDS)):
        out.append({"name": "kinds:" + KINDS[k], "mode": "kinds", "n": 4 if big else 3, "L": 2 if big else 1, "first": k, "factory": False, "blank": True})
    for f in (False, True):
        out.append({"name": "nest-%d" % f, "mode": "nest", "n": 5 if big else 4, "L": 1, "factory": f, "blank": True})
    out.append({"name": "nest-deep", "mode": "nest", "n": 7 if big else 5, "L": 0, "factory": False, "blank": True})
    out.append({"name": "nest-keepblank", "mode": "nest", "n": 4 if big else 3, "L": 1, "factory": False, "blank": False})
    for pre in (4, 9, 16):
        out.append({"name": "deep-%d" % pre, "mode": "nest", "n": 4 if big else 3, "L": 0, "factory": False, "blank": True, "pre": pre})
    out.append({"name": "nest-multi", "mode": "multi", "factory": False, "blank": True})
    out.append({"name": "line", "mode": "line", "n": 6 if big else 5})
    for syn in ("ios", "nxos", "iosxr", "asa"):
        out.append({"name": "indented-" + syn, "mode": "ios", "n": 4 if big and syn == "ios" else 3, "L": 2, "syntax": syn})
    out.append({"name": "indented-3", "mode": "ios", "n": 3, "L": 4 if big else 3, "L0": 3 if big else 2, "syntax": "ios"})
    out.append({"name": "indented-frame", "mode": "frame", "syntax": "ios"})
    out.append({"name": "banner", "mode": "banner", "syntax": "ios"})
    return out


def strip_leaf(s):
    s = s.strip()
    while len(s) > 0 and s[-1] == ";":
        s = s[0:-1]
    return s.strip()


def ref_lines(cx, spec):
    """spec: (kind, text, text2) of every line -> [(depth, text, is_comment, opener position or None)] and whether it is balanced"""
    rows = []
    depth = 0
    stack = []
    for i, (kind, t, u) in enumerate(spec):
        at = depth
        txt = ""
        up = stack[-1] if stack else None
        if kind == 0 or kind == 1:
            txt = strip_leaf(t)
        elif kind == 2:
            txt = t.strip()
            stack.append(i)
            depth += 1
        elif kind == 3 or kind == 8:
            if not stack:
                return None
            stack.pop()
            depth -= 1
            at = depth
            up = stack[-1] if stack else None
        elif kind == 4:
            txt = t.strip()
        elif kind == 5:
            txt = t.strip() + " { " + u + " }"
        elif kind == 6:
            if not stack:
                return None
            stack.pop()
            at = depth - 1
            up = stack[-1] if stack else None
            stack.append(i)
            txt = t.strip()
            cx.cover("reopened")
        elif kind == 7:
            txt = ("#" + t).strip()
        if at > 1:
            cx.cover("two levels")
        rows.append((at, txt, kind == 7, up))
    return rows


def render(kind, t, u):
    if kind == 0:
        return t + ";"
    if kind == 1:
        return t
    if kind == 2:
        return t + " {"
    if kind == 3:
        return "}"
    if kind == 4:
        return t + " { }"
    if kind == 5:
        return t + " { " + u + " }"
    if kind == 6:
        return "} " + t + " {"
    if kind == 7:
        return "#" + t
    return "};"


def check_junos(cx, lines, rows, case):
    if case["factory"]:
        p = CiscoConfParse(lines, syntax="junos", comment="#", factory=True, ignore_blank_lines=case["blank"])
    else:
        p = CiscoConfParse(lines, syntax="junos", comment="#", ignore_blank_lines=case["blank"])
    want = []
    pos = {}
    for i, (at, txt, com, up) in enumerate(rows):
        if case["blank"] and txt == "":
            continue
        pos[i] = len(want)
        want.append((i, at, txt, com, up))
    objs = list(p.objs)
    cx.observe([o.text for o in objs])
    cx.check(len(objs) == len(want), "one line per statement or comment; pure closing lines vanish")
    for o, (i, at, txt, com, up) in zip(objs, want):
        if txt == "":
            cx.check(o.text.strip() == "", "a closing line has no text left")
            continue
        cx.check(o.text == "    " * at + txt, "a line is indented by its block depth and keeps its text without its braces and semicolon")
        if com:
            continue
        if up is None:
            cx.check(o.parent is o, "a line outside all blocks has no parent")
        else:
            cx.check(o.parent is objs[pos[up]], "the parent of a line is the line which opened the innermost block around it")
    if case["blank"]:
        check_tree(cx, objs, "junos")


def harness(cx, case):
    mode = case["mode"]
    if mode in ("kinds", "nest"):
        spec = [(2, "o%d" % i, "") for i in range(case.get("pre", 0))]
        for i in range(case["n"]):
            if mode == "kinds":
                kind = case["first"] if i == 1 else cx.choose("k%d" % i, len(KINDS))
            else:
                kind = [1, 2, 3, 6, 7][cx.choose("k%d" % i, 5)]
            t = ""
            u = ""
            if case["L"] == 0:
                t = "t%d" % i
            elif kind in (0, 1, 2, 4, 5, 6, 7):
                t = cx.str("t%d" % i, case["L"], NOBRACE_TAB if mode == "kinds" else "ab;! ")
                if kind in (2, 4, 5, 6):
                    cx.assume(t.strip() != "")
                if kind != 7:
                    cx.assume(not t.strip().startswith("#"))
                if kind == 7 and case["L"] > 0:
                    t = t + [" {", " }", "", ";", " # {"][cx.choose("e%d" % i, 5) if i == 1 else i % 5]
            if kind == 5:
                u = cx.str("u%d" % i, 1, NOSPACE.replace("{", "").replace("}", ""))
            spec.append((kind, t, u))
        if "pre" in case:
            spec += [(3, "", "")] * cx.choose("down", case["pre"] + 1) + [(1, "last", "")]
        rows = ref_lines(cx, spec)
        if rows is None:
            cx.assume(False)
        lines = ["  " * (i % 2) + render(*s) for i, s in enumerate(spec)]
        check_junos(cx, lines, rows, case)
    elif mode == "multi":
        # several blocks closed by one line
        a = cx.str("a", 1, "ab;!")
        n = cx.choose("n", 3) + 1
        close = ["}", "}}", "} }", "}};", "} } ;", "} else {", "}} else {", "} } }"][cx.choose("c", 8)]
        k = close.count("}")
        cx.assume(k <= n)
        lines = ["o%d {" % i for i in range(n)] + [close, a]
        want = ["    " * i + "o%d" % i for i in range(n)]
        d = n - k
        if close.endswith("{"):
            want.append("    " * d + "else")
            d += 1
        got = convert_junos_to_ios(lines, comment_delimiter="#")
        got = [g for g in got if g.strip() != ""]
        tail = strip_leaf(a)
        if tail != "":
            want.append("    " * d + tail)
        cx.check(len(got) == len(want), "closing line: number of lines")
        for g, w in zip(got, want):
            cx.check(g == w, "a line with several closing braces closes as many blocks")
    elif mode == "line":
        s = cx.str("s", case["n"], "a {};#")
        st = s.strip()
        # legal: a comment, or [closing braces] word [inline block] [{] [;]
        rep = parse_line_braces(s, comment_delimiter="#")
        cx.observe(rep)
        if st.startswith("#"):
            cx.check(cx.all([rep[0] == 0, rep[1] == 0, rep[2].strip() == st]), "a comment is kept and opens or closes nothing")
            return
        # depth walk
        opens = 0
        k = 0
        while k < len(st) and (st[k] == "}" or st[k] == " "):
            k += 1
        lead = st[0:k].count("}")
        body = st[k:]
        depth = 0
        low = 0
        for ch in body:
            if ch == "{":
                depth += 1
            elif ch == "}":
                depth -= 1
            if depth < low:
                low = depth
        cx.assume(low == 0)
        if depth == 0:
            if lead > 0:
                cx.assume(strip_leaf(body) == "")
            cx.check(cx.all([rep[0] == -lead, rep[1] == -lead]), "a line which is balanced after its leading closing braces changes the depth by those")
        elif depth == 1 and body.endswith("{"):
            cx.assume(body.count("{") == 1)
            cx.check(cx.all([rep[0] == -lead, rep[1] == 1 - lead]), "a line ending in an opening brace opens one block")
            cx.check(rep[2].strip() == body[0:body.index("{")].strip(), "its text is what precedes the brace")
    elif mode in ("ios", "frame"):
        if mode == "frame":
            k = cx.choose("shape", 4)
            x = cx.str("x", 2, "a {}!")
            y = cx.str("y", 2, "a {}!")
            lines = [["a {", " " + x, "  b {", y + "}", "}"], ["r {", x, "} e {", " " + y, "}", "z"],
                     ["o {", " i {", "  c {", x, y, "}"], ["! n {", x + "{", " q", y, "}"]][k]
        else:
            lines = [cx.str("l%d" % i, case["L"] if i == 1 else case.get("L0", case["L"]), PRINT if i < 2 else " a{}!#") for i in range(case["n"])]
        p = CiscoConfParse(lines, syntax=case["syntax"])
        texts = [l.rstrip() for l in lines if l.strip() != ""]
        objs = list(p.objs)
        cx.observe(shape(objs))
        cx.check(len(objs) == len(texts), "as many lines as non-blank input lines")
        par = ref_parents(texts)
        stack = []
        for i in range(len(texts)):
            s = texts[i].strip()
            if is_comment(texts[i], "!"):
                continue
            if s[0] == "}" and stack:
                par[i] = stack.pop()
                cx.cover("closing brace has a parent")
            if s[-1] == "{":
                stack.append(i)
        for i in range(len(texts)):
            cx.check(objs[i].text == texts[i], "texts are kept, braces included")
            cx.check(objs[i].parent is objs[par[i]], "a closing brace belongs to the line which opened its block, every other line follows indentation")
        check_tree(cx, objs, "braces")
    elif mode == "banner":
        x = cx.str("x", 2, "a {}!")
        y = cx.str("y", 2, "a {}!")
        lines = ["banner motd ^", x, y, "^", "hostname r"]
        p = CiscoConfParse(lines, syntax="ios")
        objs = list(p.objs)
        cx.check([o.text for o in objs] == ["banner motd ^", x.rstrip(), y.rstrip(), "^", "hostname r"], "a banner keeps its lines")
        for i in range(1, 4):
            cx.check(objs[i].parent is objs[0], "braces do not take lines out of a banner")
        cx.check(objs[4].parent is objs[4], "the line after a banner is not part of it")
        check_tree(cx, objs, "banner")
