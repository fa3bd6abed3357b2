from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "a banner command (motd, login, exec, incoming; 'set banner' form; any delimiter character; up to 2 characters after "
                 "the delimiter) or macro, followed by up to 4 lines of 2 or 2 of 3 arbitrary printable characters, optionally preceded by one "
                 "symbolic line; up to 3 lines that are empty or of 1 character; factory on and off; ios, nxos, asa",
        "thorough": "as quick with up to 5 lines of 2 and 4 lines of 3 characters",
    },
    "outside": "braces inside a banner, a banner command inside a banner, delimiters longer than one character, longer lines",
    "must_cover": ["multi-line banner", "one-line banner", "unterminated", "indented banner line", "after banner", "empty line"],
}

KINDS = ["banner motd ", "banner login ", "banner exec ", "set banner motd ", "banner incoming "]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for k, pre in enumerate(KINDS):
        main = k == 0
        out.append({"name": pre, "cmd": pre, "T": 0, "n": (5 if big else 4) if main else 3, "L": 2, "factory": False})
        out.append({"name": pre + "rest", "cmd": pre, "T": 2, "n": 2, "L": 2, "factory": main})
    out.append({"name": "before", "cmd": KINDS[0], "T": 0, "n": 3, "L": 2, "factory": False, "before": 2})
    out.append({"name": "factory", "cmd": KINDS[0], "T": 0, "n": 3, "L": 2, "factory": True})
    out.append({"name": "any delimiter", "cmd": KINDS[0], "T": 1, "n": 2, "L": 2, "factory": False, "anyd": True})
    out.append({"name": "any delimiter login", "cmd": KINDS[1], "T": 2, "n": 1, "L": 2, "factory": True, "anyd": True})
    out.append({"name": "nxos", "cmd": KINDS[0], "T": 0, "n": 3, "L": 2, "factory": False, "syntax": "nxos"})
    out.append({"name": "asa", "cmd": KINDS[0], "T": 0, "n": 3, "L": 2, "factory": False, "syntax": "asa"})
    out.append({"name": "macro", "cmd": "macro name x", "n": 4 if big else 3, "L": 2, "factory": False, "macro": True})
    out.append({"name": "macro after", "cmd": "macro name x", "n": 3, "L": 2, "factory": True, "macro": True, "before": 2})
    out.append({"name": "mid", "cmd": KINDS[0], "T": 0, "n": 2, "L": 3, "factory": False})
    out.append({"name": "mid-macro", "cmd": "macro name x", "n": 2, "L": 3, "factory": False, "macro": True})
    for fac in (False, True):
        out.append({"name": "empty-%d" % fac, "cmd": KINDS[0], "T": 0, "n": 3, "L": 1, "factory": fac, "empty": True})
        out.append({"name": "macro-empty-%d" % fac, "cmd": "macro name x", "n": 3, "L": 1, "factory": fac, "macro": True, "empty": True})
    if big:
        out.append({"name": "long", "cmd": KINDS[0], "T": 0, "n": 4, "L": 3, "factory": False})
    return out


def harness(cx, case):
    lines = []
    if case.get("before"):
        lines.append(cx.str("b", case["before"], "ab ") + "x")
    at = len(lines)
    syntax = case.get("syntax", "ios")
    cmd = case["cmd"]
    if not case.get("macro"):
        d = cx.str("d", 1, NOSPACE if case.get("anyd") else "^#")
        cx.assume(cx.all([d != "{", d != "}"]))
        cmd = cmd + d + cx.str("t", case["T"], NOBRACE)
    lines.append(cmd)
    for i in range(case["n"]):
        if case.get("empty") and cx.bool("e%d" % i):
            cx.cover("empty line")
            lines.append("")
        else:
            lines.append(cx.str("l%d" % i, case["L"], NOBRACE))
    p = CiscoConfParse(lines, syntax=syntax, factory=case["factory"])
    objs = list(p.objs)
    if not case["factory"]:
        # without factory parsing, empty input lines are ignored
        lines = [l for l in lines if len(l) > 0]

    # reference: extent of the block
    members = []
    if case.get("macro"):
        for i in range(at + 1, len(lines)):
            members.append(i)
            if lines[i].rstrip() == "@":
                break
        else:
            cx.cover("unterminated")
    else:
        rest = cmd.rstrip()[len(case["cmd"]) + 1:]
        if d in rest:
            cx.cover("one-line banner")
        else:
            for i in range(at + 1, len(lines)):
                members.append(i)
                if d in lines[i]:
                    cx.cover("multi-line banner")
                    break
            else:
                cx.cover("unterminated")
    # blank lines survive only inside the block
    want = [i for i in range(len(lines)) if i in members or lines[i].strip() != ""]
    got = [o.text for o in objs]
    cx.observe(got)
    cx.check(len(got) == len(want), "blank lines are kept exactly inside the banner")
    for g, i in zip(got, want):
        cx.check(g == lines[i].rstrip(), "line text kept")
    check_tree(cx, objs, "tree")
    pos = {}
    for k, i in enumerate(want):
        pos[i] = k
    texts = [lines[i].rstrip() for i in want]
    par = ref_parents(texts)
    for k, i in enumerate(want):
        if i in members:
            cx.check(objs[k].parent is objs[pos[at]], "banner lines up to the delimiter belong to the banner")
            if texts[k][:1] == " ":
                cx.cover("indented banner line")
        else:
            cx.check(objs[k].parent.linenum == par[k], "lines outside the banner follow indentation")
            if k > pos[at]:
                cx.cover("after banner")
    sh = shape(p.objs)
    p.commit()
    cx.check(cx.eq(shape(p.objs), sh), "commit() keeps the banner block as it is")
