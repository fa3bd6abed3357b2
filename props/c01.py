from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "up to 4 lines of up to 3 printable-ASCII characters (factory off) and 2 lines of up to 4 (factory on), "
                 "ios/nxos/iosxr/asa, blank lines kept or dropped; plus command prefixes with 3 symbolic characters; lines of 3 characters over a, blank, tab and !; 3 lines that are empty or of 1 character",
        "thorough": "up to 5 lines of up to 3 characters (factory off), 3 lines of up to 4 (factory on)",
    },
    "outside": "braces, banners and macros (C03/C04), non-ASCII text, longer lines, file input",
    "assumptions": ["input lines contain no newline"],
    "must_cover": ["empty line"],
}


def tasks(tier):
    big = tier == "thorough"
    out = []
    for syn in ("ios", "nxos", "iosxr", "asa"):
        out.append({"name": "plain-" + syn, "n": 4 if (big or syn == "ios") else 3, "L": 3 if syn == "ios" else 2, "syntax": syn,
                    "factory": False, "blank": True})
        out.append({"name": "factory-" + syn, "n": 3 if big else 2, "L": 3, "syntax": syn, "factory": True, "blank": True})
    # tabs and empty lines (exact text matters, indentation by a tab counts as one blank)
    for fac in (False, True):
        out.append({"name": "tabs-%d" % fac, "n": 3 if not fac else 2, "L": 3, "syntax": "ios", "factory": fac, "blank": True, "dom": "a \t!"})
        out.append({"name": "empty-%d" % fac, "n": 3, "L": 1, "syntax": "ios", "factory": fac, "blank": True, "empty": True})
        out.append({"name": "keepempty-%d" % fac, "n": 3, "L": 1, "syntax": "nxos", "factory": fac, "blank": False, "empty": True})
    out.append({"name": "keepblank", "n": 3, "L": 2, "syntax": "ios", "factory": False, "blank": False})
    out.append({"name": "keepblank-factory", "n": 2, "L": 2, "syntax": "ios", "factory": True, "blank": False})
    for pre in ("interface ", "router bgp ", "no ", " ip address ", "hostname ", "access-list 1 ", "line vty "):
        out.append({"name": "prefix:" + pre, "n": 2, "L": 3, "syntax": "ios", "factory": True, "blank": True, "pre": pre})
    return out


def harness(cx, case):
    pre = case.get("pre", "")
    lines = [cx.str("l%d" % i, case["L"], case.get("dom", NOBRACE)) for i in range(case["n"])]
    if case.get("empty"):
        for i in range(case["n"]):
            if cx.bool("e%d" % i):
                cx.cover("empty line")
                lines[i] = ""
    if pre:
        lines[0] = pre + lines[0]
    p = CiscoConfParse(lines, syntax=case["syntax"], factory=case["factory"], ignore_blank_lines=case["blank"])
    got = p.ioscfg
    cx.observe(got)
    if case["blank"]:
        want = [l.rstrip() for l in lines if l.strip() != ""]
    else:
        want = [l.rstrip() for l in lines]
    cx.check(len(got) == len(want), "as many lines out as non-blank lines in")
    for g, w in zip(got, want):
        cx.check(g == w, "line text survives parsing except for trailing whitespace")
    sh = shape(p.objs)
    p2 = CiscoConfParse(got, syntax=case["syntax"], factory=case["factory"], ignore_blank_lines=case["blank"])
    cx.check(cx.eq(shape(p2.objs), sh), "re-parsing the output gives the same lines and hierarchy")
    p.commit()
    cx.check(cx.eq(shape(p.objs), sh), "commit() leaves an unedited configuration unchanged")
