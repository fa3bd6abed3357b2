import re
from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "2 lines of 3 and 3 lines of 2 arbitrary printable characters (2 lines of 4 for the whitespace specs); 18 regular expressions plus "
                 "line specs made of up to 3 arbitrary letters/digits; exactmatch and ignore_ws on and off; ios, plus nxos/asa/iosxr for one spec",
        "thorough": "3 lines of 3 characters, 3 lines of 5 for whitespace specs",
    },
    "outside": "regular expressions other than those listed, braces and banners, longer lines",
    "assumptions": ["the symbolic model of Python's re module (checked against real re by replay)"],
    "must_cover": ["match", "no match"],
}

SPECS = ["a", "^a", "a$", "a.*b", "^\\s+\\S", "a|b", "^a|b$", "(?i)ab", "[a-c]\\d", "^(a|bc)$", "\\S+\\s\\S+", "^[^!]", "a\\.b",
         "^!", "(\\d)(\\d)", "^\\w{2}$", "x?y", "a+"]
WS = [("a b", "a\\s+b"), ("^a b$", "^a\\s+b$"), ("^ a", "^\\s+a"), ("a  b", "a\\s+b"), ("a ", "a\\s+"), (" a", "\\s+a")]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for s in SPECS:
        out.append({"name": "re:" + s, "spec": s, "n": 3 if big else 2, "L": 3})
        if not big:
            out.append({"name": "re3:" + s, "spec": s, "n": 3, "L": 1 if s in ("a.*b", "x?y", "(?i)ab", "[a-c]\\d") else 2})
    for s, w in WS:
        out.append({"name": "ws:" + s, "spec": s, "ws": w, "n": 3 if big else 2, "L": 5 if big else 4})
    for k in (1, 2, 3):
        out.append({"name": "sym%d" % k, "sym": k, "n": 3 if (k == 2 or big) else 2, "L": 3})
    for syn in ("nxos", "asa", "iosxr"):
        out.append({"name": "re-" + syn, "spec": "a.*b", "n": 2, "L": 3, "syntax": syn})
    out.append({"name": "factory", "spec": "^\\s+\\S", "n": 2, "L": 3, "factory": True})
    return out


def harness(cx, case):
    lines = [cx.str("l%d" % i, case["L"], NOBRACE) for i in range(case["n"])]
    spec = case.get("spec")
    if spec is None:
        spec = cx.str("spec", case["sym"], ALNUM)
    ws = case.get("ws")
    p = CiscoConfParse(lines, syntax=case.get("syntax", "ios"), factory=case.get("factory", False))
    objs = list(p.objs)
    before = shape(objs)
    full = ws if ws is not None else spec
    if ws is None:
        hit = [o for o in objs if re.search(full, o.text) is not None]
        exact = [o for o in objs if re.fullmatch("(?:" + full + ")" if "(?i)" not in full else full, o.text) is not None]
        got = p.find_objects(spec)
        cx.check(same(got, hit), "find_objects returns exactly the matching lines in order")
        if "(?i)" not in spec:
            gote = p.find_objects(spec, exactmatch=True)
            cx.check(same(gote, exact), "exactmatch returns exactly the lines matching as a whole")
            cx.check(cx.eq(p.find_lines(spec, exactmatch=True), [o.text for o in exact]), "find_lines(exactmatch) agrees")
        cx.check(cx.eq(p.find_lines(spec), [o.text for o in hit]), "find_lines returns the text of the matching lines")
        cx.check(cx.eq(bool(p.has_line_with(spec)), len(hit) > 0), "has_line_with tells whether any line matches")
        cx.check(cx.eq(bool(p.objs.has_line_with(spec)), len(hit) > 0), "has_line_with on the line list agrees")
        if case.get("syntax", "ios") == "ios" and not case.get("factory", False) and "(?i)" not in spec:
            cx.check(same(p.find_objects(re.compile(spec)), hit), "a compiled pattern gives the same lines")
    else:
        hit = [o for o in objs if re.search(ws, o.text) is not None]
        plain = [o for o in objs if re.search(spec, o.text) is not None]
        cx.check(same(p.find_objects(spec, ignore_ws=True), hit), "ignore_ws lets any run of blanks match any run of blanks")
        cx.check(cx.eq(p.find_lines(spec, ignore_ws=True), [o.text for o in hit]), "find_lines(ignore_ws) agrees")
        cx.check(same(p.find_objects(spec), plain), "without ignore_ws blanks match literally")
    cx.observe([o.linenum for o in hit])
    cx.cover("match" if hit else "no match")
    cx.check(cx.eq(shape(p.objs), before), "queries leave the configuration unchanged")


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))
