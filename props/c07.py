import re
from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "4 lines of 2 characters over {blank, a, b} and 4 lines of indentation 0..2; branch specs of 1 to 4 regular "
                 "expressions, with capture groups and with re.IGNORECASE",
        "thorough": "5 and 6 lines",
    },
    "outside": "other regular expressions, longer configurations, allow_none=False (deprecated, ignored by the code)",
    "must_cover": ["full branch", "partial branch"],
}

SPECS = [("^a",), ("^a", "b"), ("a", "b", "a"), ("^\\S", "^\\s"), ("^(a)", "(b|a)(\\S)?", "b"), ("b", "", "", "a"), ("zz", "a")]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for s in SPECS:
        out.append({"name": "/".join(s), "spec": list(s), "n": 5 if big else 4, "L": 2, "dom": " ab", "tail": ""})
    out.append({"name": "deep", "spec": ["^a", "^ a", "^  "], "n": 6 if big else 5, "L": 2, "dom": " a", "tail": "a"})
    out.append({"name": "flags", "spec": ["^a", "(b)", "A"], "n": 3, "L": 2, "dom": " aBA", "tail": "b", "flags": int(re.I)})
    out.append({"name": "wide", "spec": ["a", "b"], "n": 3, "L": 3, "dom": " ab!", "tail": ""})
    return out


def harness(cx, case):
    lines = [cx.str("l%d" % i, case["L"], case["dom"]) + case["tail"] for i in range(case["n"])]
    p = CiscoConfParse(lines)
    objs = list(p.objs)
    T = [l.rstrip() for l in lines if l.strip() != ""]
    before = shape(objs)
    par = ref_parents(T)
    spec = tuple(case["spec"])
    flags = case.get("flags", 0)
    # reference
    rows = []
    for d, s in enumerate(spec):
        if d == 0:
            heads = [i for i in range(len(T)) if re.search(s, T[i], flags)]
            rows = [[i] for i in heads] or [[None]]
            continue
        new = []
        for r in rows:
            if r[-1] is None:
                new.append(r + [None])
                continue
            nxt = [k for k in kids_of(par, r[-1]) if re.search(s, T[k], flags)]
            for k in nxt or [None]:
                new.append(r + [k])
        rows = new
    got = p.find_object_branches(spec, regex_flags=flags)
    out = [[None if e is None else e.linenum for e in r] for r in got]
    cx.observe(out)
    cx.check(out == rows, "one row per chain of matching descendants, padded with None")
    for r in rows:
        cx.cover("partial branch" if r[-1] is None else "full branch")
    grp = p.find_object_branches(spec, regex_flags=flags, regex_groups=True)
    want = []
    for r in rows:
        row = []
        for d, e in enumerate(r):
            if e is None:
                row.append((None,))
            else:
                g = re.search(spec[d], T[e], flags).groups()
                row.append(g if len(g) > 0 else (T[e],))
        want.append(row)
    cx.check(len(grp) == len(want), "regex_groups: as many rows")
    for a, b in zip(grp, want):
        cx.check(len(a) == len(b), "regex_groups: as many columns")
        for x, y in zip(a, b):
            cx.check(cx.eq(list(x), list(y)), "regex_groups: captured groups (or the text) of every matched line")
    cx.check(cx.eq(shape(p.objs), before), "searches leave the configuration unchanged")
