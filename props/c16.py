import re
from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "configurations of 2 lines of 3 symbolic characters out of blank, a, b, '.', '*', '1' against 1 or 2 required lines of 3 such characters, and of 4 lines of one symbolic character (7 hierarchies of depth up to 3) against 2 required lines of 2, "
                 "with and without ignore_ws; removal of non-required lines of 9 hierarchies of 2 to 5 lines with 2 required lines and 4 pairs of linespec and uncfgspec; the opposite of commands of up to 6 symbolic characters at every indentation 0 to 2, with and without a line above and below",
        "thorough": "removal for 5 further hierarchies, configurations of 3 lines of 3 characters, commands of up to 8 characters",
    },
    "outside": "comments, banners; uncfgspecs which do not match a line to remove, or match a leading 'no' or leading blanks; repeated blanks inside a 'no' command; blank required lines",
    "must_cover": ["missing", "present", "removed", "kept", "child removed", "no", "added twice"],
}
SHAPES = [(0, 0), (0, 1), (0, 1, 1), (0, 1, 2), (0, 0, 1), (0, 1, 0, 1), (0, 1, 2, 1), (0, 1, 2, 2), (0, 1, 2, 0, 1)]
MORE = [(0, 2, 1, 2), (0, 1, 1, 0), (0, 1, 2, 3), (0, 0, 1, 1), (0, 1, 1, 2, 2)]
SPECS = [(r"a", r"a"), (r"^a", r"a\S*"), (r"^\s+a", r"a."), (r"b$|ax", r"\S+")]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for ws in (0, 1):
        for m in (1, 2):
            out.append({"name": "all.2.%d.%d" % (m, ws), "mode": "all", "shape": (0, 0), "L": 3, "m": m, "ws": ws, "dom": " ab.*1" if m == 1 else " a." if ws else " ab."})
        for sh in SHAPES[2:]:
            out.append({"name": "all.%s.%d" % ("".join(map(str, sh)), ws), "mode": "all", "shape": sh, "L": 1, "m": 2, "ws": ws, "dom": "ab."})
        if big:
            out.append({"name": "all.3.%d" % ws, "mode": "all", "shape": (0, 0, 0), "L": 3, "m": 1, "ws": ws, "dom": " ab."})
    for sh in SHAPES + (MORE if big else []):
        for k in range(len(SPECS)):
            out.append({"name": "excl.%s.%d" % ("".join(map(str, sh)), k), "mode": "excl", "shape": sh, "spec": k})
    for n in range(1, 9 if big else 7):
        out.append({"name": "opp.%d" % n, "mode": "opp", "n": n})
    return out


def same(cx, a, b, ws):
    if not ws:
        return a.strip() == b.strip()
    x, y = a.split(), b.split()
    return len(x) == len(y) and all([p == q for p, q in zip(x, y)])


def do_all(cx, case):
    sh, ws = case["shape"], case["ws"]
    lines = [" " * sh[i] + cx.str("l%d" % i, case["L"], case["dom"]) for i in range(len(sh))]
    req = [cx.str("r%d" % i, 3 if case["L"] == 3 and i == 0 else 2, case["dom"] if case["L"] == 3 else "ab ") for i in range(case["m"])]
    for t in req:
        cx.assume(t.strip() != "")
    p = CiscoConfParse(list(lines), syntax="ios")
    before = shape(p.ConfigObjs)
    got = p.req_cfgspec_all_diff(list(req), ignore_ws=bool(ws))
    cx.observe(got)
    want = []
    for r in req:
        if any([t.strip() != "" and same(cx, t, r, ws) for t in lines]):
            cx.cover("present")
        else:
            cx.cover("missing")
            want.append(r)
    cx.check(got == want, "req_cfgspec_all_diff returns exactly the required lines which are not in the configuration, in order")
    cx.check(shape(p.ConfigObjs) == before, "the configuration is unchanged")


def do_excl(cx, case):
    sh = case["shape"]
    ls, us = SPECS[case["spec"]]
    lines = [" " * sh[i] + cx.str("l%d" % i, 1, "ab") + "x" + ("b" if i % 2 else "") for i in range(len(sh))]
    # a repeated required line is returned as often as it is given
    req = [cx.str("r0", 1, "ab") + "x", " " + cx.str("r1", 1, "ab") + "xb"]
    if len(sh) <= 3:
        # required lines which differ in blanks only
        req[cx.choose("twin", 2)] = "  " + req[cx.choose("twin of", 2)]
    if len(sh) == 2:
        req.append(req[0])
    p = CiscoConfParse(list(lines), syntax="ios")
    before = shape(p.ConfigObjs)
    got = p.req_cfgspec_excl_diff(ls, us, list(req))
    cx.observe(got)
    par = ref_parents(lines)
    matching = [i for i in range(len(lines)) if re.search(ls, lines[i]) is not None]
    bad = [i for i in matching if not any([same(cx, lines[i], r, 0) for r in req])]
    show = set(bad)
    for i in bad:
        show |= set(anc_of(par, i))
        cx.cover("child removed" if sh[i] else "removed")
    want = []
    for i in sorted(show):
        if i in bad:
            want.append(" " * sh[i] + "no " + re.search(us, lines[i]).group(0))
        else:
            want.append(lines[i])
    for r in req:
        if any([same(cx, lines[i], r, 0) for i in matching]):
            cx.cover("kept")
        else:
            want.append(r)
            if len(req) > 2:
                cx.cover("added twice")
    cx.check(got == want, "req_cfgspec_excl_diff removes exactly the other matching lines below their parents, then adds the missing ones")
    cx.check(shape(p.ConfigObjs) == before, "the configuration is unchanged")


def do_opp(cx, case):
    ind = cx.choose("ind", 3)
    body = cx.str("t", case["n"], "no aNO1")
    cx.assume(body[0] != " " and body[-1] != " ")
    how = cx.choose("how", 2)
    low = body.lower()
    isno = case["n"] > 3 and low[0:3] == "no "
    if isno:
        cx.assume(not any([body[k] == " " and body[k + 1] == " " for k in range(case["n"] - 1)]))
    else:
        cx.assume(low != "no")
    lines = ["q"] * cx.choose("above", 2) + [" " * ind + body] + ["   r"] * cx.choose("below", 2)
    objs = CiscoConfParse(lines, syntax="ios").ConfigObjs
    o = [x for x in objs if x.text == " " * ind + body][0]
    if how == 0:
        got = o.uncfgtext
        want = body[3:] if isno else "no " + body
        if isno:
            cx.cover("no")
    else:
        # the text to use may be given, with or without a leading 'no'
        o.add_uncfgtext(body)
        got = o.uncfgtext
        want = body if body[0:3] == "no " else "no " + body
    cx.observe(got)
    cx.check(got == " " * ind + want, "the opposite command at the indentation of the line")
    cx.check(o.text == " " * ind + body, "the line is unchanged")


def harness(cx, case):
    {"all": do_all, "excl": do_excl, "opp": do_opp}[case["mode"]](cx, case)
