from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ciscoconfparse import HDiff
from props.common import *

META = {
    "bounds": {
        "quick": "two configurations of 1 to 3 lines (13 pairs of indentation shapes up to depth 2, one of them with an indented first line, comments among the texts), every line a symbolic word out of three or "
                 "two symbolic characters; ios, nxos, iosxr, asa; lists and CiscoConfParse objects",
        "thorough": "the same with 21 shape pairs of up to 4 lines",
    },
    "outside": "order among siblings, the place of comments (they stand alone in a difference), diff header line and time stamps, banners, braces (junos), ordered_diff / allow_duplicates / output_format (not implemented by HDiff), hash collisions",
    "assumptions": ["hash() of different texts is different (HDiff identifies lines by hash)", "placement is only checked when no line repeats within a configuration and siblings have the same indentation"],
    "must_cover": ["line added below a kept parent", "line removed", "line kept"],
}

SHAPES = [
    ((0,), (0,)), ((0, 0), (0, 0)), ((0, 1), (0, 1)), ((0, 1, 1), (0, 1)), ((0, 1), (0, 1, 1)), ((0, 1, 0), (0, 0, 1)),
    ((0, 1, 2), (0, 1, 2)), ((0, 0, 1), (0, 1, 0)), ((1, 0), (0, 1)), ((0, 2, 1), (0, 1)), ((0, 1, 1), (0, 1, 1)), ((0, 1), (1, 0, 1)), ((0, 0, 0), (0, 0)),
]
MORE = [
    ((0, 1, 0, 1), (0, 1)), ((0, 1), (0, 1, 0, 1)), ((0, 1, 2, 1), (0, 1, 2)), ((0, 1, 2), (0, 1, 1, 2)), ((0, 1, 0, 1), (0, 1, 0)), ((0, 0, 1, 1), (0, 1, 1)),
    ((0, 1, 2), (0, 1, 2, 3)), ((1, 1, 0), (0, 1, 1)),
]


def tasks(tier):
    out = []
    for k, (b, a) in enumerate(SHAPES + (MORE if tier == "thorough" else [])):
        syn = ("ios", "nxos", "iosxr", "asa")[k % 4]
        out.append({"name": "%s>%s" % ("".join(map(str, b)), "".join(map(str, a))), "b": b, "a": a, "mode": "word", "syntax": syn, "objects": k % 3 == 0})
    for k, (b, a) in enumerate(DEEP[0:None if tier == "thorough" else 4]):
        out.append({"name": "deep-%s>%s" % ("".join(map(str, b)), "".join(map(str, a))), "b": b, "a": a, "mode": "few", "syntax": ("ios", "asa")[k % 2], "objects": False})
    out.append({"name": "chars", "b": (0, 1), "a": (0, 1), "mode": "chars", "syntax": "ios", "objects": False})
    out.append({"name": "spaces", "b": (0,), "a": (0,), "mode": "spaces", "syntax": "ios", "objects": True})
    return out


# longer configurations, few of whose lines are symbolic
DEEP = [
    ((0, 1, 2, 0, 1), (0, 1, 2, 0, 1, 2)), ((0, 1, 2, 0, 1, 2), (0, 1, 2, 0, 1)), ((0, 1, 2, 3), (0, 1, 2, 3, 3)), ((0, 1, 2, 1, 2), (0, 1, 1, 2)),
    ((0, 1, 4, 0, 1, 5), (0, 1, 5, 0, 1, 4)), ((0, 1, 2, 3, 4, 5), (0, 1, 2, 3, 4, 5, 1)), ((0, 3, 6, 3, 6), (0, 3, 6, 0, 3, 6)),
]
WORDS = "ab!"


def text(cx, name, ind, case):
    if case["mode"] == "few":
        return " " * ind + (cx.str(name, 1, "ab") if ind < 2 or name[0] == "a" else "a")
    if case["mode"] == "word":
        return " " * ind + cx.str(name, 1, WORDS)
    if case["mode"] == "spaces":
        return " " * ind + "x" + cx.str(name, 3, "ab ")
    t = cx.str(name, 2, NOBRACE)
    cx.assume(t.strip() != "")
    return " " * ind + t


def paths(texts):
    par = ref_parents(texts)
    out = []
    for i in range(len(texts)):
        row = [" " * indent_of(texts[i]) + " ".join(texts[i].split())]
        for j in ([] if is_comment(texts[i], "!") else reversed(anc_of(par, i))):
            row.insert(0, " " * indent_of(texts[j]) + " ".join(texts[j].split()))
        out.append(row)
    return out


def member(p, ps):
    for q in ps:
        if len(p) == len(q) and all([x == y for x, y in zip(p, q)]):
            return True
    return False


def harness(cx, case):
    before = [text(cx, "b%d" % i, n, case) for i, n in enumerate(case["b"])]
    after = [text(cx, "a%d" % i, n, case) for i, n in enumerate(case["a"])]
    B = paths(before)
    A = paths(after)
    if case["objects"]:
        pb = CiscoConfParse(before, syntax=case["syntax"])
        pa = CiscoConfParse(after, syntax=case["syntax"])
        h = HDiff(pb, pa, syntax=case["syntax"])
        cx.check(pb.ioscfg == [t.rstrip() for t in before], "comparing does not change the configuration")
    else:
        h = HDiff(before, after, syntax=case["syntax"])
    rows = h.all_output_dicts
    cx.observe([[r["diff_word"], r["parents"], r["text"]] for r in rows])
    seen = []
    for r in rows:
        p = list(r["parents"]) + [r["text"]]
        cx.check(not member(p, seen), "no line is shown twice")
        seen.append(p)
        inb = member(p, B)
        ina = member(p, A)
        w = r["diff_word"]
        if w == "remove":
            cx.cover("line removed")
            cx.check(inb and not ina, "a removed line is only in the first configuration")
        elif w == "add":
            cx.check(ina and not inb, "an added line is only in the second configuration")
        else:
            cx.cover("line kept")
            cx.check(w in ("keep", "unchanged"), "rows are kept, removed or added")
            cx.check(ina and inb, "a kept line is in both configurations")
        cx.check(r["indent"] == indent_of(r["text"]), "the recorded indentation is that of the text")
    for p in B + A:
        cx.check(member(p, seen), "every line of either configuration is in the difference")
    uni = h.unified_diffs(header=False)
    cx.check(len(uni) == len(rows), "the unified form has one line per row")
    for u, r in zip(uni, rows):
        w = r["diff_word"]
        cx.check(u == ("-" if w == "remove" else "+" if w == "add" else " ") + r["text"], "unified form: sign and text")
    distinct = True
    for ps in (A, B):
        for i in range(len(ps)):
            if member(ps[i], ps[0:i]):
                distinct = False
    com = False
    for t in before + after:
        if is_comment(t, "!"):
            com = True
    even = True
    for p in seen:
        for q in seen:
            if len(p) == len(q) and indent_of(p[-1]) != indent_of(q[-1]) and all([x == y for x, y in zip(p[0:-1], q[0:-1])]):
                even = False
    if distinct and even and not com:
        # the rows, read as a configuration, have the parents they were given
        ind = [r["indent"] for r in rows]
        for i, r in enumerate(rows):
            got = []
            cur = ind[i]
            j = i - 1
            while j >= 0 and cur > 0:
                if ind[j] < cur:
                    got.insert(0, rows[j]["text"])
                    cur = ind[j]
                j -= 1
            if r["diff_word"] == "add" and got:
                cx.cover("line added below a kept parent")
            if len(r["parents"]) > 0:
                cx.check(got == list(r["parents"]), "a line is shown below its own parents")
