import copy
from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ciscoconfparse import ConfigList
from props.common import *

META = {
    "bounds": {
        "quick": "configurations of 4 lines of one symbolic character (6 hierarchies, comments among the characters) and of 3 lines of 2 arbitrary characters, blank lines kept; every index -5 to 4, every slice with bounds -4 to 5 and steps 1, 2, -1, every begin index, every line removed; "
                 "comparison of two configurations of 1 to 3 lines of 1 symbolic character; ios, nxos and asa",
        "thorough": "configurations of 5 lines",
    },
    "outside": "elements which are no lines; changing a slice or a copy; brace syntax",
    "must_cover": ["index", "bad index", "slice", "removed", "equal", "less", "comment"],
}
SHAPES = [(0, 1, 1, 0), (0, 1, 2, 1), (0, 0, 1, 0), (1, 0, 1, 1), (0, 1, 0, 1), (0, 0, 0, 0)]
BIG = [(0, 1, 2, 0, 1), (0, 1, 1, 2, 2)]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for k, sh in enumerate(SHAPES + (BIG if big else [])):
        s = "".join(map(str, sh))
        for m in ("index", "slice", "iter", "pop", "remove", "del", "arith", "copy"):
            out.append({"name": "%s.%s" % (m, s), "mode": m, "shape": sh, "syntax": ("ios", "nxos", "asa")[k % 3]})
    out.append({"name": "iter.free", "mode": "iter", "free": 3, "syntax": "ios"})
    out.append({"name": "arith.free", "mode": "arith", "free": 2, "syntax": "ios"})
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            out.append({"name": "cmp.%d.%d" % (n, m), "mode": "cmp", "n": n, "m": m, "syntax": "ios"})
    return out


def same(a, b):
    """the very same line objects in the same order"""
    a = list(a)
    return len(a) == len(b) and all([x is y for x, y in zip(a, b)])


def build(cx, case):
    if case.get("free"):
        lines = [cx.str("l%d" % i, 2) for i in range(case["free"])]
        for t in lines:
            cx.assume("{" not in t and "}" not in t)
    else:
        lines = [" " * case["shape"][i] + cx.str("l%d" % i, 1, "ab!") for i in range(len(case["shape"]))]
    p = CiscoConfParse(list(lines), syntax=case["syntax"], ignore_blank_lines=False)
    return p, p.ConfigObjs, lines


def harness(cx, case):
    mode = case["mode"]
    if mode == "cmp":
        A = [cx.str("a%d" % i, 1, "ab") for i in range(case["n"])]
        B = [cx.str("b%d" % i, 1, "ab") for i in range(case["m"])]
        x, y = CiscoConfParse(list(A)).ConfigObjs, CiscoConfParse(list(B)).ConfigObjs
        eq = A == B
        # lines are ordered by number, so the first difference is the length, or two lines which are not ordered
        cx.check(cx.eq(bool(x == y), bool(eq)), "configurations are equal exactly when their lines are")
        cx.check(cx.eq(bool(x != y), not bool(eq)), "!= is the negation of ==")
        cx.check(x == list(x) and x <= x and x >= x and not (x < x) and not (x > x), "a configuration is equal to itself and to its list of lines")
        L, M = list(x), list(y)
        cx.check(cx.all([cx.eq(bool(x < y), bool(L < M)), cx.eq(bool(x > y), bool(L > M))]), "configurations are ordered like their lists of lines")
        k = min(case["n"], case["m"])
        if A[:k] == B[:k]:
            # (lines themselves have no <=)
            cx.check((x <= y) == (case["n"] <= case["m"]) and (x >= y) == (case["n"] >= case["m"]), "a configuration is less than or equal to one which begins with it")
        if eq:
            cx.cover("equal")
        if x < y:
            cx.cover("less")
        return
    p, c, lines = build(cx, case)
    objs = list(c)
    n = len(lines)
    lines = [t.rstrip() for t in lines]
    par = ref_parents(lines)
    cx.check(len(c) == n and [o.text for o in objs] == [t.rstrip() for t in lines] and c.last_index == n - 1, "one element per line")
    if any([is_comment(t, "!") for t in lines]):
        cx.cover("comment")
    if mode == "index":
        i = cx.choose("i", 2 * n + 2) - n - 1
        try:
            got = c[i]
            cx.check(-n <= i < n and got is objs[i], "c[i] is line i")
            cx.check(c.index(got) == i % n and c.count(got) == 1 and got in c, "index, count and in find the line at its position")
            cx.check(p.objs[i] is got, "objs are the lines")
            cx.cover("index")
        except IndexError:
            cx.check(not -n <= i < n, "every index in range is accepted")
            cx.cover("bad index")
    elif mode == "slice":
        a = cx.choose("a", n + 5) - n
        b = cx.choose("b", n + 6) - n
        s = (1, 2, -1)[cx.choose("s", 3)]
        got = c[a:b:s]
        cx.check(isinstance(got, ConfigList) and same(got, objs[a:b:s]), "a slice holds exactly these lines")
        cx.check(same(c[a:], objs[a:]) and same(c[:b], objs[:b]), "open slices hold exactly these lines")
        cx.check(same(c, objs) and [o.linenum for o in c] == list(range(n)), "slicing changes nothing")
        cx.cover("slice")
    elif mode == "iter":
        k = cx.choose("k", n + 2)
        cx.check(same(c.iter_with_comments(k), objs[k:]), "iter_with_comments gives the lines from the given index")
        want = [objs[i] for i in range(k, n) if not is_comment(lines[i], "!")]
        cx.check(same(c.iter_no_comments(k), want), "iter_no_comments gives those which are no comments")
        cx.check(same(reversed(c), objs[::-1]), "reversed gives the lines in reverse order")
        cx.check(same(c.all_parents, [objs[i] for i in range(n) if kids_of(par, i)]), "all_parents are the lines with children")
        roots = [i for i in range(n) if not is_comment(lines[i], "!") and lines[i].strip() != "" and indent_of(lines[i]) == 0]
        P, Q = c.config_hierarchy()
        cx.check(same(P, [objs[i] for i in roots if kids_of(par, i)]) and same(Q, [objs[i] for i in roots if not kids_of(par, i)]),
                 "config_hierarchy divides the root lines into those with and without children")
    elif mode in ("pop", "remove", "del"):
        i = cx.choose("i", n)
        if mode == "pop":
            neg = cx.bool("neg")
            got = c.pop(i - n) if neg else c.pop() if i == n - 1 else c.pop(i)
            cx.check(got is objs[i], "pop returns the line removed")
        elif mode == "remove":
            c.remove(objs[i])
        else:
            del c[i]
        rest = [t.rstrip() for k, t in enumerate(lines) if k != i]
        cx.check([o.text for o in c] == rest, "exactly this line is removed")
        cx.check([o.linenum for o in c] == list(range(n - 1)), "line numbers stay equal to positions")
        p.commit()
        cx.check([o.text for o in p.ConfigObjs] == rest and [o.parent.linenum for o in p.ConfigObjs] == ref_parents(rest), "after commit the hierarchy is that of the remaining lines")
        cx.cover("removed")
    elif mode == "arith":
        q = CiscoConfParse(["x", " y"]).ConfigObjs
        other = list(q)
        cx.check(isinstance(c + q, ConfigList) and same(c + q, objs + other), "+ gives the lines of both")
        cx.check(same(c + other, objs + other) and same(c + tuple(other), objs + other) and same(other + c, other + objs), "+ with a list or tuple of lines")
        cx.check(same(c * 2, objs + objs) and same(2 * c, objs + objs) and same(c * 0, []), "* repeats the lines")
        cx.check(same(c, objs) and same(q, other) and [o.linenum for o in c] == list(range(n)), "the operands are unchanged")
        c += q
        cx.check(same(c, objs + other) and c is p.ConfigObjs and same(q, other), "+= appends the lines")
        c.extend(other)
        cx.check(same(c, objs + other + other), "extend appends the lines")
        c.clear()
        cx.check(len(c) == 0 and list(c) == [], "clear removes all lines")
    else:
        for d in (c.copy(), copy.copy(c)):
            cx.check(isinstance(d, ConfigList) and d is not c and d == c and same(d, objs), "a copy holds the same lines")
            cx.check(d.syntax == c.syntax and d.comment_delimiter == c.comment_delimiter and d.ignore_blank_lines == c.ignore_blank_lines, "a copy has the options of the original")
            d.clear()
            cx.check(same(c, objs), "clearing the copy leaves the original alone")
        c.reverse()
        cx.check(same(c, objs[::-1]), "reverse reverses the lines")
        c.sort()
        cx.check(same(c, objs), "sort puts the lines back in the order of their numbers")
