from ciscoconfparse import CiscoConfParse
from ciscoconfparse.models_cisco import IOSCfgLine
from props.common import *

META = {
    "bounds": {"quick": "two lines of up to 3 arbitrary printable characters with any line numbers 0..999; three lines with texts of 1..2 characters; "
                        "every pair of lines of a parsed configuration of 3 lines of 2 characters",
               "thorough": "texts up to 5 characters, line numbers 0..99999"},
    "outside": "longer texts; Python hash collisions (the symbolic hash is collision-free)",
    "must_cover": ["equal", "unequal"],
}


def tasks(tier):
    big = tier == "thorough"
    m = 5 if big else 3
    out = []
    for a in range(m + 1):
        for b in range(a, m + 1):
            out.append({"name": "pair-%d-%d" % (a, b), "kind": "pair", "a": a, "b": b, "max": 99999 if big else 999})
    out.append({"name": "triple", "kind": "triple", "L": 2, "max": 99})
    out.append({"name": "parsed", "kind": "parsed", "n": 3, "L": 2})
    return out


def mk(text, num):
    o = IOSCfgLine(all_lines=[], line=text)
    o.linenum = num
    return o


def harness(cx, case):
    if case["kind"] == "pair":
        ta, tb = cx.str("a", case["a"]), cx.str("b", case["b"])
        na, nb = cx.int("na", 0, case["max"]), cx.int("nb", 0, case["max"])
        x, y = mk(ta, na), mk(tb, nb)
        same = cx.all([na == nb, ta.rstrip() == tb.rstrip()])
        got = x == y
        cx.observe([bool(got)])
        cx.check(cx.eq(bool(got), bool(same)), "lines are equal exactly when line number and text are equal")
        cx.check(cx.eq(bool(x != y), not bool(same)), "!= is the negation of ==")
        cx.check(cx.implies(bool(same), hash(x) == hash(y)), "equal lines have equal hashes")
        cx.check(len({x, y}) == (1 if same else 2), "a set keeps unequal lines apart and merges equal ones")
        cx.check(cx.eq(bool(x < y), bool(na < nb)), "< follows line numbers")
        cx.check(cx.eq(bool(x > y), bool(na > nb)), "> follows line numbers")
        cx.check(not (x == ta) and not (x == None) and not (x == na), "a line is not equal to a text, None or a number")  # noqa: E711
        cx.cover("equal" if same else "unequal")
    elif case["kind"] == "triple":
        objs = [mk(cx.str("t%d" % i, case["L"], "ab1"), cx.int("n%d" % i, 0, case["max"])) for i in range(3)]
        s = sorted(objs)
        cx.check(len(s) == 3, "sorting keeps every line")
        for i in range(2):
            cx.check(s[i].linenum <= s[i + 1].linenum, "sorted by line number")
        k = len(set(objs))
        distinct = 0
        for i in range(3):
            if not any(objs[i].linenum == objs[j].linenum and objs[i].text == objs[j].text for j in range(i)):
                distinct += 1
        cx.check(k == distinct, "set of lines has one element per distinct (number, text)")
    else:
        lines = [cx.str("l%d" % i, case["L"], NOBRACE) for i in range(case["n"])]
        p = CiscoConfParse(lines)
        objs = list(p.objs)
        for i in range(len(objs)):
            cx.check(objs[i].index == i, "index is the position")
            for j in range(len(objs)):
                cx.check(cx.eq(bool(objs[i] == objs[j]), i == j), "different lines of one configuration are never equal")
                cx.check(cx.eq(bool(objs[i] < objs[j]), i < j), "lines of one configuration are ordered by position")
        cx.check(len(set(objs)) == len(objs), "a set keeps every line of the configuration")
