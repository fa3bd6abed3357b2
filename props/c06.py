import re
from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "4 lines of 3 characters over {blank, a, b} (and over {blank, a, b, !, .} for 3 lines), 4 lines "
                 "of indentation 0..2; 7 parent/child spec pairs, direct and recursive, with text specs, line objects, "
                 "escape_chars and ignore_ws",
        "thorough": "5 lines of 3 characters, 4 lines over any printable character",
    },
    "outside": "list/tuple parentspec (its meaning is not documented), other regular expressions, banners and braces",
    "must_cover": ["direct child", "grandchild only", "no child"],
}

PAIRS = [("^a", "b"), ("a", "^ b"), ("^\\S", "a$"), ("^ *a", "b|a"), ("a.", "^\\s+b"), ("b", "a"), ("", "bb")]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for p, c in PAIRS:
        out.append({"name": "%s / %s" % (p, c), "p": p, "c": c, "n": 5 if big else 4, "L": 2 if big else 2, "dom": " ab", "tail": ""})
        if big:
            out.append({"name": "wide %s / %s" % (p, c), "p": p, "c": c, "n": 3, "L": 3, "dom": " ab!", "tail": ""})
    out.append({"name": "comments", "p": "^a", "c": "b", "n": 3, "L": 2, "dom": " ab!", "tail": ""})
    for p, c in (("^a", "b"), ("a", "bb"), ("a$", "^ *b"), ("b", "a")):
        out.append({"name": "deep %s / %s" % (p, c), "p": p, "c": c, "n": 5 if big else 4, "L": 2, "dom": " a", "tail": "", "last": "ab"})
    for p, c in (("^a", "b"), ("a", "a b")):
        out.append({"name": "chain %s / %s" % (p, c), "p": p, "c": c, "n": 5, "L": 1, "dom": "ab ", "tail": "", "last": "ab",
                    "ind": [0, 1, 2, 3, 1]})
    out.append({"name": "print", "p": "^a", "c": "b", "n": 3 if big else 2, "L": 3, "dom": NOBRACE, "tail": ""})
    out.append({"name": "escape", "p": "a.", "c": "b.", "n": 3, "L": 3, "dom": " ab.", "tail": "", "esc": True})
    out.append({"name": "ignore_ws", "p": "a b", "c": " b a", "n": 2, "L": 4, "dom": " ab", "tail": "", "ws": True})
    out.append({"name": "lineobj", "p": "a.", "c": "b.", "n": 3, "L": 3, "dom": " ab", "tail": "", "obj": True})
    return out


def rmatch(spec, text):
    return re.search(spec, text) is not None


def harness(cx, case):
    ind = case.get("ind", [0] * 9)
    lines = [" " * ind[i] + cx.str("l%d" % i, case["L"], case["dom"]) + case["tail"] + (cx.str("z%d" % i, 1, case["last"]) if "last" in case else "") for i in range(case["n"])]
    p = CiscoConfParse(lines)
    objs = list(p.objs)
    T = [l.rstrip() for l in lines if l.strip() != ""]
    cx.check(len(objs) == len(T), "lines kept")
    before = shape(objs)
    par = ref_parents(T)
    N = range(len(T))
    P, C = case["p"], case["c"]
    kw = {}
    rp, rc = P, C
    if case.get("esc"):
        kw["escape_chars"] = True
        rp, rc = "a\\.", "b\\."
    if case.get("ws"):
        kw["ignore_ws"] = True
        rp, rc = "a\\s+b", "\\s+b\\s+a"
    ps, cs = P, C
    if case.get("obj"):
        if len(objs) < 2:
            return
        ps, cs = objs[0], objs[1]
        rp, rc = T[0], T[1]
    isp = [rmatch(rp, t) for t in T]

    def childhit(i):
        # a child spec matches as a regular expression or as literal text
        return (C in T[i] and not case.get("esc") and not case.get("ws") and not case.get("obj")) or rmatch(rc, T[i])
    isc = [childhit(i) for i in N]
    cre = [rmatch(rc, T[i]) for i in N]
    direct = [any(isc[k] for k in kids_of(par, i)) for i in N]
    deep = [any(isc[k] for k in desc_of(par, i)) for i in N]
    for i in N:
        if isp[i]:
            cx.cover("direct child" if direct[i] else ("grandchild only" if deep[i] else "no child"))
    wc = [i for i in N if isp[i] and direct[i]]
    wd = [i for i in N if isp[i] and deep[i]]
    woc = [i for i in N if isp[i] and not direct[i]]
    wod = [i for i in N if isp[i] and not deep[i]]
    cx.observe([wc, wd, woc, wod])
    cx.check(nums(p.find_parent_objects(ps, cs, **kw)) == wc, "find_parent_objects: parents with a matching direct child")
    cx.check(nums(p.find_parent_objects(ps, cs, recurse=True, **kw)) == wd, "find_parent_objects(recurse): parents with a matching descendant")
    cx.check(nums(p.find_parent_objects_wo_child(ps, cs, **kw)) == woc, "find_parent_objects_wo_child: matching parents without such a child")
    cx.check(nums(p.find_parent_objects_wo_child(ps, cs, recurse=True, **kw)) == wod, "find_parent_objects_wo_child(recurse)")
    kd = [k for k in N if cre[k] and par[k] != k and isp[par[k]]]
    dd = [k for k in N if cre[k] and any(isp[a] for a in anc_of(par, k))]
    cx.check(nums(p.find_child_objects(ps, cs, **kw)) == kd, "find_child_objects: matching direct children of matching parents")
    cx.check(nums(p.find_child_objects(ps, cs, recurse=True, **kw)) == dd, "find_child_objects(recurse): matching descendants of matching parents")
    if not case.get("esc") and not case.get("obj"):
        cx.check(nums(p.find_objects_w_child(ps, cs, **kw)) == wc, "find_objects_w_child agrees")
        cx.check(nums(p.find_objects_wo_child(ps, cs, **kw)) == woc, "find_objects_wo_child agrees")
        cx.check(nums(p.find_objects_w_parents(ps, cs, **kw)) == kd, "find_objects_w_parents agrees")
        cx.check(cx.eq(p.find_parents_w_child(ps, cs, **kw), [T[i] for i in wc]), "find_parents_w_child agrees")
        cx.check(cx.eq(p.find_parents_wo_child(ps, cs, **kw), [T[i] for i in woc]), "find_parents_wo_child agrees")
        cx.check(cx.eq(p.find_children_w_parents(ps, cs, **kw), [T[k] for k in dd]), "find_children_w_parents: matching lines below a matching parent")
        both = [i for i in N if isp[i] and direct[i] and any("a" in T[k] for k in kids_of(par, i))]
        cx.check(nums(p.find_objects_w_all_children(ps, [cs, "a"], **kw)) == both, "find_objects_w_all_children: every child spec must match a child")
        miss = [i for i in N if isp[i] and i not in both]
        cx.check(nums(p.find_objects_w_missing_children(ps, [cs, "a"], **kw)) == miss, "find_objects_w_missing_children: the complement")
        bothd = [i for i in N if isp[i] and deep[i] and any("a" in T[k] for k in desc_of(par, i))]
        cx.check(nums(p.find_objects_w_all_children(ps, [cs, "a"], recurse=True, **kw)) == bothd, "find_objects_w_all_children(recurse)")
    cx.check(cx.eq(shape(p.objs), before), "searches leave the configuration unchanged")
