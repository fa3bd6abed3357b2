import re
from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "5 lines of indentation 0..2 with a 2-letter alphabet, 4 lines with comments, 3 lines of 2 arbitrary characters, factory on and off",
        "thorough": "7 lines of indentation 0..2, 5 lines with comments, 4 lines of 2 arbitrary characters",
    },
    "outside": "banners and braces, deeper configurations, siblings of lines that have no parent (not documented)",
    "must_cover": ["grandchild", "sibling"],
}


def tasks(tier):
    big = tier == "thorough"
    return [
        {"name": "deep", "n": 7 if big else 5, "L": 2, "dom": " a", "tail": "b"},
        {"name": "comments", "n": 5 if big else 4, "L": 2, "dom": " a!", "tail": "b"},
        {"name": "print", "n": 4 if big else 3, "L": 2, "dom": NOBRACE, "tail": ""},
        {"name": "factory", "n": 4, "L": 2, "dom": " a", "tail": "b", "factory": True},
        {"name": "nxos", "n": 4, "L": 2, "dom": " a", "tail": "b", "syntax": "nxos"},
        {"name": "wide", "n": 4, "L": 3, "dom": " a", "tail": "b"},
    ]


def harness(cx, case):
    lines = [cx.str("l%d" % i, case["L"], case["dom"]) + case["tail"] for i in range(case["n"])]
    p = CiscoConfParse(lines, syntax=case.get("syntax", "ios"), factory=case.get("factory", False))
    objs = list(p.objs)
    T = [l.rstrip() for l in lines if l.strip() != ""]
    before = shape(objs)
    par = ref_parents(T)
    N = range(len(T))
    cx.observe(par)
    ok = []
    for i in N:
        o = objs[i]
        kids, desc, anc = kids_of(par, i), desc_of(par, i), anc_of(par, i)
        if len(desc) > len(kids):
            cx.cover("grandchild")
        ok.append(nums(o.children) == kids)
        cx.check(nums(o.children) == kids, "children are the direct children in order")
        cx.check(nums(o.all_children) == desc, "all_children are all descendants in file order")
        cx.check(nums(o.all_parents) == anc, "all_parents are all ancestors, outermost first")
        cx.check(nums(o.lineage) == sorted(anc + [i] + desc), "lineage = ancestors, the line, descendants")
        cx.check(nums(o.geneology) == anc + [i], "geneology = ancestors then the line")
        cx.check(cx.eq(o.geneology_text, [T[k] for k in anc + [i]]), "geneology_text = texts of the geneology")
        cx.check(cx.eq(o.ioscfg, [T[k] for k in [i] + desc]), "ioscfg = text of the line and all descendants")
        cx.check(bool(o.has_children) == (len(kids) > 0), "has_children")
        cx.check(o.family_endpoint == ([i] + desc)[-1], "family_endpoint = number of the last descendant")
        hit = any("a" in T[k] for k in kids)
        hitd = any("a" in T[k] for k in desc)
        cx.check(bool(o.has_child_with("a")) == hit, "has_child_with looks at direct children")
        cx.check(bool(o.has_child_with("a", all_children=True)) == hitd, "has_child_with(all_children) looks at all descendants")
        cx.check(nums(o.re_search_children("a")) == [k for k in kids if "a" in T[k]], "re_search_children: matching direct children")
        cx.check(nums(o.re_search_children("a", recurse=True)) == [k for k in desc if "a" in T[k]], "re_search_children(recurse): matching descendants")
        if par[i] != i:
            sib = [k for k in kids_of(par, par[i]) if indent_of(T[k]) == indent_of(T[i])]
            if len(sib) > 1:
                cx.cover("sibling")
            cx.check(nums(o.siblings) == sib, "siblings = children of the same parent with the same indentation")
    m = [i for i in N if re.search("a", T[i])]
    s1, s2, s3 = set(), set(), set()
    for i in m:
        s1.update([i] + kids_of(par, i))
        s2.update([i] + desc_of(par, i))
    cx.check(cx.eq(p.find_children("a"), [T[k] for k in sorted(s1)]), "find_children: matching lines and their direct children, in order, once")
    cx.check(cx.eq(p.find_all_children("a"), [T[k] for k in sorted(s2)]), "find_all_children: matching lines and all their descendants, in order, once")
    cx.check(nums(p.objs.all_parents) == [i for i in N if kids_of(par, i)], "all_parents of the line list = lines having children")
    b = [i for i in N if re.search("^ +a", T[i]) and par[i] != i]
    if len(b) == len([i for i in N if re.search("^ +a", T[i])]):
        for i in b:
            s3.add(i)
            s3.update(kids_of(par, par[i]))
        for i in list(s3):
            s3.update(anc_of(par, i))
        cx.check(cx.eq(p.find_blocks("^ +a"), [T[k] for k in sorted(s3)]), "find_blocks: matching child lines, their siblings and their ancestors, in order, once")
    if len(m) == 1:
        i = m[0]
        cx.check(cx.eq(p.find_lineage("a"), [T[k] for k in sorted(anc_of(par, i) + [i] + desc_of(par, i))]), "find_lineage: the lineage of the one matching line")
    cx.check(cx.eq(shape(p.objs), before), "accessors leave the configuration unchanged")
