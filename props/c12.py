import re
from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "configurations of 4 lines (a root line, children, grandchildren, a further root line; 6 hierarchies, one starting with an indented line), each line of 2 or 3 symbolic characters over a, b, 1, 2 (indented as the hierarchy says); "
                 "eight expressions with one to three groups, some taking part in no match, as text or compiled; result types str, int, list; typed and untyped defaults",
        "thorough": "5 lines, 3 or 4 characters",
    },
    "outside": "blank lines, other expressions, result types that raise for the matched text, re_match() for groups that take no part in the match",
    "assumptions": ["the reference uses re.search itself to decide which line matches an expression (regular expression matching is modelled by the engine and checked against Python on every replayed sample)"],
    "must_cover": ["self", "child", "grandchild", "default", "nogroup", "dict"],
}
# text, group, type, default
RGX = [(r"a(\d)", 1, int, -1), (r"^\s+(a|b\d)", 1, str, "_d"), (r"(\d+)|b", 1, int, 77), (r"(a)(\d)$", 2, int, "5"), (r"b(1*)(a)?", 2, str, None), (r"^\s*([ab]+)", 1, list, ""), (r"(?i)B(.)$", 1, str, "x"), (r"\d", 0, int, 0)]
GD = [(r"(?P<x>\d)", {"x": int}, -1), (r"^\s*(?P<x>a)|(?P<y>\d)$", {"x": str, "y": int}, "1"), (r"a(?P<x>\d)?", {"x": int, "z": str}, None), (r"(?P<x>b)(?P<y>.)", {"y": None, "x": list}, "b")]
SHAPES = [(2, 0, 1, 2), (0, 1, 2, 0), (0, 1, 1, 0), (0, 1, 2, 1), (0, 2, 1, 1), (0, 0, 1, 2)]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for s in range(len(SHAPES)):
        for r in range(len(RGX)):
            out.append({"name": "typed%d.%d" % (s, r), "f": "typed", "s": s, "r": r, "n": 2 if not big else 3})
        for r in range(len(GD)):
            out.append({"name": "dict%d.%d" % (s, r), "f": "dict", "s": s, "r": r, "n": 2 if not big else 3})
    for r in range(len(RGX)):
        out.append({"name": "line%d" % r, "f": "line", "s": 0, "r": r, "n": 4 if not big else 5})
    for r in range(5):
        out.append({"name": "search%d" % r, "f": "search", "s": r, "r": r, "n": 3})
    return out


def first(texts, rgx, group):
    """(position, text) of the first text with a match of the expression in which the group takes part"""
    for i, t in enumerate(texts):
        m = re.search(rgx, t)
        if m is not None and m.group(group) is not None:
            return i, m.group(group)
    return None, None


def cast(v, typ, default, untyped):
    if v is not None:
        return typ(v)
    return default if untyped else typ(default)


def below(ind, i):
    """(children, descendants) of line i"""
    par = ref_parents([" " * k + "x" for k in ind])
    kids = [k for k in range(len(ind)) if par[k] == i and k != i]
    desc = []
    for k in range(len(ind)):
        j = k
        while par[j] != j and j != i:
            j = par[j]
        if j == i and k != i:
            desc.append(k)
    return kids, desc


def harness(cx, case):
    f = case["f"]
    ind = SHAPES[case["s"]]
    if f == "line":
        texts = ["q" + cx.str("t0", case["n"] - 1, "ab1 ") + cx.str("t1", 1, "ab1"), "r"]
        ind = (0, 0)
    else:
        texts = [" " * ind[i] + cx.str("t%d" % i, case["n"], "ab1" if i else "a2") for i in range(len(ind))]
    p = CiscoConfParse(texts, syntax="ios", factory=False)
    objs = p.objs
    cx.check([o.text for o in objs] == texts, "the configuration is the given lines")
    at = cx.choose("at", 2) if len(ind) > 2 else 0
    o = objs[at]
    kids, desc = below(ind, at)
    if f == "search":
        rgx = (r"a", r"^\s+b", r"a+b", r"b$", r"1|a")[case["r"]]
        cx.check(o.re_search(rgx, default="D") == (o.text if re.search(rgx, o.text) else "D"), "re_search gives the text of a matching line, else the default")
        for rec, sel in ((False, kids), (True, desc)):
            want = [k for k in sel if re.search(rgx, texts[k])]
            cx.check([c.linenum for c in o.re_search_children(rgx, recurse=rec)] == want, "re_search_children gives the matching children (descendants), in order")
            cx.check(o.has_child_with(rgx, all_children=rec) == (len(want) > 0), "has_child_with tells whether there are any")
            roots = [k for k in range(len(ind)) if re.search(rgx, texts[k]) and (rec or objs[k].parent is objs[k])]
            cx.check([c.linenum for c in p.re_search_children(rgx, recurse=rec)] == roots, "CiscoConfParse.re_search_children gives the matching root lines (or all)")
        return
    if f == "dict":
        rgx, types, default = GD[case["r"]]
        use = re.compile(rgx) if cx.bool("compiled") else rgx
        for rec, sel in ((False, kids), (True, desc)):
            got = o.re_match_iter_typed(use, groupdict=types, recurse=rec, default=default)
            want = {k: default for k in types}
            for k in [at] + sel:
                m = re.search(rgx, texts[k])
                if m is not None:
                    cx.cover("dict")
                    g = m.groupdict()
                    for name, typ in types.items():
                        if name in g and g[name] is not None:
                            want[name] = typ(g[name]) if typ is not None else g[name]
                    break
            cx.check(sorted(got) == sorted(want) and all([got[k] == want[k] and (got[k] is None) == (want[k] is None) for k in want]), "each named group of the first matching line, with its type, or the default")
        return
    rgx, group, typ, default = RGX[case["r"]]
    use = re.compile(rgx) if cx.bool("compiled") else rgx
    untyped = cx.bool("untyped")
    k, v = first([texts[at]], rgx, group)
    m = re.search(rgx, texts[at])
    if m is None or v is not None:
        cx.check(o.re_match(use, group=group, default="D") == (v if m is not None else "D"), "re_match gives the text of the group, else the default")
    else:
        cx.cover("nogroup")
    got = o.re_match_typed(use, group=group, result_type=typ, default=default, untyped_default=untyped)
    want = cast(v, typ, default, untyped) if v is not None or untyped or default is not None else str(None)
    cx.check(got == want and s_type(got) == s_type(want), "re_match_typed gives the group with its type, else the default")
    if f == "line":
        return
    for rec, sel in ((False, kids), (True, desc)):
        order = [at] + sel
        k, v = first([texts[j] for j in order], rgx, group)
        if k is None:
            cx.cover("default")
        else:
            cx.cover("self" if k == 0 else "child" if order[k] in kids else "grandchild")
        got = o.re_match_iter_typed(use, group=group, result_type=typ, default=default, untyped_default=untyped, recurse=rec)
        want = cast(v, typ, default, untyped)
        cx.check(got == want and s_type(got) == s_type(want), "re_match_iter_typed gives the group of the first matching line of the family with its type, else the default")
    k, v = first([texts[j] for j in range(len(ind)) if objs[j].parent is objs[j]], rgx, group)
    got = p.re_match_iter_typed(use, group=group, result_type=typ, default=default, untyped_default=untyped)
    want = cast(v, typ, default, untyped)
    cx.check(got == want and s_type(got) == s_type(want), "CiscoConfParse.re_match_iter_typed gives the group of the first matching root line with its type, else the default")


def s_type(v):
    for t in (str, int, list):
        if isinstance(v, t):
            return t
    return v is None
