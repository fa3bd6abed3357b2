import re
from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "4 lines of 2 symbolic characters over (blank, a, b) plus a letter for line replacement, 5-line hierarchies (indentation 0..2) for children "
                 "and all-children replacement, 2 lines of 3 arbitrary characters; 6 listed pairs of expression and replacement text (literal, alternation, "
                 "character class, captured group, deletion of the text), exclude expression on and off, exactmatch, replacement text of 2 arbitrary characters",
        "thorough": "5 lines, 6-line hierarchies, 3 lines of 4 arbitrary characters",
    },
    "outside": "braces and banners, expressions other than the ones listed, replacement templates other than literals and \\1",
    "must_cover": ["replaced", "excluded", "emptied", "grandchild replaced"],
}


def tasks(tier):
    big = tier == "thorough"
    return [
        {"name": "lines", "op": "lines", "n": 4 if big else 3, "L": 2, "dom": " ab", "tail": "c"},
        {"name": "many", "op": "lines", "n": 5 if big else 4, "L": 1, "dom": " ab", "tail": "b"},
        {"name": "factory", "op": "lines", "n": 2, "L": 2, "dom": " ab", "tail": "c", "factory": True},
        {"name": "print", "op": "print", "n": 3 if big else 2, "L": 4 if big else 3, "dom": NOBRACE, "tail": ""},
        {"name": "obj", "op": "obj", "n": 3 if big else 2, "L": 2, "dom": " ab!", "tail": ""},
        {"name": "children", "op": "children", "n": 5 if big else 4, "L": 2, "dom": " a", "tail": "b"},
        {"name": "all", "op": "all", "n": 5 if big else 4, "L": 2, "dom": " a", "tail": "b"},
        {"name": "exclude", "op": "children", "n": 4 if big else 3, "L": 1, "dom": " c", "tail": "", "two": True},
        {"name": "exclude-all", "op": "all", "n": 4 if big else 3, "L": 1, "dom": " c", "tail": "", "two": True},
        {"name": "chain", "op": "all", "n": 5 if big else 4, "L": 2, "dom": " c", "tail": "", "chain": True},
    ]


PAIRS = [("a", "x"), ("b|a", " y"), ("[ab]c", "z"), ("^( *)a", "\\1no a"), ("aa.*$", ""), ("b", "bb")]


def repl(pair, text):
    """reference for re.sub with the listed expressions, written without regular expressions"""
    spec, new = pair
    if spec == "a":
        return text.replace("a", new)
    if spec == "b":
        return text.replace("b", new)
    return re.sub(spec, new, text)


def apply(cx, T, who, pair):
    """reference edit: (new configuration, returned texts); a line left blank is removed with its family"""
    par = ref_parents(T)
    gone = set()
    out = list(T)
    ret = []
    for i in who:
        if i in gone:
            # replacement in a line which is gone already changes nothing visible
            continue
        t = repl(pair, T[i])
        if t.strip() == "":
            cx.cover("emptied")
            gone.add(i)
            gone.update(desc_of(par, i))
        else:
            cx.cover("replaced")
            out[i] = t
            ret.append(t)
    return [out[k].rstrip() for k in range(len(out)) if k not in gone], [t.rstrip() for t in ret], len(gone) > 0


def verify(cx, p, ref, case):
    cx.check(cx.eq([x.rstrip() for x in p.ioscfg], ref), "the selected lines have the substituted text, all the others are unchanged and in order")
    cx.check(nums(p.objs) == list(range(len(ref))), "line numbers are positions")
    p.commit()
    q = CiscoConfParse(list(ref), factory=case.get("factory", False))
    cx.check(cx.eq(shape(p.objs), shape(q.objs)), "after commit the lines and the hierarchy are those of the edited text")


def harness(cx, case):
    op = case["op"]
    n = case["n"]
    lines = [cx.str("l%d" % i, case["L"], case["dom"]) + case["tail"] for i in range(n)]
    if case.get("two"):
        lines = ["" if i == 0 else lines[i] for i in range(n)]
        lines = [lines[i] + cx.str("t%d" % i, 2, "ab") for i in range(n)]
    if case.get("chain"):
        lines = [("", " ", "  ")[min(i, 2)] + cx.str("t%d" % i, 2, "ab") if i < n - 1 else lines[i] + "aab" for i in range(n)]
    p = CiscoConfParse(list(lines), factory=case.get("factory", False))
    T = [l.rstrip() for l in lines if l.strip() != ""]
    N = range(len(T))
    par = ref_parents(T)
    if op in ("lines", "print"):
        if op == "lines":
            pair = PAIRS[cx.choose("pair", 6)]
            excl = [None, "^a", " a"][cx.choose("excl", 3)]
            exact = excl is None and bool(cx.bool("exact"))
        else:
            pair = ("a", cx.str("new", 2, NOBRACE.replace("\\", "")))
            excl, exact = "^b", False
        who = []
        for i in N:
            m = re.search("^(?:" + pair[0] + ")$", T[i]) if exact else re.search(pair[0], T[i])
            if m:
                if excl is not None and re.search(excl, T[i]):
                    cx.cover("excluded")
                else:
                    who.append(i)
        ref, ret, removed = apply(cx, T, who, pair)
        atomic = op == "lines" and excl == "^a"
        r = p.replace_lines(pair[0], pair[1], excludespec=excl, exactmatch=exact, atomic=atomic)
        if not removed:
            cx.check(cx.eq([x.rstrip() for x in r], ret), "the changed texts are returned in order")
        verify(cx, p, ref, case)
    elif op == "obj":
        i = cx.choose("at", n)
        if i < len(T):
            pair = PAIRS[cx.choose("pair", 6)]
            ign = [None, "^a"][cx.choose("ign", 2)]
            o = p.objs[i]
            skip = ign is not None and re.search(ign, T[i]) is not None
            ref, ret, removed = apply(cx, T, [] if skip else [i], pair)
            if cx.bool("alias"):
                r = o.replace(pair[0], pair[1], ignore_rgx=ign)
            else:
                r = o.re_sub(pair[0], pair[1], ignore_rgx=ign)
            if skip:
                cx.cover("excluded")
                cx.check(cx.eq(r, T[i]), "an ignored line is returned unchanged")
            elif not removed:
                cx.check(cx.eq(r.rstrip(), ret[0]), "the new text is returned")
                cx.check(cx.eq(o.text, r), "the line carries the new text")
                cx.check(bool(o.is_comment) == is_comment(r, "!"), "is_comment follows the new text")
            verify(cx, p, ref, case)
    else:
        pair = [("a", "x"), ("a", "aa"), ("^( *)a", "\\1no a"), ("a.*$", "")][cx.choose("pair", 4)]
        pspec = ["a", "^b"][cx.choose("pspec", 2)]
        excl = [None, "^ *aa"][cx.choose("excl", 2)]
        who = []
        for i in N:
            if re.search(pspec, T[i]) and not (excl is not None and re.search(excl, T[i])):
                for k in (kids_of(par, i) if op == "children" else desc_of(par, i)):
                    if re.search(pair[0], T[k]):
                        if excl is not None and re.search(excl, T[k]):
                            cx.cover("excluded")
                        else:
                            if k not in who:
                                who.append(k)
                            if k not in kids_of(par, i):
                                cx.cover("grandchild replaced")
        ref, ret, removed = apply(cx, T, sorted(who), pair)
        if op == "children":
            r = p.replace_children(pspec, pair[0], pair[1], excludespec=excl)
        else:
            r = p.replace_all_children(pspec, pair[0], pair[1], excludespec=excl)
        verify(cx, p, ref, case)
