import re
from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "5- and 6-line hierarchies (indentation 0..2, ladders of up to five generations): deletion of every line with and without recursion, of the matching children of every line and by "
                 "expression (5 listed, exactmatch); two deletions in a row with or without a commit between; 4 lines with comments; 3 lines of 2 "
                 "arbitrary characters; factory on and off",
        "thorough": "7-line hierarchies, three deletions in a row",
    },
    "outside": "braces and banners, regular expressions other than the ones listed, deletion while other code inserts lines (C09 mixes both)",
    "must_cover": ["family removed", "nothing matched", "nested matches", "line kept its children"],
}


def tasks(tier):
    big = tier == "thorough"
    out = [
        {"name": "spec", "op": "spec", "n": 6 if big else 5, "L": 2, "dom": " a"},
        {"name": "comments", "op": "spec", "n": 4, "L": 2, "dom": " a!", "kinds": 2},
        {"name": "print", "op": "spec", "n": 3, "L": 2, "dom": NOBRACE, "kinds": 1},
        {"name": "factory", "op": "spec", "n": 3, "L": 2, "dom": " a", "factory": True},
        {"name": "nxos", "op": "spec", "n": 3, "L": 2, "dom": " a", "syntax": "nxos"},
        {"name": "obj", "op": "obj", "n": 6 if big else 5, "L": 2, "dom": " a"},
        {"name": "obj-factory", "op": "obj", "n": 3, "L": 2, "dom": " a", "factory": True},
        {"name": "matching", "op": "matching", "n": 5 if big else 4, "L": 2, "dom": " a"},
        # families of four and five generations
        {"name": "ladder-spec", "op": "spec", "n": 5, "L": 1, "dom": " a", "ind": [0, 1, 2, 3, 1]},
        {"name": "ladder-obj", "op": "obj", "n": 6, "L": 1, "dom": " a", "ind": [0, 1, 2, 3, 4, 1]},
        {"name": "ladder-matching", "op": "matching", "n": 5, "L": 1, "dom": " a", "ind": [0, 1, 2, 3, 2]},
        {"name": "chain", "op": "chain", "n": 4, "L": 2, "dom": " a", "steps": 3 if big else 2},
        {"name": "stale", "op": "stale", "n": 4, "L": 1, "dom": " a"},
    ]
    if big:
        out.append({"name": "wide", "op": "spec", "n": 7, "L": 2, "dom": " a", "kinds": 1})
    return out


def verify(cx, p, ref, case):
    objs = list(p.objs)
    cx.check(cx.eq([o.text for o in objs], ref), "exactly the selected lines are gone, the others keep their order")
    cx.check(cx.eq(list(p.ioscfg), ref), "ioscfg shows the edited configuration")
    cx.check(nums(objs) == list(range(len(ref))), "line numbers are positions after the deletion")
    p.commit()
    q = CiscoConfParse(list(ref), factory=case.get("factory", False), syntax=case.get("syntax", "ios"))
    cx.check(cx.eq(shape(p.objs), shape(q.objs)), "after commit the lines and the hierarchy are those of the edited text")


def keep(ref, gone):
    return [ref[i] for i in range(len(ref)) if i not in gone]


def harness(cx, case):
    op = case["op"]
    n = case["n"]
    ind = case.get("ind", [0] * 9)
    T = [" " * ind[i] + cx.str("l%d" % i, case["L"], case["dom"]) + "c" for i in range(n)]
    p = CiscoConfParse(list(T), factory=case.get("factory", False), syntax=case.get("syntax", "ios"))
    par = ref_parents(T)
    N = range(n)
    if op == "spec":
        spec, exact, ws = [("a", False, False), ("^ *a", False, False), ("^aac| ac", True, False), ("^aa|^ c", False, False), ("^c", False, False),
                           ("^   c", False, True)][cx.choose("kind", case.get("kinds", 6))]
        rx = re.sub(" +", r"\\s+", spec) if ws else spec
        gone = set()
        top = [i for i in N if (re.search("^(?:" + rx + ")$", T[i]) if exact else re.search(rx, T[i]))]
        for i in top:
            gone.add(i)
            gone.update(desc_of(par, i))
            if desc_of(par, i):
                cx.cover("family removed")
            if any(k in top for k in desc_of(par, i)):
                cx.cover("nested matches")
        if not gone:
            cx.cover("nothing matched")
        p.delete_lines(spec, exactmatch=exact, ignore_ws=ws)
        cx.observe(sorted(gone))
        verify(cx, p, keep(T, gone), case)
    elif op == "obj":
        i = cx.choose("at", n)
        rec = cx.bool("recurse")
        o = p.objs[i]
        if rec:
            o.delete()
            gone = [i] + desc_of(par, i)
        else:
            o.delete(recurse=False)
            gone = [i]
            if kids_of(par, i):
                cx.cover("line kept its children")
        verify(cx, p, keep(T, gone), case)
    elif op == "matching":
        i = cx.choose("at", n)
        hit = [k for k in kids_of(par, i) if "a" in T[k]]
        gone = set(hit)
        for k in hit:
            gone.update(desc_of(par, k))
        o = p.objs[i]
        objs = list(p.objs)
        r = o.delete_children_matching("a")
        cx.check([x for x in objs if any(x is y for y in r)] == [objs[k] for k in hit] and len(r) == len(hit), "the deleted children are returned")
        verify(cx, p, keep(T, gone), case)
    elif op == "chain":
        # several deletions of lines picked before any of them
        objs = list(p.objs)
        alive = list(N)
        for s in range(case["steps"]):
            i = cx.choose("d%d" % s, n)
            rec = s < case["steps"] - 1 or bool(cx.bool("r%d" % s))
            if i in alive:
                if rec:
                    d = desc_of(par, i)
                else:
                    d = []
                # the family is the one of the last parse
                objs[i].delete(recurse=rec)
                alive = [k for k in alive if k != i and k not in d]
            else:
                objs[i].delete(recurse=rec)
        verify(cx, p, [T[k] for k in alive], case)
    elif op == "stale":
        # an object found before a commit still refers to the same line
        i = cx.choose("at", n)
        o = p.objs[i]
        p.commit()
        o.delete()
        verify(cx, p, keep(T, [i] + desc_of(par, i)), case)
