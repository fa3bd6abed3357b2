import re
from ciscoconfparse import CiscoConfParse
from ciscoconfparse.errors import InvalidParameters
from props.common import *

META = {
    "bounds": {
        "quick": "3 lines with 2 and 5 lines with 1 symbolic character of a 3-letter alphabet for insertion by expression, insertion at every line of "
                 "5 lines, after children of 5-line hierarchies (indentation 0..2), at the end of families of 4-line hierarchies; appended, "
                 "prepended and indexed text of 2 arbitrary characters; factory on and off; two edits in a row with and without commit between",
        "thorough": "4 to 6 lines, three edits in a row, inserted text of 3 arbitrary characters",
    },
    "outside": "braces and banners in the configuration or the inserted text, longer configurations, regular expressions other than the ones listed",
    "must_cover": ["inserted", "not inserted", "several", "family"],
}


def tasks(tier):
    big = tier == "thorough"
    out = []
    for w in ("before", "after"):
        out.append({"name": "spec-" + w, "op": "spec", "w": w, "n": 4 if big else 3, "L": 2, "dom": " ab!" if big else " ab"})
        out.append({"name": "many-" + w, "op": "spec", "w": w, "n": 6 if big else 5, "L": 1, "dom": " ab", "kinds": 2})
        out.append({"name": "obj-" + w, "op": "obj", "w": w, "n": 6 if big else 5, "L": 1, "dom": " ac"})
        out.append({"name": "factory-" + w, "op": "spec", "w": w, "n": 3 if big else 2, "L": 2, "dom": " ab!", "factory": True})
        out.append({"name": "print-" + w, "op": "print", "w": w, "n": 3 if big else 2, "L": 2, "N": 3 if big else 2, "dom": NOBRACE})
    out.append({"name": "child", "op": "child", "n": 6 if big else 5, "L": 2, "dom": " a"})
    out.append({"name": "family", "op": "family", "n": 5 if big else 4, "L": 2, "dom": " a"})
    out.append({"name": "ends", "op": "ends", "n": 2, "L": 2, "dom": NOBRACE, "N": 3 if big else 2})
    out.append({"name": "ends-factory", "op": "ends", "n": 2, "L": 2, "dom": NOBRACE, "N": 2, "factory": True})
    out.append({"name": "blank", "op": "blank", "n": 2, "L": 2, "dom": " ab"})
    out.append({"name": "chain", "op": "chain", "n": 3, "L": 1, "dom": " ab", "steps": 3 if big else 2})
    return out


def match(spec, text, exact, ws):
    if ws:
        spec = re.sub(r"\s+", r"\\s+", spec)
    if exact:
        spec = "^(?:" + spec + ")$"
    return re.search(spec, text) is not None


def verify(cx, p, ref, factory, reparse=True):
    objs = list(p.objs)
    cx.check(cx.eq([o.text for o in objs], ref), "the configuration is the old lines in order with the new text exactly at the requested places")
    cx.check(cx.eq(list(p.ioscfg), ref), "ioscfg shows the edited configuration")
    cx.check(nums(objs) == list(range(len(ref))), "line numbers are positions after the edit")
    cx.check(len(set([id(o) for o in objs])) == len(objs), "every line is a separate object")
    if reparse:
        p.commit()
        q = CiscoConfParse(list(ref), factory=factory)
        cx.check(cx.eq(shape(p.objs), shape(q.objs)), "after commit the lines and the hierarchy are those of the edited text")


def put(ref, where, text):
    """reference: insert text in front of every position in where (positions of the list before)"""
    out = []
    for i in range(len(ref) + 1):
        if i in where:
            out.append(text)
        if i < len(ref):
            out.append(ref[i])
    return out


def harness(cx, case):
    op = case["op"]
    fac = case.get("factory", False)
    n = case["n"]
    lines = [cx.str("l%d" % i, case["L"], case["dom"]) + "c" for i in range(n)]
    p = CiscoConfParse(list(lines), factory=fac)
    T = list(lines)
    N = range(n)
    if op in ("spec", "print"):
        w = case["w"]
        if op == "spec":
            kind = cx.choose("kind", case.get("kinds", 6))
            spec, exact, ws, ind = [("a", False, False, -1), ("b|a", False, False, 1), ("^ a", False, False, 0),
                                    ("aac|a", True, False, -1), ("aa", True, False, 2), ("^  c", False, True, -1)][kind]
            new = "  x a"
        else:
            spec, exact, ws, ind = "a", False, False, -1
            new = cx.str("new", case["N"], NOBRACE) + "d"
        atomic = op == "spec" and kind in (1, 4)
        hits = [i for i in N if match(spec, T[i], exact, ws)]
        cx.observe(hits)
        cx.cover("inserted" if hits else "not inserted")
        if len(hits) > 1:
            cx.cover("several")
        txt = new if ind < 0 else " " * ind + new.lstrip()
        kw = dict(exactmatch=exact, ignore_ws=ws, atomic=atomic, new_val_indent=ind)
        if w == "before":
            r = p.insert_before(spec, new, **kw)
            ref = put(T, hits, txt)
        else:
            r = p.insert_after(spec, new, **kw)
            ref = put(T, [i + 1 for i in hits], txt)
        cx.check(cx.eq(list(r), [T[i] for i in hits]), "the texts of the lines referred to are returned")
        verify(cx, p, ref, fac)
    elif op == "obj":
        i = cx.choose("at", n)
        o = p.objs[i]
        cx.cover("inserted")
        if case["w"] == "before":
            o.insert_before("ax")
            verify(cx, p, put(T, [i], "ax"), fac)
        else:
            o.insert_after("ax")
            verify(cx, p, put(T, [i + 1], "ax"), fac)
    elif op == "child":
        par = ref_parents(T)
        excl = cx.choose("excl", 2)
        atomic = excl == 0
        where = []
        for i in N:
            if "a" in T[i]:
                for k in kids_of(par, i):
                    if "a" in T[k] and not (excl and (re.search("^aa", T[i]) or re.search("^aa", T[k]))):
                        where.append(k + 1)
        p.insert_after_child("a", "a", " new", excludespec="^aa" if excl else None, atomic=atomic)
        verify(cx, p, put(T, where, " new"), fac)
    elif op == "family":
        par = ref_parents(T)
        i = cx.choose("at", n)
        mode = cx.choose("mode", 4)
        end = ([i] + desc_of(par, i))[-1]
        if end > i:
            cx.cover("family")
        ind = indent_of(T[i])
        new, kw = [("  new", {}), ("new", {"indent": 2}), (" new", {"auto_indent": True}),
                   ("   new", {"auto_indent": True, "auto_indent_width": 3})][mode]
        txt = ["  new", " " * (ind + 2) + "new", " " * (ind + 1) + "new", " " * (ind + 3) + "new"][mode]
        p.objs[i].append_to_family(new, **kw)
        verify(cx, p, put(T, [end + 1], txt), fac)
    elif op == "ends":
        new = cx.str("new", case["N"], NOBRACE) + "d"
        how = cx.choose("how", 4)
        if how == 0:
            o = p.append_line(new)
            ref = T + [new]
            cx.check(o is p.objs[-1], "append_line returns the new last line")
        elif how == 1:
            o = p.prepend_line(new)
            ref = [new] + T
            cx.check(o is p.objs[0], "prepend_line returns the new first line")
        elif how == 2:
            at = cx.choose("at", n + 1)
            p.ConfigObjs.insert(at, new)
            ref = put(T, [at], new)
        else:
            p.ConfigObjs.insert_after(p.objs[0], new)
            ref = put(T, [1], new)
        verify(cx, p, ref, fac)
    elif op == "blank":
        how = cx.choose("how", 4)
        new = " " * how
        q = CiscoConfParse(list(lines), ignore_blank_lines=True)
        raised = 0
        for f in (lambda: q.append_line(new), lambda: q.ConfigObjs.insert_before("c", new), lambda: q.ConfigObjs.insert_after("c", new)):
            try:
                f()
            except InvalidParameters:
                raised = raised + 1
        cx.check(raised == 3, "a blank line is refused while blank lines are being ignored")
        cx.check(cx.eq(list(q.ioscfg), T), "a refused insertion changes nothing")
    elif op == "chain":
        ref = T
        for s in range(case["steps"]):
            k = cx.choose("k%d" % s, 4)
            cm = s == 0 and cx.bool("commit")
            if k == 0:
                p.insert_before("a", "ab%d" % s)
                ref = put(ref, [i for i in range(len(ref)) if "a" in ref[i]], "ab%d" % s)
            elif k == 1:
                p.insert_after("b", " ab%d" % s)
                ref = put(ref, [i + 1 for i in range(len(ref)) if "b" in ref[i]], " ab%d" % s)
            elif k == 2:
                p.objs[-1].insert_before("!b")
                ref = put(ref, [len(ref) - 1], "!b")
            else:
                p.objs[1].delete(recurse=False)
                ref = ref[:1] + ref[2:]
            if cm:
                p.commit()
        verify(cx, p, ref, fac)
