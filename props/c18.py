import pathlib
from ciscoconfparse import CiscoConfParse, Diff
from props.common import *

META = {
    "bounds": {
        "quick": "files of up to 2 lines of 0-2 symbolic printable characters or 3 lines over blank, ! and a, every choice of empty lines, of \\n or \\r\\n at each line end and of a last line with or without line end; path as text or "
                 "pathlib.Path; ios, nxos and iosxr, factory on and off, blank lines kept or dropped; banners; save_as after parsing and after one inserted line, "
                 "written and read back; a junos file; Diff of files of 3 lines",
        "thorough": "4 lines",
    },
    "outside": "other encodings than ASCII, unreadable files, lone carriage returns",
    "assumptions": ["the file system stores what is written; files are replaced by in-memory text in the symbolic run, real scratch files in replays"],
    "must_cover": ["crlf", "no final newline", "empty line", "empty file", "missing file"],
}


def tasks(tier):
    big = tier == "thorough"
    out = []
    for syn in ("ios", "nxos", "iosxr"):
        for fac in (False, True):
            for blank in (True, False):
                out.append({"name": "read-%s-%d-%d" % (syn, fac, blank), "mode": "read", "syntax": syn, "factory": fac, "blank": blank, "n": (4 if big else 3) if syn == "ios" and not fac else 2})
    for fac in (False, True):
        out.append({"name": "save-%d" % fac, "mode": "save", "factory": fac, "n": 3 if big or fac == False else 2})
    out.append({"name": "banner", "mode": "banner", "n": 3 if big else 2})
    out.append({"name": "diff", "mode": "diff"})
    out.append({"name": "junos", "mode": "junos"})
    out.append({"name": "missing", "mode": "missing"})
    return out


def lines_of(cx, n, dom, name="l"):
    return [cx.str("%s%d" % (name, i), [2, 2, 3, 1][i], dom) for i in range(n)]


def file_text(cx, case, lines):
    """-> (text of the file, its lines)"""
    out = []
    text = ""
    count = cx.choose("count", case["n"] + 1)
    last = cx.bool("lastnl")
    crlf = 2 - cx.choose("crlf", 3 if case["n"] < 3 else 2)
    for i in range(count):
        empty = i != 1 and cx.bool("e%d" % i)
        t = "" if empty else lines[i]
        if empty:
            cx.cover("empty line")
        out.append(t)
        text += t
        if i < count - 1 or last:
            if crlf == 1 or (crlf == 2 and i % 2 == 1):
                cx.cover("crlf")
                text += "\r\n"
            else:
                text += "\n"
        else:
            cx.cover("no final newline")
    if count > 0 and not last and len(out[-1]) == 0:
        # an empty last line without a line end is not there at all
        out = out[0:-1]
    if text == "":
        cx.cover("empty file")
    return text, out


def same(cx, a, b, what):
    cx.check(cx.eq(shape(a.objs), shape(b.objs)), what)


def harness(cx, case):
    mode = case["mode"]
    if mode == "read":
        lines = lines_of(cx, case["n"], NOBRACE if case["n"] < 3 else " !a")
        text, out = file_text(cx, case, lines)
        path = cx.mkfile("a.cfg", text)
        arg = pathlib.Path(path) if case["n"] < 3 and cx.bool("path") else path
        p = CiscoConfParse(arg, syntax=case["syntax"], factory=case["factory"], ignore_blank_lines=case["blank"])
        q = CiscoConfParse(out, syntax=case["syntax"], factory=case["factory"], ignore_blank_lines=case["blank"])
        cx.observe(p.ioscfg)
        cx.check(len(p.ioscfg) == len(q.ioscfg), "a file has as many lines as its text")
        same(cx, p, q, "a file parses like the list of its lines")
        cx.check(cx.readfile(path) == text, "reading leaves the file alone")
    elif mode == "save":
        lines = lines_of(cx, case["n"], NOBRACE if case["n"] < 3 else " !a")
        blank = cx.bool("blank")
        p = CiscoConfParse(lines, factory=case["factory"], ignore_blank_lines=blank)
        if cx.bool("edit"):
            p.append_line(" new line")
        want = p.ioscfg
        path = cx.path("b.cfg")
        if cx.bool("exists"):
            cx.mkfile("b.cfg", "old text\nmore\nof\nit\n")
        cx.check(p.save_as(path) == True, "save_as returns True")
        text = ""
        for t in want:
            text += t + "\n"
        cx.check(cx.readfile(path) == text, "the file has exactly the lines of the configuration, each with a line end")
        cx.check(cx.eq(p.ioscfg, want), "saving leaves the configuration alone")
        q = CiscoConfParse(path, factory=case["factory"], ignore_blank_lines=blank)
        cx.check(cx.eq(q.ioscfg, want), "reading the saved file gives the same lines")
        p.commit()
        same(cx, q, p, "reading the saved file gives the same hierarchy")
    elif mode == "banner":
        lines = ["banner motd ^", "", "x" + cx.str("a", 1, NOBRACE)]
        lines += [cx.str("b%d" % i, 2, NOBRACE) for i in range(case["n"])]
        lines += ["^", "", "hostname a"]
        path = cx.mkfile("c.cfg", "\n".join(lines) + "\n")
        fac = cx.bool("factory")
        blank = cx.bool("blank")
        p = CiscoConfParse(path, factory=fac, ignore_blank_lines=blank)
        q = CiscoConfParse(lines, factory=fac, ignore_blank_lines=blank)
        cx.observe(p.ioscfg)
        same(cx, p, q, "a file with a banner parses like the list of its lines")
    elif mode == "junos":
        lines = ["system {", "    host-name " + cx.str("a", 2, ALNUM) + ";", "    x {", "        y " + cx.str("b", 1, ALNUM) + ";", "    }", "}"]
        nl = ["\n", "\r\n"][cx.choose("nl", 2)]
        path = cx.mkfile("j.cfg", nl.join(lines) + ["", nl][cx.choose("last", 2)])
        p = CiscoConfParse(path, syntax="junos")
        q = CiscoConfParse(lines, syntax="junos")
        cx.observe(p.ioscfg)
        same(cx, p, q, "a junos file parses like the list of its lines")
    elif mode == "diff":
        a = ["hostname " + cx.str("a", 1, "ab"), "interface " + cx.str("b", 1, "ab"), " shutdown"]
        b = ["hostname a", "interface " + cx.str("c", 1, "ab"), " mtu " + cx.str("d", 1, "12")]
        pa = cx.mkfile("old.cfg", "\n".join(a) + "\n")
        pb = cx.mkfile("new.cfg", "\n".join(b) + "\n")
        x = Diff(old_config=pa, new_config=pb)
        y = Diff(old_config=a, new_config=b)
        cx.observe(x.diff())
        cx.check(cx.eq(x.diff(), y.diff()), "the difference of two files is that of their lines")
        cx.check(cx.eq(x.rollback(), y.rollback()), "the rollback of two files is that of their lines")
    else:
        cx.cover("missing file")
        k = 0
        try:
            CiscoConfParse(cx.path("none.cfg"), syntax=["ios", "nxos", "junos"][cx.choose("s", 3)])
        except FileNotFoundError:
            k = 1
        cx.check(k == 1, "a file which does not exist raises FileNotFoundError")
