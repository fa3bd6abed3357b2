"""Shared reference semantics for harnesses (instrumented with them)."""

PRINT = "".join(chr(i) for i in range(32, 127))
NOBRACE = "".join(c for c in PRINT if c not in "{}")
NOBRACE_TAB = NOBRACE + "\t"
ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
WORD = ALNUM + "_-./:"
DIGITS = "0123456789"
NOSPACE = PRINT.replace(" ", "")


def indent_of(text):
    n = 0
    for ch in text:
        if ch.isspace():
            n += 1
        else:
            break
    return n


def is_comment(text, delims):
    s = text.lstrip()
    return len(s) > 0 and s[0] in delims


def is_blank(text):
    return text.strip() == ""


def ref_parents(texts, delims="!"):
    """reference hierarchy: index of the parent of every line (itself when it has none)"""
    ind = [indent_of(t) for t in texts]
    com = [is_comment(t, delims) for t in texts]
    out = []
    for i in range(len(texts)):
        p = i
        if ind[i] > 0 and not (com[i] and i > 0 and ind[i - 1] > ind[i]):
            for j in range(i - 1, -1, -1):
                if not com[j] and not is_blank(texts[j]) and ind[j] < ind[i]:
                    p = j
                    break
        out.append(p)
    return out


def check_tree(cx, objs, what):
    """parent / children of the parsed objects are mutually consistent"""
    objs = list(objs)
    for i, o in enumerate(objs):
        cx.check(o.linenum == i, what + ": line number equals position")
        kids = [k for k in range(len(objs)) if objs[k].parent is o and objs[k] is not o]
        got = [c.linenum for c in o.children]
        cx.check(got == kids, what + ": children list = the lines whose parent is this line, in order")


def shape(objs):
    """(text, parent position, children positions) of every line"""
    objs = list(objs)
    out = []
    for o in objs:
        out.append([o.text, o.parent.linenum, [c.linenum for c in o.children]])
    return out


def lines_from(cx, spec):
    """spec: list of str (literal) or ('name', length, domain) pieces lists"""
    out = []
    for k, s in enumerate(spec):
        if isinstance(s, str):
            out.append(s)
        else:
            t = ""
            for m, piece in enumerate(s):
                if isinstance(piece, str):
                    t = t + piece
                else:
                    n, dom = piece
                    t = t + cx.str("l%d_%d" % (k, m), n, dom)
            out.append(t)
    return out


def kids_of(par, i):
    return [k for k in range(len(par)) if par[k] == i and k != i]


def desc_of(par, i):
    out = []
    for k in range(len(par)):
        j = k
        while par[j] != j:
            j = par[j]
            if j == i:
                out.append(k)
                break
    return out


def anc_of(par, i):
    out = []
    while par[i] != i:
        i = par[i]
        out.append(i)
    return sorted(out)


def nums(objs):
    return [o.linenum for o in objs]
