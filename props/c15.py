from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ccp_util import fix_repeated_words
from props.common import *
import re

META = {
    "bounds": {
        "quick": "configurations and required configurations of 1 to 3 lines (11 pairs of shapes up to depth 2), lines a symbolic choice of words, with or without 'no' on lines without children; "
                 "4 linespecs; list and CiscoConfParse-independent application of the commands; removal of repeated 'no' in commands of up to 6 symbolic characters",
        "thorough": "17 pairs of shapes of up to 4 lines",
    },
    "outside": "comments, banners, order among siblings, a line and its 'no' form required together, uncfgspecs which do not match the line to remove, brace syntax",
    "assumptions": ["a device applies a command below the preceding less indented command, 'no X' removes X with everything below it, X removes 'no X'"],
    "must_cover": ["removal", "addition", "removal below a kept parent"],
}

SHAPES = [
    ((0,), (0,)), ((0, 0), (0,)), ((0,), (0, 0)), ((0, 0), (0, 0)), ((0, 1), (0,)), ((0, 1), (0, 1)), ((0, 1, 1), (0, 1)), ((0, 1), (0, 1, 1)), ((0, 0, 1), (0, 1)), ((0, 1, 0), (0, 0, 1)),
    ((0, 1, 2), (0, 1)),
]
MORE = [((0, 1, 2), (0, 1, 2)), ((0, 1, 0, 1), (0, 1)), ((0, 1), (0, 1, 0, 1)), ((0, 1, 2), (0, 1, 1, 2)), ((0, 1, 1), (0, 1, 1)), ((0, 0, 1, 1), (0, 0, 1))]
SPECS = [r".*", r"xa", r"^\s+x", r"^(?:no )?x"]


def tasks(tier):
    out = []
    for k, (b, a) in enumerate(SHAPES + (MORE if tier == "thorough" else [])):
        for m in range(len(SPECS)):
            if tier == "thorough" or m == 0 or (k + m) % 2 == 0:
                out.append({"name": "%s>%s:%d" % ("".join(map(str, b)), "".join(map(str, a)), m), "mode": "apply", "b": b, "a": a, "spec": m})
    out.append({"name": "no-no", "mode": "nono", "n": 6})
    out.append({"name": "part", "mode": "part"})
    return out


def text(cx, name, shape, i):
    ind = shape[i]
    leaf = i + 1 == len(shape) or shape[i + 1] <= ind
    t = "x" + cx.str(name, 1, "ab")
    if leaf and cx.bool(name + "n"):
        t = "no " + t
    return " " * ind + t


def paths(texts):
    par = ref_parents(texts)
    return [[texts[j] for j in anc_of(par, i)] + [texts[i]] for i in range(len(texts))]


def member(p, ps):
    for q in ps:
        if len(p) == len(q) and all([x == y for x, y in zip(p, q)]):
            return True
    return False


def prefix(p, q):
    return len(p) <= len(q) and all([x == y for x, y in zip(p, q)])


def negate(t):
    n = indent_of(t)
    if t[n:n + 3] == "no ":
        return t[0:n] + t[n + 3:]
    return t[0:n] + "no " + t[n:]


def apply(cmds, state):
    ctx = []
    for c in cmds:
        while ctx and indent_of(ctx[-1]) >= indent_of(c):
            ctx.pop()
        here = list(ctx)
        neg = here + [negate(c)]
        state = [p for p in state if not prefix(neg, p)]
        for k in range(1, len(here) + 1):
            if not member(here[0:k], state):
                state.append(here[0:k])
        if not member(here + [c], state):
            state.append(here + [c])
        ctx.append(c)
    return state


def harness(cx, case):
    if case["mode"] == "nono":
        t = cx.str("t", case["n"], "no a")
        cx.assume(t != "")
        got = fix_repeated_words(t, "no")
        n = indent_of(t)
        words = t.split()
        k = 0
        while k + 2 < len(words) and words[k] == "no" and words[k + 1] == "no":
            k += 2
        if k > 0 and len(" ".join(words[k:])) > 1:
            cx.check(got.split() == words[k:], "pairs of 'no' in front of a command cancel out")
            cx.check(indent_of(got) == n, "and the indentation is kept")
        elif k == 0 and (len(words) < 2 or words[0] != "no" or words[1] != "no"):
            cx.check(got == t, "a command without repeated 'no' is unchanged")
        return
    if case["mode"] == "part":
        # only the matched portion is negated
        a = cx.str("a", 2, "ab1")
        b = cx.str("b", 2, "ab1.")
        p = CiscoConfParse(["int 1", " ip " + a + " " + b, "ntp " + a], syntax="ios")
        got = p.sync_diff(["int 1"], r"^ ip|^ntp", r"(?:ip|ntp) \w+")
        cx.observe(got)
        cx.check(got == ["int 1", " no ip " + a, "no ntp " + a], "the portion matching uncfgspec is negated, below its parent")
        got = p.sync_diff(["int 1"], r"^ ip|^ntp", r"(?:ip|ntp) \w+", remove_lines=False)
        cx.check(got == [], "nothing is removed when remove_lines is off")
        return
    before = [text(cx, "b%d" % i, case["b"], i) for i in range(len(case["b"]))]
    after = [text(cx, "a%d" % i, case["a"], i) for i in range(len(case["a"]))]
    A = paths(after)
    B = paths(before)
    for ps in (A, B):
        for i in range(len(ps)):
            for j in range(i):
                cx.assume(not member(ps[i][0:-1] + [negate(ps[i][-1])], [ps[j]]))
    spec = SPECS[case["spec"]]
    p = CiscoConfParse(before, syntax="ios")
    cmds = p.sync_diff(after, spec, r"\S.*")
    cx.observe(cmds)
    cx.check(p.ioscfg == before, "the configuration is not changed")
    final = apply(cmds, B)
    if len(cmds) > 0:
        if member(B[0], A):
            cx.cover("removal" if len(before) > len(after) else "addition")
    for q in B + A:
        if not re.search(spec, q[-1]):
            continue
        want = member(q, A)
        cx.check(member(q, final) == want, "after applying the commands a line matching linespec is there exactly when it is required")
        if not want and len(q) > 1 and member(q[0:-1], A):
            cx.cover("removal below a kept parent")
