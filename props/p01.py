from ciscoconfparse.ciscoconfparse import CiscoPassword
from props.common import *

META = {
    "bounds": {
        "quick": "type 7 strings of every salt 00 to 99 and of 1 to 3 encrypted characters, and of 10, 25, 53 and 60 encrypted characters of which the first, one in the middle and the last are symbolic, every pair of hexadecimal digits in either case "
                 "whose plain character is 7-bit; passed to the constructor or to decrypt() (one of the two, depending on the length); texts of 0 to 7 symbolic characters which are no type 7 string",
        "thorough": "strings of up to 5 encrypted symbolic characters",
    },
    "outside": "plain characters beyond 7 bits",
    "assumptions": ["the type 7 key is the published 53-character one"],
    "must_cover": ["decrypted", "not encrypted", "wrapped", "lower", "upper"],
}
KEY = "dsfd;kfoA,.iyewrkldJKDHSUBsgvca69834ncxv9873254k;fg87"
assert len(KEY) == 53
HEX = "0123456789abcdefABCDEF"


def tasks(tier):
    out = []
    for n in (1, 2, 3) + ((4, 5) if tier == "thorough" else ()):
        for lo in range(0, 100, 25):
            out.append({"name": "all.%d.%d" % (n, lo), "n": n, "lo": lo, "pos": list(range(n))})
    for n in (10, 25, 53, 60):
        for lo in range(0, 100, 25):
            out.append({"name": "long.%d.%d" % (n, lo), "n": n, "lo": lo, "pos": [0, n // 2, n - 1]})
    for n in range(0, 8):
        out.append({"name": "plain.%d" % n, "plain": n})
    return out


def call(cx, text):
    return CiscoPassword(text).decrypt() if len(text) % 4 < 2 else CiscoPassword().decrypt(text)


def hexval(cx, c):
    o = ord(c)
    return cx.ite(o <= 57, o - 48, cx.ite(o <= 70, o - 55, o - 87))


def harness(cx, case):
    if "plain" in case:
        n = case["plain"]
        t = cx.str("t", n, "azAZ059 !")
        if n >= 4 and n % 2 == 0:
            # no two leading digits
            cx.assume(not (t[0].isdigit() and t[1].isdigit()))
            cx.assume(not (t[0] == " " and t[1].isdigit()) and not (t[1] == " " and t[0].isdigit()))
        cx.cover("not encrypted")
        cx.check(call(cx, t) == "", "a text which is no type 7 string gives ''")
        return
    n = case["n"]
    salt = case["lo"] + cx.choose("salt", 25)
    digits = HEX[:16] if case["n"] % 2 else HEX[:10] + HEX[16:]
    cx.cover("lower" if case["n"] % 2 else "upper")
    e = []
    want = []
    for i in range(n):
        k = ord(KEY[(salt + i) % 53])
        if i in case["pos"]:
            c = cx.str("c%d" % i, 2, digits)
            v = hexval(cx, c[0]) * 16 + hexval(cx, c[1])
            w = v ^ k
            cx.assume(w < 128)
            e.append(c)
            want.append(w)
        else:
            p = 32 + (i * 7) % 90
            e.append("%02X" % (p ^ k))
            want.append(p)
    text = "%02d" % salt
    for c in e:
        text = text + c
    got = call(cx, text)
    cx.observe(got)
    cx.check(len(got) == n, "one character per pair of digits")
    cx.check(cx.all([ord(got[i]) == want[i] for i in range(n)]), "decrypt() gives the password which was encrypted")
    cx.cover("decrypted")
    if salt + n > 53:
        cx.cover("wrapped")
