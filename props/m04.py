from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "interface lines with 17 interface kinds or a kind of 1-2 symbolic letters / hyphens, 1-3 slashed numbers, optional subinterface and optional trailing word, with and without "
                 "a blank before the number; one number of 1-2 symbolic digits, the others of one symbolic digit; abbreviations with a symbolic cut; 'interface ' prefixes of 12 symbolic "
                 "characters for the classification",
        "thorough": "kinds of 3 symbolic letters, numbers of 2-3 symbolic digits",
    },
    "outside": "channel (':') parts, 'interface range', interface kinds containing digits",
    "assumptions": ["interface commands start in column one with 'interface' and one blank"],
    "must_cover": ["subinterface", "trailing word", "ethernet"],
}

KINDS = ["Ethernet", "FastEthernet", "GigabitEthernet", "TenGigabitEthernet", "Loopback", "loopback", "Vlan", "Tunnel", "Dialer", "Virtual-Template", "Port-channel", "Port-Channel",
         "Serial", "ATM", "Null", "BVI", "Multilink"]
LET = ALNUM[0:52] + "-"


def tasks(tier):
    big = tier == "thorough"
    out = []
    for n in (1, 2, 3):
        for sub in (False, True):
            out.append({"name": "kinds-%d%s" % (n, "-sub" if sub else ""), "mode": "kind", "n": n, "sub": sub, "L": 2 if big else 1, "sym": 0})
    for sym in ((1, 2, 3) if big else (1, 2)):
        out.append({"name": "letters-%d" % sym, "mode": "kind", "n": 2, "sub": True, "L": 1, "sym": sym})
    out.append({"name": "abbv", "mode": "abbv", "L": 2 if big else 1})
    out.append({"name": "line", "mode": "line", "n": 4 if big else 3})
    return out


def harness(cx, case):
    mode = case["mode"]
    if mode == "line":
        k = cx.choose("shape", 4)
        t = cx.str("t", case["n"], " aLi./1")
        text = ["interface" + t, t + "interface x", "interface x" + t, " interface" + t][k]
        p = CiscoConfParse([text], syntax="ios", factory=False)
        if len(list(p.objs)) == 0:
            return
        o = list(p.objs)[0]
        s = o.text
        cx.check(o.is_intf == (s.startswith("interface ") and s[10] != " "), "is_intf: the line is an interface command")
        return
    if mode == "abbv":
        kind = KINDS[cx.choose("kind", 4) * 3]
        num = cx.str("num", case["L"], DIGITS) + "/1"
        sub = cx.bool("sub")
        if sub:
            num += ".2"
        p = CiscoConfParse(["interface " + kind + num], syntax="ios", factory=True)
        o = list(p.objs)[0]
        cut = cx.int("cut", 0, len(kind))
        a = kind.lower()[0:cut]
        n2 = cx.str("n2", case["L"], DIGITS) + "/1" + (".2" if cx.bool("sub2") else "")
        gap = ["", " ", "  "][cx.choose("gap", 3)]
        if cx.bool("upper"):
            a = a.upper()
        want = cut > 0 and n2 == num and gap != "  "
        cx.check(o.is_abbreviated_as(a + gap + n2) == want, "abbreviations are a prefix of the kind, optionally a blank, and the whole number")
        cx.check(o.is_abbreviated_as("x" + a + gap + n2) == False, "an abbreviation is a prefix of the kind")
        return
    if case["sym"]:
        kind = cx.str("kind", case["sym"], LET)
    else:
        kind = KINDS[cx.choose("kind", len(KINDS))]
    n = case["n"]
    L = case["L"]
    nums = []
    for i in range(n):
        d = cx.str("n%d" % i, L + 1 if i == n - 1 else L, DIGITS)
        nums.append(d)
    number = nums[0]
    for d in nums[1:]:
        number += "/" + d
    sub = ""
    if case["sub"]:
        sub = ["", "409", "10000000"][cx.choose("sublen", 3)] + cx.str("sub", L, DIGITS)
        cx.cover("subinterface")
    full = number + ("." + sub if case["sub"] else "")
    blank = ["", " "][cx.choose("blank", 2)]
    tail = ["", " point-to-point", " multipoint"][cx.choose("tail", 3)]
    if tail != "":
        cx.cover("trailing word")
    name = kind + blank + full + tail
    p = CiscoConfParse(["hostname x", "interface " + name, " ip address 1.1.1.1 255.255.255.0"], syntax="ios", factory=True)
    o = list(p.objs)[1]
    cx.check(o.classname == "IOSIntfLine", "an interface is an IOSIntfLine")
    cx.check(o.is_intf == True, "is_intf")
    cx.check(list(p.objs)[0].is_intf == False and list(p.objs)[2].is_intf == False, "other lines are no interfaces")
    cx.check(o.name == name, "name is the text after 'interface'")
    cx.check(o.port_type == kind, "port_type is the kind")
    cx.check(o.interface_number == number, "interface_number is the number without subinterface")
    cx.check(o.subinterface_number == full, "subinterface_number is the number with subinterface")
    cx.check(o.is_subintf == case["sub"], "is_subintf")
    low = kind.lower()
    eth = low.endswith("ethernet") and not case["sym"]
    if eth:
        cx.cover("ethernet")
    cx.check(o.is_ethernet_intf == eth, "is_ethernet_intf")
    cx.check(o.is_loopback_intf == (low == "loopback"), "is_loopback_intf")
    cx.check(o.is_virtual_intf == (low in ("loopback", "vlan", "tunnel", "dialer", "virtual-template", "port-channel")), "is_virtual_intf")
    cx.check(o.is_portchannel_intf == (low == "port-channel"), "is_portchannel_intf")
    cx.check(o.port == int(nums[-1]), "port is the last number")
    want = [int(nums[0]) if n > 1 else -1, int(nums[1]) if n == 3 else -1, int(nums[-1]), int(sub) if case["sub"] else -1, -1, -1]
    cx.check(list(o.ordinal_list) == want, "ordinal_list is slot, card, port, subinterface")
    cx.check(o.build_reset_string() == "default interface " + name, "build_reset_string")
