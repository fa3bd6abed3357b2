from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "one interface with every ordered pair of lines out of 18 layer-2 kinds (with and without a leading 'switchport', and a blank line kept), VLAN / channel numbers of 1-2 symbolic digits, "
                 "encapsulation words of 2 symbolic characters, followed by a second interface; allowed-VLAN lists: base line (absent, none, all, list or range) plus add / except / remove lines "
                 "with a symbolic digit in one of the numbers",
        "thorough": "triples of lines; two add lines, two symbolic digits",
    },
    "outside": "the order 'remove' before 'add' of the same VLAN, several base lines, 'switchport' commands in upper case, nested lines below an interface",
    "assumptions": ["VLAN lists are valid"],
    "must_cover": ["not a switchport", "dtp", "trunk list"],
}

KIND = ["switchport", "access", "trunk", "avlan", "nvlan", "encap", "noneg", "psec", "psecopt", "storm", "no switchport", "description", "voice", "blank", "channel", "mtu", "private", "no psec"]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for k in range(len(KIND)):
        out.append({"name": "l2-" + KIND[k], "mode": "l2", "first": k, "n": 3 if big else 2})
    for base in ("", "none", "all", "list", "range"):
        out.append({"name": "trunk-" + (base or "absent"), "mode": "trunk", "base": base, "adds": 2 if big else 1, "L": 2 if big else 1})
    for base in ("none", "list", "range"):
        out.append({"name": "trunk-adds-" + base, "mode": "trunk", "base": base, "adds": 3 if big else 2, "L": 2 if big else 1, "only": True})
    out.append({"name": "trunk-order", "mode": "order"})
    return out


def number(cx, name, n):
    t = cx.str(name, n, DIGITS)
    cx.assume(t[0] != "0")
    return t


def harness(cx, case):
    mode = case["mode"]
    if mode == "l2":
        lines = ["interface Gi1/1"]
        sw = acc = trk = noneg = psec = storm = False
        avlan = nvlan = None
        encap = ""
        chan = 0
        if cx.bool("sw"):
            lines.append(" switchport")
            sw = True
        for i in range(case["n"]):
            k = case["first"] if i == 0 else cx.choose("k%d" % i, len(KIND))
            kind = KIND[k]
            w = "%d" % i
            t = ""
            if kind == "switchport":
                t = "switchport"
            elif kind == "access":
                t = "switchport mode access"
                acc = True
            elif kind == "trunk":
                t = "switchport mode trunk"
                trk = True
            elif kind == "avlan":
                v = number(cx, "v" + w, 1 + i % 2)
                t = "switchport access vlan " + v
                if avlan is None:
                    avlan = v
            elif kind == "nvlan":
                v = number(cx, "v" + w, 1 + i % 2)
                t = "switchport trunk native vlan " + v
                if nvlan is None:
                    nvlan = v
            elif kind == "encap":
                v = cx.str("v" + w, 2, ALNUM)
                t = "switchport trunk encapsulation " + v
                if encap == "":
                    encap = v
            elif kind == "noneg":
                t = "switchport nonegotiate"
                noneg = True
            elif kind == "psec":
                t = "switchport port-security"
                psec = True
            elif kind == "psecopt":
                t = "switchport port-security maximum " + number(cx, "v" + w, 1)
            elif kind == "storm":
                t = "storm-control broadcast level " + number(cx, "v" + w, 1)
                storm = True
            elif kind == "no switchport":
                t = "no switchport"
                if cx.bool("x" + w):
                    t += " " + ["nonegotiate", "mode access", "access vlan 5"][i]
            elif kind == "description":
                t = "description switchport " + ["mode access", "mode trunk", "nonegotiate"][cx.choose("d" + w, 3)] + cx.str("v" + w, 1, " a")
            elif kind == "voice":
                t = "switchport voice vlan " + number(cx, "v" + w, 1)
            elif kind == "blank":
                t = ""
            elif kind == "channel":
                v = number(cx, "v" + w, 1 + i % 2)
                t = "channel-group " + v + " mode " + ["active", "on", "passive"][i]
                if chan == 0:
                    chan = int(v)
            elif kind == "mtu":
                t = "mtu 9000"
            elif kind == "private":
                t = "switchport private-vlan host-association 5 " + number(cx, "v" + w, 1)
            elif kind == "no psec":
                t = "no switchport port-security"
            if t.startswith("switchport"):
                sw = True
            lines.append(" " + t)
        lines += ["interface Gi1/2", " switchport mode access", " switchport nonegotiate", " switchport port-security", " storm-control x", " switchport access vlan 99"]
        lines += [" switchport trunk native vlan 98", " channel-group 97 mode on", " switchport trunk encapsulation zz"]
        p = CiscoConfParse(lines, syntax="ios", factory=True, ignore_blank_lines=False)
        o = list(p.objs)[0]
        if not sw:
            cx.cover("not a switchport")
        if noneg:
            cx.cover("dtp")
        cx.check(o.is_switchport == sw, "is_switchport: a switchport command is present")
        cx.check(o.has_manual_switch_access == acc, "has_manual_switch_access")
        cx.check(o.has_manual_switch_trunk == trk, "has_manual_switch_trunk")
        cx.check(o.access_vlan == (int(avlan) if avlan is not None else 1 if sw else 0), "access_vlan")
        cx.check(o.native_vlan == (int(nvlan) if nvlan is not None else 1 if sw else 0), "native_vlan")
        cx.check(o.manual_switch_trunk_encap == encap, "manual_switch_trunk_encap")
        cx.check(o.has_manual_switch_trunk_encap == (encap != ""), "has_manual_switch_trunk_encap")
        cx.check(o.has_switch_portsecurity == psec, "has_switch_portsecurity: only a plain 'switchport port-security' enables it")
        cx.check(o.has_switch_stormcontrol == (storm and sw), "has_switch_stormcontrol")
        cx.check(o.has_dtp == (sw and not noneg), "has_dtp: a switchport negotiates unless 'switchport nonegotiate'")
        cx.check(o.intf_in_portchannel == (chan != 0), "intf_in_portchannel")
        cx.check(o.portchannel_number == (chan if chan != 0 else -1), "portchannel_number")
        return
    lines = ["interface Gi1/1", " switchport mode trunk"]
    cx.cover("trunk list")
    if mode == "order":
        # base line, native vlan and descriptions in every order; access ports and routed ports have no list
        v = number(cx, "v", 2)
        rest = [" switchport trunk native vlan 7", " description switchport trunk allowed vlan 5", " switchport trunk allowed vlan " + v]
        k = cx.choose("o", 3)
        m = cx.choose("m", 4)
        head = [" switchport", " switchport mode trunk", " switchport mode access", " no switchport"][m]
        body = rest[k:] + rest[0:k]
        if m == 3:
            body = [b for b in body if not b.startswith(" switchport")]
        p = CiscoConfParse(["interface Gi1/1", head] + body + ["interface Gi1/2", " switchport trunk allowed vlan 77"], syntax="ios", factory=True)
        got = list(p.objs)[0].trunk_vlans_allowed
        if m >= 2:
            cx.check(got == 0, "no list on an access port or a routed port")
        else:
            cx.check(list(got.as_list(result_type=int)) == [int(v)], "the VLANs of the base line")
        return
    base = case["base"]
    L = case["L"]
    sym = cx.choose("sym", 4 if "only" not in case else 2)

    def digit(name, at, other):
        return number(cx, name, L if at == 0 else 1) if sym == at else other
    a = digit("a", 0, "6" if L == 1 else "23")
    if base == "":
        have = None
    elif base == "none":
        lines.append(" switchport trunk allowed vlan none")
        have = []
    elif base == "all":
        lines.append(" switchport trunk allowed vlan all")
        have = None
    elif base == "list":
        lines.append(" switchport trunk allowed vlan 2," + a + ",15")
        have = [(2, 2), (int(a), int(a)), (15, 15)]
    else:
        lines.append(" switchport trunk allowed vlan 4-1" + a)
        have = [(4, int("1" + a))]
    minus = []
    for i in range(case["adds"]):
        k = cx.choose("add%d" % i, 4 if i else 3)
        if k == 1:
            b = digit("b%d" % i, 1, "8")
            lines.append(" switchport trunk allowed vlan add 1" + b + ",30")
            if have is not None:
                have += [(10 + int(b), 10 + int(b)), (30, 30)]
        elif k == 2:
            lines.append(" switchport trunk allowed vlan add 7-9")
            if have is not None:
                have += [(7, 9)]
        elif k == 3:
            b = digit("c%d" % i, 1, "3")
            lines.append(" switchport trunk allowed vlan add " + b)
            if have is not None:
                have += [(int(b), int(b))]
    if "only" not in case and cx.bool("exc"):
        b = digit("e", 2, "5")
        lines.append(" switchport trunk allowed vlan except " + b + ",12-14")
        minus += [(int(b), int(b)), (12, 14)]
    k = cx.choose("rem", 3) if "only" not in case else 0
    if k == 1:
        b = digit("r", 3, "2")
        lines.append(" switchport trunk allowed vlan remove 1" + b)
        minus += [(10 + int(b), 10 + int(b))]
    elif k == 2:
        lines.append(" switchport trunk allowed vlan remove 3-5,16")
        minus += [(3, 5), (16, 16)]
    p = CiscoConfParse(lines, syntax="ios", factory=True)
    o = list(p.objs)[0]
    got = list(o.trunk_vlans_allowed.as_list(result_type=int))
    if have is None:
        have = [(1, 4094)]
    hi = max(y for x, y in have) if have else 0
    top = 4094 if base in ("", "all") else 205
    want = [v for v in range(1, top + 1) if any([x <= v and v <= y for x, y in have]) and not any([x <= v and v <= y for x, y in minus])]
    cx.observe(got if len(got) < 200 else len(got))
    cx.check(got == want, "the allowed VLANs are the base VLANs plus the added ones less the excluded and removed ones, in order")
