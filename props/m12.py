from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ccp_util import IPv4Obj
from ciscoconfparse.errors import DynamicAddressException
from props.common import *

META = {
    "bounds": {
        "quick": "one NX-OS interface with every mixture of up to 3 lines out of: address (with and without a blank before the prefix length), secondary address, dhcp, 'no ip address', a description, an mtu, "
                 "followed by a second interface; one symbolic octet of 1-2 digits and 6 prefix lengths; subnets with a symbolic octet and 4 prefix lengths; every ordered pair of 17 layer-2 line kinds with "
                 "VLAN numbers of 1-2 symbolic digits; allowed-VLAN lists of 2 commands out of 8 (list, range, none, all, add, "
                 "except, remove, other), in every order, and of 3 commands without all / none / except after the first, with one digit of four in one of the commands; printed "
                 "forms with a symbolic octet and name digit",
        "thorough": "4 address lines, octets of 3 digits, triples of layer-2 lines, 4 allowed-VLAN commands, every digit",
    },
    "outside": "several primary addresses on one interface, invalid addresses, netmasks in dotted form, 'switchport' commands in upper case, accessors of a DHCP interface other than ipv4_addr and printing",
    "assumptions": ["address commands and VLAN lists are valid"],
    "must_cover": ["secondary", "dhcp", "not a switchport", "dtp", "trunk list", "remove before add"],
}

KIND4 = ["primary", "secondary", "dhcp", "none", "description", "mtu"]
LEN4 = [24, 30, 32, 8, 23, 31]
KIND = ["switchport", "access", "trunk", "avlan", "nvlan", "encap", "noneg", "psec", "psecopt", "storm", "no switchport", "description", "voice", "blank", "fex", "mtu", "no psec"]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for k in range(len(KIND4)):
        out.append({"name": "v4-" + KIND4[k], "mode": "v4", "first": k, "n": 4 if big else 3, "L": 3 if big else 2})
    for pre in (0, 8, 24, 30):
        out.append({"name": "subnet%d" % pre, "mode": "subnet", "pre": pre, "L": 3 if big else 2})
    out.append({"name": "subnets", "mode": "subnets", "L": 2 if big else 1})
    out.append({"name": "print", "mode": "print"})
    for k in range(len(KIND)):
        out.append({"name": "l2-" + KIND[k], "mode": "l2", "first": k, "n": 3 if big else 2})
    for k in range(7):
        out.append({"name": "trunk-%d" % k, "mode": "trunk", "first": k, "n": 2, "kinds": [0, 1, 2, 3, 4, 5, 6, 7], "dom": DIGITS if big else "135"})
    for k in (0, 1, 6):
        out.append({"name": "lists-%d" % k, "mode": "trunk", "first": k, "n": 4 if big else 3, "kinds": [0, 3, 5, 7], "dom": DIGITS if big else "1359"})
    return out


def number(cx, name, n):
    t = cx.str(name, n, DIGITS)
    cx.assume(t[0] != "0")
    return t


def octet_of(cx, name, n):
    t = cx.str(name, n, DIGITS)
    if n > 1:
        cx.assume(t[0] != "0")
    if n > 2:
        cx.assume(int(t) < 256)
    return t


def dotted(n):
    v = (2 ** 32 - 1) // 2 ** (32 - n) * 2 ** (32 - n)
    return "%d.%d.%d.%d" % (v // 16777216, v // 65536 % 256, v // 256 % 256, v % 256)


def addresses(cx, case):
    n = case["n"]
    lines = ["feature x", "interface Ethernet1/1"]
    prim = None
    secs = []
    dyn = ""
    for i in range(n):
        k = case["first"] if i == 0 else cx.choose("k%d" % i, len(KIND4))
        kind = KIND4[k]
        if kind == "primary":
            if prim is not None or dyn != "":
                cx.assume(False)
            a = octet_of(cx, "a%d" % i, case["L"])
            ml = LEN4[(i + 2 * k) % 6] if i else LEN4[cx.choose("m%d" % i, 6)]
            prim = ("10.1." + a + ".9", ml, (10 * 256 + 1) * 65536 + int(a) * 256 + 9)
            lines.append(" ip address " + prim[0] + ["", " "][cx.choose("gap", 2)] + "/%d" % ml)
        elif kind == "secondary":
            if prim is None:
                cx.assume(False)
            a = octet_of(cx, "s%d" % i, 1)
            secs.append(a)
            cx.cover("secondary")
            lines.append(" ip address 172.16.%d" % i + "." + a + "/%d secondary" % LEN4[i])
        elif kind == "dhcp":
            if prim is not None or dyn != "":
                cx.assume(False)
            dyn = kind
            cx.cover("dhcp")
            lines.append(" ip address dhcp")
        elif kind == "none":
            if prim is not None or dyn != "":
                cx.assume(False)
            dyn = "none"
            lines.append(" no ip address")
        elif kind == "description":
            lines.append(" description ip address 1.2.3.4/8" + cx.str("d%d" % i, 2, PRINT))
        else:
            lines.append(" mtu 1500")
    lines.append("interface Ethernet1/2")
    lines.append(" ip address 192.168.1.1/16")
    p = CiscoConfParse(lines, syntax="nxos", factory=True)
    o = list(p.objs)[1]
    if dyn == "dhcp":
        raised = 0
        try:
            o.ipv4_addr
        except DynamicAddressException:
            raised += 1
        try:
            o.ipv4_addr_object
        except DynamicAddressException:
            raised += 1
        cx.check(raised == 2, "the address of a DHCP interface is not in the configuration: DynamicAddressException")
        return
    ml = prim[1] if prim is not None else 0
    cx.check(o.ipv4_addr == (prim[0] if prim is not None else ""), "ipv4_addr is the primary address or ''")
    cx.check(o.ip_addr == (prim[0] if prim is not None else ""), "ip_addr")
    cx.check(o.ipv4_masklength == ml, "ipv4_masklength belongs to the primary address")
    cx.check(o.ipv4_netmask == (dotted(ml) if prim is not None else ""), "ipv4_netmask belongs to the primary address")
    cx.check(o.has_no_ipv4 == (prim is None), "has_no_ipv4: there is no address")
    for obj in (o.ipv4_addr_object, o.ip, o.ipv4):
        if prim is None:
            cx.check(obj == IPv4Obj("0.0.0.1/32"), "without an address the object is the documented default")
        else:
            cx.check(obj.as_decimal == prim[2], "the address object is the primary address")
            cx.check(obj.prefixlen == ml, "the address object has the primary prefix length")
    for obj in (o.ip_network_object, o.ipv4_network_object):
        if prim is None:
            cx.check(obj == IPv4Obj("0.0.0.1/32"), "without an address the subnet object is the documented default")
        else:
            size = 2 ** (32 - ml)
            cx.check(obj.as_decimal_network == prim[2] // size * size, "the subnet object is the subnet of the primary address")
            cx.check(obj.prefixlen == ml, "subnet object prefix length")


def subnets(cx, case):
    mode = case["mode"]
    a = octet_of(cx, "a", case["L"])
    ml = LEN4[cx.choose("m", 6)]
    addr = (10 * 256 + 1) * 65536 + int(a) * 256 + 9
    lines = ["interface Ethernet1/1", " ip address 172.16.1.1/16 secondary", " ip address 10.1." + a + ".9/%d" % ml]
    p = CiscoConfParse(lines, syntax="nxos", factory=True)
    o = list(p.objs)[0]
    size = 2 ** (32 - ml)
    lo = addr // size * size
    hi = lo + size - 1
    nets = []
    want = []
    if mode == "subnet":
        prefixes = [(octet_of(cx, "b", case["L"]), case["pre"])]
    else:
        prefixes = []
        for i in range(cx.choose("n", 3)):
            prefixes.append((octet_of(cx, "b%d" % i, 1), [22, 28][i]))
    for b, pre in prefixes:
        net = IPv4Obj("10.1." + b + ".0/%d" % pre)
        s2 = 2 ** (32 - pre)
        nlo = ((10 * 256 + 1) * 65536 + int(b) * 256) // s2 * s2
        w = nlo <= lo and hi <= nlo + s2 - 1
        nets.append(net)
        want.append(w)
        cx.check(o.in_ipv4_subnet(net) == w, "in_ipv4_subnet: the interface's subnet lies within the given one")
    if mode == "subnets":
        cx.check(o.in_ipv4_subnets(nets) == any(want), "in_ipv4_subnets: within at least one of them")
        nets.reverse()
        cx.check(o.in_ipv4_subnets(nets) == any(want), "in_ipv4_subnets: in any order")


def printed(cx):
    d = cx.str("d", 1, DIGITS)
    a = octet_of(cx, "a", 2)
    k = cx.choose("k", 4)
    body = [["ip address 10.0.0." + a + "/24"], ["mtu 9216"], ["switchport"], ["ip address dhcp"]][k]
    info = ["10.0.0." + a + "/24", "No IPv4", "switchport", "IPv4 dhcp"][k]
    p = CiscoConfParse(["feature x", "interface Ethernet1/" + d] + [" " + b for b in body], syntax="nxos", factory=True)
    o = list(p.objs)[1]
    cx.check(repr(o) == "<NXOSIntfLine # 1 'interface Ethernet1/" + d + "' info: '" + info + "'>", "repr() of an interface gives its number, its name and its address")


def layer2(cx, case):
    lines = ["interface Ethernet1/1"]
    sw = acc = trk = noneg = psec = storm = fex = False
    avlan = nvlan = None
    encap = ""
    if cx.bool("sw"):
        lines.append(" switchport")
        sw = True
    for i in range(case["n"]):
        k = case["first"] if i == 0 else cx.choose("k%d" % i, len(KIND))
        kind = KIND[k]
        w = "%d" % i
        t = ""
        if kind == "switchport":
            t = "switchport"
        elif kind == "access":
            t = "switchport mode access"
            acc = True
        elif kind == "trunk":
            t = "switchport mode trunk"
            trk = True
        elif kind == "fex":
            t = "switchport mode fex-fabric"
            fex = True
        elif kind == "avlan":
            v = number(cx, "v" + w, 1 + i % 2)
            t = "switchport access vlan " + v
            if avlan is None:
                avlan = v
        elif kind == "nvlan":
            v = number(cx, "v" + w, 1 + i % 2)
            t = "switchport trunk native vlan " + v
            if nvlan is None:
                nvlan = v
        elif kind == "encap":
            v = cx.str("v" + w, 2, ALNUM)
            t = "switchport trunk encapsulation " + v
            if encap == "":
                encap = v
        elif kind == "noneg":
            t = "switchport nonegotiate"
            noneg = True
        elif kind == "psec":
            t = "switchport port-security"
            psec = True
        elif kind == "psecopt":
            t = "switchport port-security maximum " + number(cx, "v" + w, 1)
        elif kind == "storm":
            t = "storm-control broadcast level " + number(cx, "v" + w, 1)
            storm = True
        elif kind == "no switchport":
            t = "no switchport"
            if cx.bool("x" + w):
                t += " " + ["nonegotiate", "mode access", "access vlan 5"][i]
        elif kind == "description":
            t = "description switchport " + ["mode access", "mode trunk", "nonegotiate"][cx.choose("d" + w, 3)] + cx.str("v" + w, 1, " a")
        elif kind == "voice":
            t = "switchport voice vlan " + number(cx, "v" + w, 1)
        elif kind == "mtu":
            t = "mtu 9216"
        elif kind == "no psec":
            t = "no switchport port-security"
        if t.startswith("switchport"):
            sw = True
        lines.append(" " + t)
    lines += ["interface Ethernet1/2", " switchport mode access", " switchport nonegotiate", " switchport port-security", " storm-control x", " switchport access vlan 99"]
    lines += [" switchport trunk native vlan 98", " switchport mode fex-fabric", " switchport trunk encapsulation zz", " switchport mode trunk"]
    p = CiscoConfParse(lines, syntax="nxos", factory=True, ignore_blank_lines=False)
    o = list(p.objs)[0]
    if not sw:
        cx.cover("not a switchport")
    if noneg:
        cx.cover("dtp")
    cx.check(o.is_switchport == sw, "is_switchport: a switchport command is present")
    cx.check(o.has_manual_switch_access == acc, "has_manual_switch_access")
    cx.check(o.has_manual_switch_trunk == trk, "has_manual_switch_trunk")
    cx.check(o.has_manual_switch_fex_fabric == fex, "has_manual_switch_fex_fabric")
    cx.check(o.access_vlan == (int(avlan) if avlan is not None else 1 if sw else 0), "access_vlan")
    cx.check(o.native_vlan == (int(nvlan) if nvlan is not None else 1 if sw else 0), "native_vlan")
    cx.check(o.manual_switch_trunk_encap == encap, "manual_switch_trunk_encap")
    cx.check(o.has_manual_switch_trunk_encap == (encap != ""), "has_manual_switch_trunk_encap")
    cx.check(o.has_switch_portsecurity == psec, "has_switch_portsecurity: only a plain 'switchport port-security' enables it")
    cx.check(o.has_switch_stormcontrol == (storm and sw), "has_switch_stormcontrol")
    cx.check(o.has_dtp == (sw and not noneg), "has_dtp: a switchport negotiates unless 'switchport nonegotiate'")
    if acc or not sw:
        cx.check(o.trunk_vlans_allowed == 0, "no allowed VLANs on an access port or a routed port")


def trunk(cx, case):
    cx.cover("trunk list")
    lines = ["interface Ethernet1/1", [" switchport", " switchport mode trunk"][case["first"] % 2]]
    n = case["n"]
    sym = cx.choose("sym", n)
    ops = []
    had_rem = False
    for i in range(n):
        k = case["first"] if i == 0 else case["kinds"][cx.choose("k%d" % i, len(case["kinds"]))]
        d = cx.str("d%d" % i, 1, case["dom"]) if sym == i else str(3 + 2 * i)
        cx.assume(d != "0")
        v = int(d)
        pre = " switchport trunk allowed vlan "
        if k == 0:
            lines.append(pre + "2," + d + ",15-17")
            ops.append(("=", [(2, 2), (v, v), (15, 17)]))
        elif k == 1:
            lines.append(pre + "none")
            ops.append(("=", []))
        elif k == 2:
            lines.append(pre + "all")
            ops.append(("=", [(1, 4094)]))
        elif k == 3:
            lines.append(pre + "add 1" + d + ",30")
            ops.append(("+", [(10 + v, 10 + v), (30, 30)]))
            if had_rem:
                cx.cover("remove before add")
        elif k == 4:
            lines.append(pre + "except " + d + ",12-14")
            ops.append(("^", [(v, v), (12, 14)]))
        elif k == 5:
            lines.append(pre + "remove 1" + d + ",2-3")
            ops.append(("-", [(10 + v, 10 + v), (2, 3)]))
            had_rem = True
        elif k == 6:
            lines.append(pre + "1" + d + "-2" + d)
            ops.append(("=", [(10 + v, 20 + v)]))
        else:
            lines.append([" switchport trunk native vlan ", " description switchport trunk allowed vlan "][i % 2] + d)
    lines += ["interface Ethernet1/2", " switchport", " switchport trunk allowed vlan 77"]
    p = CiscoConfParse(lines, syntax="nxos", factory=True)
    o = list(p.objs)[0]
    got = list(o.trunk_vlans_allowed.as_list(result_type=int))
    want = []
    for v in range(1, 4095):
        # far away from every boundary all the VLANs are alike: membership is decided for 1-45 and 4000-4094 and counted in between
        if 45 < v and v < 4000:
            continue
        have = True
        for op, ranges in ops:
            hit = any([x <= v and v <= y for x, y in ranges])
            if op == "=":
                have = hit
            elif op == "+":
                have = have or hit
            elif op == "-":
                have = have and not hit
            else:
                have = not hit
        if have:
            want.append(v)
    every = len(want) > 0 and want[-1] == 4094
    cx.check([v for v in got if v <= 45 or v >= 4000] == want, "the allowed VLANs are the result of the commands, taken in order")
    cx.check(len(got) == len(want) + (3954 if every else 0), "and no other VLANs")


def harness(cx, case):
    mode = case["mode"]
    if mode == "v4":
        addresses(cx, case)
    elif mode == "subnet" or mode == "subnets":
        subnets(cx, case)
    elif mode == "print":
        printed(cx)
    elif mode == "l2":
        layer2(cx, case)
    else:
        trunk(cx, case)
