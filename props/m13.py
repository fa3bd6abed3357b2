from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "one NX-OS interface with and without an address and one 'hsrp' group of 1-3 symbolic digits with every ordered pair of 12 command kinds below it, a description or 'hsrp version' / 'hsrp use-bia' on "
                 "the interface, and a second interface with its own group; 'vpc domain' with every ordered pair of 13 command kinds (with their 'no' forms) and peer-keepalive commands with every pair of 9 options "
                 "in both orders; numbers of 1-2 symbolic digits, words of 2 symbolic characters, "
                 "timers with one of three symbolic digits",
        "thorough": "triples of commands",
    },
    "outside": "several HSRP groups on one interface (the accessors are documented to assume one), hsrp_ip_mask and hsrp_authentication_cleartext (no such NX-OS values), IPv6 groups",
    "assumptions": ["commands are spelled out and in lower case"],
    "must_cover": ["no hsrp", "no address", "msec", "no form", "hold-timeout only"],
}

HS = ["ip", "priority", "default priority", "preempt", "delay", "timers", "msec", "mixed1", "mixed2", "track", "md5", "name"]
VP = ["role", "sysprio", "sysmac", "bypass", "switch", "l3", "gateway", "recovery", "delay", "arp", "delayrestore", "graceful", "no"]
KA = ["source", "hold-timeout", "interval", "precedence", "tos", "tos-byte", "udp-port", "vrf", "timeout"]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for k in range(len(HS)):
        out.append({"name": "hsrp-" + HS[k].replace(" ", ""), "mode": "hsrp", "first": k, "n": 3 if big else 2})
    for k in range(len(VP)):
        out.append({"name": "vpc-" + VP[k], "mode": "vpc", "first": k, "n": 3 if big else 2})
    for k in range(len(KA)):
        out.append({"name": "keepalive-" + KA[k], "mode": "ka", "first": k, "n": 3 if big else 2})
    out.append({"name": "none", "mode": "none"})
    return out


def number(cx, name, n):
    t = cx.str(name, n, DIGITS)
    cx.assume(t[0] != "0")
    return t


def first(rows, *kinds):
    for k, v in rows:
        if k in kinds:
            return v
    return None


AFTER = ["interface Vlan11", "  ip address 10.7.0.1/24", "  hsrp use-bia", "  hsrp 3", "    ip 10.7.0.254", "    priority 33", "    preempt", "    timers 33 99", "    track 33", "    authentication md5 key-chain zz"]


def hsrp(cx, case):
    rows = []
    body = []
    for i in range(case["n"]):
        k = case["first"] if i == 0 else cx.choose("k%d" % i, len(HS))
        kind = HS[k]
        n = "%d" % i
        v = None
        if kind == "ip":
            v = "10.0.0." + number(cx, "v" + n, 1 + i % 2)
            t = "ip " + v
        elif kind == "priority":
            v = number(cx, "v" + n, 2)
            t = "priority " + v
        elif kind == "default priority":
            v = "100"
            t = "priority 100"
        elif kind == "preempt":
            t = "preempt"
        elif kind == "delay":
            t = "preempt delay minimum " + number(cx, "v" + n, 2)
        elif kind == "timers":
            a, b = cx.str("v" + n, 1, "258"), "1" + cx.str("w" + n, 1, "037")
            v = (int(a), int(b))
            t = "timers " + a + " " + b
        elif kind == "msec":
            v = (0.25, 0.75)
            t = "timers msec 250 msec 750"
            cx.cover("msec")
        elif kind == "mixed1":
            b = cx.str("v" + n, 1, "149")
            v = (0.5, int(b))
            t = "timers msec 500 " + b
        elif kind == "mixed2":
            b = cx.str("v" + n, 1, "149")
            v = (int(b), 3.5)
            t = "timers " + b + " msec 3500"
        elif kind == "track":
            v = number(cx, "v" + n, 1 + i % 2)
            t = "track " + v + ["", " decrement 20"][i % 2]
        elif kind == "md5":
            v = cx.str("v" + n, 2, ALNUM)
            t = "authentication md5 key-chain " + v
        else:
            t = "name " + ["preempt", "track 7", "priority"][i]
        rows.append((kind, v))
        body.append("    " + t)
    if first(rows, "timers", "msec", "mixed1", "mixed2") is not None and len([1 for k, v in rows if k in ("timers", "msec", "mixed1", "mixed2")]) > 1:
        # a group has one timers command
        cx.assume(False)
    lines = ["feature hsrp", "interface Vlan10"]
    addr = True
    top = cx.choose("top", 4)
    if top == 1:
        addr = False
        cx.cover("no address")
    else:
        lines.append("  ip address 10.0.0.2/24")
    G = number(cx, "G", 1 + case["first"] % 3)
    bia = top == 2
    if bia:
        lines.append("  hsrp use-bia")
    if top == 3:
        lines.append("  description hsrp " + ["use-bia", "7"][case["first"] % 2])
        lines.append("  hsrp version 2")
    lines.append("  hsrp " + G + ["", " ipv4"][case["first"] % 2])
    p = CiscoConfParse(lines + body + AFTER, syntax="nxos", factory=True)
    o = list(p.objs)[1]
    a = first(rows, "ip")
    have = addr and a is not None
    cx.check(o.hsrp_group == G, "hsrp_group")
    cx.check(o.hsrp_ip_addr == (a if have else ""), "hsrp_ip_addr: the virtual address, of an interface with an address")
    cx.check(o.has_ip_hsrp == have, "has_ip_hsrp")
    v = first(rows, "priority", "default priority")
    cx.check(o.hsrp_priority == (0 if not have else 100 if v is None else int(v)), "hsrp_priority: 100 by default, 0 without HSRP")
    v = first(rows, "timers", "msec", "mixed1", "mixed2")
    cx.check(o.hsrp_hello_timer == (0 if v is None else v[0]), "hsrp_hello_timer, in seconds")
    cx.check(o.hsrp_hold_timer == (0 if v is None else v[1]), "hsrp_hold_timer, in seconds")
    v = first(rows, "track")
    cx.check(o.hsrp_track == ("" if v is None else v), "hsrp_track: the tracked object")
    cx.check(o.has_hsrp_track == (v is not None), "has_hsrp_track")
    cx.check(o.has_hsrp_usebia == bia, "has_hsrp_usebia")
    cx.check(o.has_hsrp_preempt == any(k in ("preempt", "delay") for k, v in rows), "has_hsrp_preempt")
    v = first(rows, "md5")
    cx.check(o.hsrp_authentication_md5_keychain == ("" if v is None else v), "hsrp_authentication_md5_keychain")
    cx.check(o.has_hsrp_authentication_md5 == (v is not None), "has_hsrp_authentication_md5")


def none(cx):
    w = cx.str("w", 2, PRINT)
    t = ["  description hsrp 7", "  hsrp version 2", "  no hsrp 7", "  hsrp bfd", "  standby 7 ip 10.0.0.9", "  ip hsrp 7"][cx.choose("k", 6)]
    if t.startswith("  description"):
        t = t + w
    cx.cover("no hsrp")
    p = CiscoConfParse(["feature hsrp", "interface Vlan10", "  ip address 10.0.0.2/24", t] + AFTER, syntax="nxos", factory=True)
    o = list(p.objs)[1]
    cx.check(o.hsrp_group == "", "no HSRP group")
    cx.check(o.hsrp_ip_addr == "" and o.has_ip_hsrp is False, "no virtual address")
    cx.check(o.hsrp_priority == 0, "no HSRP priority")
    cx.check(o.hsrp_hello_timer == 0.0, "no HSRP hello timer")
    cx.check(o.hsrp_hold_timer == 0.0, "no HSRP hold timer")
    cx.check(o.hsrp_track == "" and o.has_hsrp_track is False, "no tracked object")
    cx.check(o.has_hsrp_usebia is False and o.has_hsrp_preempt is False, "no HSRP options")
    cx.check(o.hsrp_authentication_md5_keychain == "" and o.has_hsrp_authentication_md5 is False, "no HSRP authentication")


def vpc(cx, case):
    rows = []
    D = number(cx, "D", 1 + case["first"] % 3)
    lines = ["feature vpc", "vpc domain " + D]
    for i in range(case["n"]):
        k = case["first"] if i == 0 else cx.choose("k%d" % i, len(VP))
        kind = VP[k]
        n = "%d" % i
        v = ""
        if kind in ("role", "sysprio"):
            v = number(cx, "v" + n, 1 + i % 2)
            t = {"role": "role priority ", "sysprio": "system-priority "}[kind] + v
        elif kind == "sysmac":
            v = "00:23:04:ee:be:0" + cx.str("v" + n, 1, "0123456789abcdef")
            t = "system-mac " + v
        elif kind == "delay":
            v = number(cx, "v" + n, 1 + i % 2)
            t = "auto-recovery reload-delay " + v
        elif kind == "delayrestore":
            t = "delay restore " + number(cx, "v" + n, 2)
        elif kind == "no":
            t = "no " + ["peer-switch", "peer-gateway", "auto-recovery", "ip arp synchronize", "layer3 peer-router", "peer-config-check-bypass", "role priority 7"][cx.choose("m" + n, 7)]
            cx.cover("no form")
        else:
            t = {"bypass": "peer-config-check-bypass", "switch": "peer-switch", "l3": "layer3 peer-router", "gateway": "peer-gateway" + ["", " exclude-vlan 7"][i % 2], "recovery": "auto-recovery",
                 "arp": "ip arp synchronize", "graceful": "graceful consistency-check"}[kind]
        rows.append((kind, v))
        lines.append("  " + t)
    lines += ["vrf context x", "  peer-switch", "  peer-gateway", "  auto-recovery reload-delay 7", "  role priority 7", "  system-priority 7", "  system-mac zz", "  ip arp synchronize", "  layer3 peer-router"]
    p = CiscoConfParse(lines, syntax="nxos", factory=True)
    o = list(p.objs)[1]

    def num(*kinds):
        v = first(rows, *kinds)
        return -1 if v is None else int(v)

    def has(*kinds):
        return first(rows, *kinds) is not None
    cx.check(o.classname == "NXOSvPCLine", "a vPC domain is an NXOSvPCLine")
    cx.check(o.vpc_domain_id == D, "vpc_domain_id")
    cx.check(o.vpc_role_priority == num("role"), "vpc_role_priority")
    cx.check(o.vpc_system_priority == num("sysprio"), "vpc_system_priority")
    v = first(rows, "sysmac")
    cx.check(o.vpc_system_mac == ("" if v is None else v), "vpc_system_mac")
    cx.check(o.has_peer_config_check_bypass == has("bypass"), "has_peer_config_check_bypass")
    cx.check(o.has_peer_switch == has("switch"), "has_peer_switch")
    cx.check(o.has_layer3_peer_router == has("l3"), "has_layer3_peer_router")
    cx.check(o.has_peer_gateway == has("gateway"), "has_peer_gateway")
    cx.check(o.has_auto_recovery == has("recovery", "delay"), "has_auto_recovery")
    cx.check(o.vpc_auto_recovery_reload_delay == num("delay"), "vpc_auto_recovery_reload_delay")
    cx.check(o.has_ip_arp_synchronize == has("arp"), "has_ip_arp_synchronize")
    cx.check(o.vpc_peer_keepalive["destination"] == "", "no peer-keepalive destination")


def keepalive(cx, case):
    d = number(cx, "d", 2)
    want = {"destination": "10.0.0." + d, "hold-timeout": -1, "interval": -1, "timeout": -1, "precedence": "", "source": "", "tos": "", "tos-byte": -1, "udp-port": -1, "vrf": ""}
    opts = []
    used = []
    for i in range(case["n"]):
        k = case["first"] if i == 0 else cx.choose("k%d" % i, len(KA))
        kind = KA[k]
        if kind in used:
            cx.assume(False)
        used.append(kind)
        n = "%d" % i
        if kind == "source":
            v = "10.0.1." + number(cx, "v" + n, 1)
        elif kind in ("precedence", "tos", "vrf"):
            v = cx.str("v" + n, 2, ALNUM)
        else:
            v = number(cx, "v" + n, 1 + i % 2)
        opts.append(kind + " " + v)
        want[kind] = int(v) if want[kind] == -1 else v
    if "hold-timeout" in used and "timeout" not in used:
        cx.cover("hold-timeout only")
    t = "  peer-keepalive destination 10.0.0." + d + " " + " ".join(opts)
    p = CiscoConfParse(["vpc domain 7", "  role priority 5", t, "  delay restore 9"], syntax="nxos", factory=True)
    got = list(p.objs)[0].vpc_peer_keepalive
    cx.check(sorted(got.keys()) == sorted(want.keys()), "the options of a peer-keepalive")
    for k in want:
        cx.check(got[k] == want[k], "peer-keepalive option " + k)


def harness(cx, case):
    mode = case["mode"]
    if mode == "hsrp":
        hsrp(cx, case)
    elif mode == "none":
        none(cx)
    elif mode == "vpc":
        vpc(cx, case)
    else:
        keepalive(cx, case)
