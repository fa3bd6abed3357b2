from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "extended entries with every pair of 7 address forms, 19 protocols (names, a number of 1-2 symbolic digits, a service object group), port clauses out of 5 forms on either side, 6 log clauses with a "
                 "symbolic interval digit, 'disable', 'inactive' and 'time-range'; names of 1-2 symbolic characters; ICMP entries with 6 message forms and address pairs, and all 19 message names with further clauses; every log level; standard entries; remarks of 1-3 symbolic characters; "
                 "a second entry of another list after it",
        "thorough": "all combinations of clauses instead of a covering selection, names of 3 characters",
    },
    "outside": "any6, interface, FQDN and user clauses (refused by the parser with ValueError), names equal to keywords, entries with trailing unparsed text",
    "assumptions": ["fields are separated by one or two blanks"],
    "must_cover": ["remark", "standard", "icmp", "log level", "service group", "ports"],
}
NAME = "ABxy19_-."
PROTO = {"ip": 0, "tcp": 6, "udp": 17, "ah": 51, "eigrp": 88, "esp": 50, "gre": 47, "igmp": 2, "igrp": 9, "ipinip": 4, "ipsec": 50, "ospf": 89, "pcp": 108, "pim": 103, "pptp": 47, "snp": 109}
ADDR = ["any", "any4", "host", "object", "object-group", "net", "hostname"]
LOG = [("", "", -1), (" log", "informational", 300), (" log warnings", "warnings", 300), (" log #", "#", 300), (" log interval %", "informational", 0), (" log debugging interval %", "debugging", 0)]

ICMP = ["alternate-address", "conversion-error", "echo-reply", "echo", "information-reply", "information-request", "mask-reply", "mask-request", "mobile-redirect", "parameter-problem", "redirect",
        "router-advertisement", "router-solicitation", "source-quench", "time-exceeded", "timestamp-reply", "timestamp-request", "traceroute", "unreachable"]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for s in ADDR:
        for d in ADDR:
            out.append({"name": "ext-%s-%s" % (s, d), "mode": "ext", "src": s, "dst": d, "W": 3 if big else 2, "all": big})
    out.append({"name": "proto", "mode": "proto", "W": 3 if big else 2})
    for s in ADDR:
        out.append({"name": "icmp-" + s, "mode": "icmp", "src": s, "W": 2 if big else 1, "all": big})
    out.append({"name": "levels", "mode": "levels", "W": 1})
    out.append({"name": "icmp-messages", "mode": "messages", "W": 1})
    out.append({"name": "standard", "mode": "standard", "W": 3 if big else 2})
    out.append({"name": "remark", "mode": "remark", "W": 4 if big else 3})
    return out


def addr(cx, name, kind, w):
    """text of the address clause, and its method"""
    if kind in ("any", "any4"):
        return kind, "network"
    if kind == "host":
        return "host 10.1.1." + cx.str(name, 1, DIGITS), "network"
    if kind == "hostname":
        return "host " + cx.str(name, w, NAME), "network"
    if kind == "net":
        return "10.1." + cx.str(name, 1, DIGITS) + ".0 255.255.255.0", "network"
    return kind + " " + cx.str(name, w, NAME), kind


def tail(cx, every):
    """log clause, disable, inactive / time-range: text and the expected entries"""
    k = cx.choose("log", len(LOG))
    t, level, interval = LOG[k]
    if "%" in t:
        d = cx.str("intv", 1, DIGITS)
        cx.assume(d != "0")
        t = t.replace("%", d)
        interval = int(d)
    if level == "#":
        level = cx.str("lev", 1, "01234567")
        t = t.replace("#", level)
    if level not in ("", "informational"):
        cx.cover("log level")
    dis = cx.bool("dis") if every or k in (1, 5) else False
    if dis:
        t += " disable"
    e = cx.choose("end", 3) if every or k in (0, 2, 5) else 2
    rng = None
    if e == 1:
        t += " inactive"
    elif e == 2:
        rng = cx.str("rng", 2, NAME)
        t += " time-range " + rng
    return t, {"log": k != 0, "log_level": level, "log_interval": interval, "disable": dis, "time_range": rng}


def verify(cx, line, want):
    p = CiscoConfParse([line, "access-list zz extended deny udp object-group zz any log 3 disable"], syntax="asa", factory=True)
    o = list(p.objs)[0]
    cx.check(o.classname == "ASAAclLine", "an access-list command is an ASAAclLine")
    got = o.result_dict
    cx.check(sorted(got.keys()) == sorted(want.keys()), "the fields of an entry")
    for k in want:
        cx.check(got[k] == want[k], "access-list field " + k)
    z = list(p.objs)[1].result_dict
    cx.check(z["acl_name"] == "zz" and z["ip_protocol"] == 17 and z["src_addr_method"] == "object-group" and z["log_level"] == "3", "every entry has its own fields")


def harness(cx, case):
    mode = case["mode"]
    w = case["W"]
    acl = cx.str("acl", 1 if mode == "ext" else w, NAME)
    act = ["permit", "deny"][cx.choose("act", 2)]
    want = {"acl_name": acl, "action": act, "remark": None, "ip_protocol_object": "", "log": False, "log_level": "", "log_interval": -1, "disable": False, "time_range": None}
    if mode == "remark":
        cx.cover("remark")
        t = cx.str("t", 1 + cx.choose("n", w), PRINT)
        cx.assume(t[0] != " " and t[-1] != " ")
        want.update({"action": "remark", "remark": t, "ip_protocol": -1, "src_addr_method": "", "dst_addr_method": ""})
        verify(cx, "access-list " + acl + " remark " + t, want)
        return
    if mode == "standard":
        cx.cover("standard")
        a, m = addr(cx, "a", ["any", "any4", "host", "net", "hostname"][cx.choose("k", 5)], w)
        want.update({"ip_protocol": 0, "src_addr_method": "network", "dst_addr_method": "network"})
        verify(cx, "access-list " + acl + " standard " + act + " " + a, want)
        return
    if mode == "levels":
        every = ["alerts", "critical", "debugging", "emergencies", "errors", "informational", "notifications", "warnings"]
        k = cx.choose("lev", 9)
        level = every[k] if k < 8 else cx.str("dig", 1, "01234567")
        ports = cx.bool("ports")
        iv = ["", " interval 9"][cx.choose("iv", 2)]
        end = [" disable", " inactive", ""][cx.choose("end", 3)]
        if cx.bool("objects"):
            t = " extended " + act + " ip object A object B"
            want.update({"ip_protocol": 0, "src_addr_method": "object", "dst_addr_method": "object"})
        else:
            t = " extended " + act + " tcp any host 10.1.1.1" + (" eq 22" if ports else "")
            want.update({"ip_protocol": 6, "src_addr_method": "network", "dst_addr_method": "network"})
        want.update({"log": True, "log_level": level, "log_interval": 9 if iv else 300, "disable": end == " disable"})
        verify(cx, "access-list " + acl + t + " log " + level + iv + end, want)
        return
    if mode == "messages":
        k = cx.choose("msg", len(ICMP) + 1)
        m = ICMP[k] if k < len(ICMP) else cx.str("num", 2, DIGITS)
        end = cx.choose("end", 3)
        want.update({"ip_protocol": 1, "src_addr_method": "network", "dst_addr_method": "network"})
        if end == 1:
            want.update({"log": True, "log_level": "informational", "log_interval": 300, "disable": True})
        elif end == 2:
            want.update({"disable": True, "time_range": "T"})
        verify(cx, "access-list " + acl + " extended " + act + " icmp any host 10.1.1.1 " + m + ["", " log disable", " disable time-range T"][end], want)
        return
    gap = ["", " "][cx.choose("gap", 2)] if mode == "proto" else ""
    if mode == "proto":
        names = sorted(PROTO)
        k = cx.choose("proto", len(names) + 3)
        src = ["any", "net", "object"][cx.choose("src", 3)]
        dst = ["any4", "net", "object-group"][cx.choose("dst", 3)]
        if k < len(names):
            proto, num, obj = names[k], PROTO[names[k]], ""
        elif k < len(names) + 2:
            proto = cx.str("pn", k - len(names) + 1, DIGITS)
            cx.assume(proto[0] != "0")
            num, obj = int(proto), ""
        else:
            cx.cover("service group")
            obj = cx.str("pn", w, NAME)
            proto, num = "object-group " + obj, 65535
    elif mode == "icmp":
        cx.cover("icmp")
        proto, num, obj = "icmp", 1, ""
        src = case["src"]
        dst = ADDR[cx.choose("dst", len(ADDR))]
    else:
        src, dst = case["src"], case["dst"]
        k = cx.choose("proto", 3)
        proto, num, obj = [("tcp", 6, ""), ("udp", 17, ""), ("object-group X", 65535, "X")][k]
    a, am = addr(cx, "sa", src, w)
    b, bm = addr(cx, "da", dst, w)
    line = "access-list " + acl + " extended " + gap + act + " " + proto + " " + gap + a
    if mode == "ext" and not proto.startswith("object"):
        # ports behind object groups would be read as the next address, so object groups take numbers only
        sp = cx.choose("sp", 4)
        if sp:
            cx.cover("ports")
            line += [" eq www", " range 1 1024", " neq 80"][sp - 1]
        line += " " + b
        dp = cx.choose("dp", 4) if sp == 0 or case["all"] else (sp + 1) % 4
        if dp:
            line += [" eq https", " object-group P", " lt " + "7"][dp - 1]
        if case["all"] or (sp == 0 and dp == 0):
            t, more = tail(cx, case["all"])
        else:
            t, more = " log 2 interval 9", {"log": True, "log_level": "2", "log_interval": 9}
    elif mode == "icmp":
        line += " " + b
        m = cx.choose("msg", 6)
        line += ["", " echo", " echo-reply", " unreachable", " time-exceeded", " 8"][m]
        if case["all"] or m == 1:
            t, more = tail(cx, case["all"])
        else:
            t, more = [("", {}), (" log", {"log": True, "log_level": "informational", "log_interval": 300})][m % 2]
    else:
        line += " " + gap + b
        t, more = tail(cx, case.get("all", False)) if mode == "ext" else ("", {})
    want.update({"ip_protocol": num, "ip_protocol_object": obj, "src_addr_method": am, "dst_addr_method": bm})
    want.update(more)
    verify(cx, line + t, want)
