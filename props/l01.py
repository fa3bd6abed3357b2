from ciscoconfparse.ccp_util import L4Object
from ciscoconfparse.protocol_values import ASA_TCP_PORTS, ASA_UDP_PORTS
from props.common import *

META = {
    "bounds": {
        "quick": "ASA port specifications N, eq N, neq N, lt N, gt N and range N N for tcp and udp: ports of 1 to 5 symbolic digits (every port number, leading zeros, out-of-range ones), with one or two blanks, "
                 "neq with any port in windows of ten around 1, 25, 443, 8080 and 65535; every port name of both protocols; repr for ranges of up to 3 ports",
        "thorough": "neq in twenty windows",
    },
    "outside": "unknown port names, blanks other than spaces, IOS syntax (not implemented by the class)",
    "assumptions": ["well-known port numbers of 14 services are those of IANA and Cisco's documentation"],
    "must_cover": ["accepted", "refused", "eq", "neq", "lt", "gt", "range", "name"],
}
KNOWN = {"ftp": 21, "ftp-data": 20, "ssh": 22, "telnet": 23, "smtp": 25, "tacacs": 49, "domain": 53, "www": 80, "pop3": 110, "ntp": 123, "bgp": 179, "https": 443, "syslog": 514, "tftp": 69}


def tasks(tier):
    big = tier == "thorough"
    out = []
    for op in ("", "eq", "lt", "gt"):
        for n in (1, 2, 3, 4, 5):
            out.append({"name": "%s.%d" % (op or "bare", n), "op": op, "n": n})
    for n in (1, 2, 5):
        for m in (1, 3, 5):
            out.append({"name": "range.%d.%d" % (n, m), "op": "range", "n": n, "m": m})
    for w in ["", "2", "44", "808", "6553"] + ([str(i) for i in range(3, 18)] if big else []):
        out.append({"name": "neq." + w, "op": "neq", "w": w})
    for op in ("", "eq", "lt", "gt", "neq", "range"):
        out.append({"name": "name." + (op or "bare"), "op": op, "names": 1})
    out.append({"name": "repr", "op": "repr"})
    return out


def build(proto, spec):
    """the object, or None when the specification is refused"""
    try:
        return L4Object(protocol=proto, port_spec=spec, syntax="asa")
    except Exception:
        return None


def denotes(cx, op, a, b, q):
    if op in ("", "eq"):
        return q == a
    if op == "neq":
        return cx.all([q != a, 1 <= q, q <= 65535])
    if op == "lt":
        return cx.all([1 <= q, q < a])
    if op == "gt":
        return cx.all([a < q, q <= 65535])
    return cx.all([a <= q, q <= b])


def valid(cx, op, a, b):
    """the ports are port numbers, and some port is denoted"""
    if op == "range":
        return cx.all([1 <= a, a <= b, b <= 65535])
    return cx.all([a >= (2 if op == "lt" else 1), a <= (65534 if op == "gt" else 65535)])


def verify(cx, o, proto, op, a, b):
    cx.check(o.protocol == proto and o.syntax == "asa", "protocol and syntax are kept")
    L = o.port_list
    q = cx.int("q", 0, 70000)
    cx.check(cx.eq(q in L, denotes(cx, op, a, b, q)), "port_list holds exactly the ports denoted")
    lo = 1 if op in ("lt", "neq") else a + 1 if op == "gt" else a
    hi = 65535 if op in ("gt", "neq") else a - 1 if op == "lt" else b if op == "range" else a
    if op != "neq":
        cx.check(cx.all([L[0] == lo, L[-1] == hi]), "port_list is in ascending order")


def harness(cx, case):
    op = case["op"]
    proto = ("tcp", "udp")[cx.choose("proto", 2)]
    sep = (" ", "  ")[cx.choose("sep", 2)]
    pad = ("", " ")[cx.choose("pad", 2)]
    if op == "repr":
        a = cx.int("a", 1, 65530)
        k = cx.choose("k", 3)
        o = build(proto, "range %s %s" % (a, a + k))
        cx.check(repr(o) == "<L4Object " + proto + " ports: " + str(a) + ("" if k == 0 else "," if k == 1 else "-") + ("" if k == 0 else str(a + k)) + ">", "repr shows the compressed ports")
        o2 = build(proto, "range %s %s" % (a, a + k))
        c = cx.int("c", 1, 65530)
        e = build(proto, str(c))
        cx.check(o == o2 and not (o != o2), "equal specifications are equal")
        cx.check(cx.eq(o == e, cx.all([k == 0, a == c])), "objects are equal exactly when their ports are")
        other = build("udp" if proto == "tcp" else "tcp", "range %s %s" % (a, a + k))
        cx.check(not (o == other), "objects of different protocols differ")
        cx.check(not (o == None) and not (o == "x"), "nothing else is equal")
        return
    cx.cover(op or "eq")
    table = ASA_TCP_PORTS if proto == "tcp" else ASA_UDP_PORTS
    if case.get("names"):
        cx.cover("name")
        names = sorted(table)
        name = names[cx.choose("name", len(names))]
        a = table[name]
        cx.check(name not in KNOWN or KNOWN[name] == a, "well-known services have their port number")
        b = 65000
        spec = name + (sep + "65000" if op == "range" else "")
    elif op == "neq":
        d = cx.str("d", 1, DIGITS)
        spec = case["w"] + d
        a = int(spec)
        b = None
    else:
        spec = cx.str("a", case["n"], DIGITS)
        a = int(spec)
        b = None
        if op == "range":
            t = cx.str("b", case["m"], DIGITS)
            b = int(t)
            spec = spec + sep + t
    o = build(proto, pad + (op + sep if op else "") + spec + pad)
    if o is None:
        cx.cover("refused")
        cx.check(cx.eq(valid(cx, op, a, b), False), "every valid specification is accepted")
        return
    cx.cover("accepted")
    cx.check(valid(cx, op, a, b), "a specification outside the port numbers, or of no port, is refused")
    verify(cx, o, proto, op, a, b)
