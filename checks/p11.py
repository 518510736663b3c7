"""P11: conversion functions - numbers, addresses, masks, MACs, uptimes, ranges - against independent arithmetic."""
import ipaddress

from vlib import api, gen
from vlib.core import eq, sub

P = "P11"

# ------------------------------------------------------------------ address arithmetic (no interface classes)


def v4(n):
    return ".".join(str(n >> s & 255) for s in (24, 16, 8, 0))


def v6_groups(n):
    return [n >> (16 * (7 - i)) & 0xFFFF for i in range(8)]


def v6x(n):
    return ":".join("%04x" % g for g in v6_groups(n))


def v6(n):
    g = v6_groups(n)
    best, i = (0, 0), 0
    while i < 8:
        j = i
        while j < 8 and g[j] == 0:
            j += 1
        if j - i > best[1]:
            best = (i, j - i)
        i = max(j, i + 1)
    if best[1] < 2:
        return ":".join("%x" % x for x in g)
    return ":".join("%x" % x for x in g[:best[0]]) + "::" + ":".join("%x" % x for x in g[best[0] + best[1]:])


def mask(bits, plen):
    return ((1 << plen) - 1) << (bits - plen)


def describe(bits, n, plen):
    """What ip_info has to say; plen None: plain address."""
    show = v4 if bits == 32 else v6
    ver = 4 if bits == 32 else 6
    long_ = show if ver == 4 else v6x
    addr = ipaddress.IPv4Address(n) if ver == 4 else ipaddress.IPv6Address(n)  # registry questions only
    out = {
        "is_link_local": n >> 16 == 0xA9FE if ver == 4 else n >> 118 == 0xFE80 >> 6,
        "is_loopback": n >> 24 == 127 if ver == 4 else n == 1,
        "is_multicast": n >> 28 == 14 if ver == 4 else n >> 120 == 0xFF,
        "is_private": addr.is_private,
        "is_reserved": addr.is_reserved,
        "is_unspecified": n == 0,
        "max_prefixlen": bits,
        "version": ver,
    }
    if plen is None:
        out.update(ip=show(n), compressed=show(n), exploded=long_(n))
        return out
    m = mask(bits, plen)
    net, size = n & m, 1 << (bits - plen)
    host = size - 1
    slash = "/%d" % plen
    out.update({
        "ip": show(n), "compressed": show(n) + slash, "exploded": long_(n) + slash, "hostmask": show(host), "netmask": show(m),
        "network": show(net) + slash, "with_hostmask": show(n) + "/" + show(host), "with_netmask": show(n) + "/" + show(m),
        "with_prefixlen": show(n) + slash, "broadcast_address": show(net + host), "network_address": show(net),
        "num_addresses": size, "hosts": size - 2, "prefixlen": plen,
    })
    # flags of an interface that ask for the whole network to be inside the range
    iface = (ipaddress.IPv4Interface if ver == 4 else ipaddress.IPv6Interface)((n, plen))
    for k in ("is_link_local", "is_loopback", "is_multicast", "is_private", "is_reserved", "is_unspecified"):
        out[k] = getattr(iface, k)
    return out


def draw_addr(d):
    """[bits, number, plen or None, text]"""
    if d.bool(65):
        n = d.choice([0x0A010203, 0x7F000001, 0xC0A80101, 0xE0000005, 0xA9FE0102, 0, 0xFFFFFFFF, 0xAC1F0001, 0x01000003, 0xF0000001]) if d.bool(50) \
            else d.int(0, 2**32 - 1)
        k = d.int(0, 2)
        if k == 0:
            return [32, n, None, v4(n)]
        plen = d.choice([24, 30, 8, 16, 0, 29, 25, 17, 1, 12])
        return [32, n, plen, v4(n) + ("/%d" % plen if k == 1 else d.choice([" ", "/"]) + v4(mask(32, plen)))]
    n = d.choice([1, 0x20010DB8 << 96 | 5, 0xFE80 << 112 | 0xFD37, 0xFF02 << 112 | 1, 0xFD00 << 112, 0x20010DB8000000010000000000000001]) \
        if d.bool(50) else d.int(0, 2**128 - 1)
    text = d.choice([v6, v6x])(n)
    if d.bool(30):
        text = text.upper()
    if d.bool(40):
        return [128, n, None, text]
    plen = d.choice([64, 48, 124, 0, 126, 32, 1, 100])
    return [128, n, plen, text + "/%d" % plen]


BAD_ADDR = ["abc", "10.1.2", "10.1.2.256", "1.2.3.4.5", "10.1.2.3/33", "::g", "10.1.2.3/255.0.255.0", "up", "1::2::3", "/24", "10.1..3", "a:b", "12"]
ATTRS = {
    "version": lambda b, n, p: 4 if b == 32 else 6,
    "compressed": lambda b, n, p: describe(b, n, p)["compressed"],
    "exploded": lambda b, n, p: describe(b, n, p)["exploded"],
    "max_prefixlen": lambda b, n, p: b,
}
ATTRS_IFACE = {
    "with_prefixlen": None, "with_netmask": None, "with_hostmask": None, "network": None, "netmask": None, "hostmask": None, "ip": None,
}


@gen.cases
def addresses(d):
    calls = d.choice(["to_ip", "to_ip", "to_ip_str", "ip_info", "to_ip|ip_info", "is_ip", "attr", "to_net", "net_attr", "ip_info_bad", "cidr"])
    out = {"calls": calls, "items": []}
    for _ in range(d.int(1, 6)):
        if calls in ("ip_info_bad", "is_ip") and d.bool(40):
            out["items"].append([0, 0, None, d.choice(BAD_ADDR)])
            continue
        a = draw_addr(d)
        if calls in ("to_net", "net_attr"):
            bits, n, plen, _ = a
            plen = bits if plen is None else plen
            n &= mask(bits, plen)
            show = v4 if bits == 32 else d.choice([v6, v6x])
            a = [bits, n, plen, show(n) + ("/%d" % plen if bits == 128 or d.bool(60) else "/" + v4(mask(bits, plen)))]
        if calls == "cidr":
            plen = d.int(0, 32)
            a = [32, 0, plen, v4(mask(32, plen))]
        out["items"].append(a)
    out["arg"] = d.choice(["", "", "ipv4", "ipv6"]) if calls in ("to_ip", "to_net", "is_ip", "ip_info", "to_ip_str") else ""
    if calls == "attr":
        out["arg"] = d.choice(sorted(ATTRS) + sorted(ATTRS_IFACE))
    if calls == "net_attr":
        out["arg"] = d.choice(["num_addresses", "prefixlen", "network_address", "broadcast_address", "with_prefixlen", "netmask", "hostmask"])
    return out


def obj(bits, n, plen):
    if plen is None:
        return (ipaddress.IPv4Address if bits == 32 else ipaddress.IPv6Address)(n)
    return (ipaddress.IPv4Interface if bits == 32 else ipaddress.IPv6Interface)((n, plen))


@sub(P, "addresses", addresses, 8000, 300000, "an address with a mask, an IPv6 address or invalid text was converted")
def check_addresses(case):
    calls, arg, items = case["calls"], case["arg"], case["items"]
    if arg in ("ipv4", "ipv6") and calls != "is_ip":
        items = [a for a in items if a[0] == (32 if arg == "ipv4" else 128)]
    if calls == "attr" and arg in ATTRS_IFACE:
        items = [a for a in items if a[2] is not None]
    if calls == "ip_info_bad":
        calls = "ip_info"
    if not items:
        return None
    argtext = "('%s')" % arg if arg in ("ipv4", "ipv6") else ""
    texts = {"to_ip": "to_ip" + argtext, "to_ip_str": "to_ip%s | to_str" % argtext, "ip_info": "ip_info" + argtext, "to_ip|ip_info": "to_ip | ip_info",
             "is_ip": "is_ip" + argtext, "attr": "to_ip | " + arg, "to_net": "to_net" + argtext, "net_attr": "to_net | " + arg, "cidr": "to_cidr"}
    # the value ends with the closing word so that text with a blank is matched as well
    template = '<group name="a*">\naddr {{ n }} is {{ v | ORPHRASE | %s }} end\n</group>' % texts[calls]
    data = "\n".join("addr %d is %s end" % (i, a[3]) for i, a in enumerate(items))
    res = api.parse1(data, template)
    res = {int(r["n"]): r["v"] for r in res.get("a", [])} if isinstance(res, dict) else {}
    want = {}
    for i, (bits, n, plen, text) in enumerate(items):
        if calls == "is_ip":
            good = bits == {"": bits, "ipv4": 32, "ipv6": 128}[arg] and bits
            if good:
                want[i] = text
        elif not bits:
            want[i] = text
        elif calls == "to_ip":
            want[i] = obj(bits, n, plen)
        elif calls == "to_ip_str":
            want[i] = describe(bits, n, plen)["compressed"]
        elif calls in ("ip_info", "to_ip|ip_info"):
            want[i] = describe(bits, n, plen)
        elif calls == "attr":
            if arg in ATTRS:
                want[i] = ATTRS[arg](bits, n, plen)
            else:
                want[i] = describe(bits, n, plen)[arg]
                if not arg.startswith("with"):
                    res[i] = str(res.get(i))
        elif calls == "to_net":
            want[i] = (ipaddress.IPv4Network if bits == 32 else ipaddress.IPv6Network)((n, plen))
        elif calls == "net_attr":
            want[i] = describe(bits, n, plen)[arg]
            if arg not in ("num_addresses", "prefixlen", "with_prefixlen"):
                res[i] = str(res.get(i))
        elif calls == "cidr":
            want[i] = plen
    eq(res, want, template=template, data=data)
    if any(a[2] is not None or a[0] != 32 for a in items):
        return [calls + (" " + arg if arg else "")]
    return None


# ------------------------------------------------------------------ numbers and other conversions


@gen.cases
def numbers(d):
    fn = d.choice(["to_int", "to_float", "mac_eui", "uptime", "uptime_dict", "unrange", "to_list", "to_str", "to_cidr_bad", "to_int|to_str"])
    items = []
    for _ in range(d.int(1, 6)):
        if fn in ("to_int", "to_int|to_str"):
            k = d.int(0, 3)
            n = d.int(0, 10 ** d.choice([1, 3, 9, 25]))
            items.append([d.choice(["", "", "-", "+"]) + d.choice(["", "", "0", "00"]) + str(n) if k else
                          d.choice(["abc", "1.5", "1e3", "0x1f", "1,000", "--1", "up", "5G", "1-2"])])
        elif fn == "to_float":
            k = d.int(0, 3)
            items.append([d.choice(["", "-"]) + "%d.%s" % (d.int(0, 9999), d.text("0123456789", 1, 6)) if k else
                          d.choice(["abc", "1.5.2", "up", "12", "1,5", "5G", "."])])
        elif fn == "mac_eui":
            hexs = d.text("0123456789abcdefABCDEF", 12, 12)
            if d.bool(15):
                items.append([d.choice(["not_a_mac!", "??", "00/11", "No-MAC?", "00:1A:2b:0/", "N/A"]), ""])
                continue
            if d.bool(15):
                hexs = hexs[:d.int(1, 11)]
                items.append([hexs, hexs])
                continue
            k = d.int(0, 3)
            text = [hexs, ":".join(hexs[i:i + 2] for i in range(0, 12, 2)), "-".join(hexs[i:i + 2] for i in range(0, 12, 2)),
                    ".".join(hexs[i:i + 4] for i in range(0, 12, 4))][k]
            items.append([text, hexs])
        elif fn.startswith("uptime"):
            units = [("years", ["year", "years", "y", "yr", "yrs"]), ("months", ["month", "months", "mo", "mos"]), ("weeks", ["week", "weeks", "w", "wk", "wks"]),
                     ("days", ["day", "days", "d"]), ("hours", ["hour", "hours", "h", "hr", "hrs"]), ("mins", ["minute", "minutes", "m", "min", "mins"]),
                     ("secs", ["second", "seconds", "s", "sec", "secs"])]
            part = [[name, d.choice([0, 1, 2, 11, 52, 500, 7, 59]), d.choice(["", " ", " ", "  "]), d.choice(spell), d.choice([", ", " ", ",", "", ", "])]
                    for name, spell in units if d.bool(50)]
            if d.bool(15) or not part:
                items.append([d.choice(["never", "1.5 hours", "00:12:13", "5 parsecs", "2 days ago", "hour 1", "1 hour, 2 days", "unknown 5 minutes", "1.5 days, 2 hours", "3 weeks, 0.5 days", "2 hours 1.25 secs"]), None])
            else:
                if d.bool(30):
                    for p in part:
                        p[3] = p[3].upper()
                items.append(["".join("%d%s%s%s" % (p[1], p[2], p[3], p[4] if i < len(part) - 1 else "") for i, p in enumerate(part)),
                              [[p[0], p[1]] for p in part]])
        elif fn == "unrange":
            parts = []
            for _ in range(d.int(1, 5)):
                a = d.int(0, 30)
                parts.append([a, a + d.int(1, 8)] if d.bool(50) else [a] if d.bool(80) else [d.choice(["x", "all"])])
            items.append(parts)
        elif fn == "to_cidr_bad":
            items.append([d.choice(["abc", "a.b.c.d", "255.255.x.0", "-"])])
        else:
            items.append([gen.word(d)])
    case = {"fn": fn, "items": items}
    if fn == "unrange":
        case["rangechar"] = d.choice(["-", "..", " to ", ":"])
        case["joinchar"] = d.choice([",", ";", ", "])
    return case


def is_int(s):
    body = s[1:] if s[:1] in "+-" else s
    return bool(body) and all(c in "0123456789" for c in body)


@sub(P, "numbers", numbers, 6000, 250000, "at least one item was converted and it was not a plain copy")
def check_numbers(case):
    fn = case["fn"]
    texts, want, labels = [], [], set()
    for it in case["items"]:
        t = it[0]
        if fn in ("to_int", "to_int|to_str"):
            w = (int(t.lstrip("+-")) * (-1 if t[0] == "-" else 1)) if is_int(t) else t
            if fn != "to_int":
                w = str(w)
        elif fn == "to_float":
            sign, body = (-1, t[1:]) if t[0] == "-" else (1, t)
            a, dot, b = body.partition(".")
            if dot and a.isdigit() and b.isdigit():
                w = float("%s%se-%d" % ("-" if sign < 0 else "", a + b, len(b)))
            elif body == "12":
                w = 12.0
            else:
                w = t
        elif fn == "mac_eui":
            if it[1]:
                h = (it[1] + "0" * 12)[:12].lower()
                w = ":".join(h[i:i + 2] for i in range(0, 12, 2))
            else:
                w = t
        elif fn.startswith("uptime"):
            mult = {"years": 31536000, "months": 2592000, "weeks": 604800, "days": 86400, "hours": 3600, "mins": 60, "secs": 1}
            if it[1] is None:
                w = t
            elif fn == "uptime":
                w = sum(mult[k] * v for k, v in it[1])
            else:
                w = {k: str(v) for k, v in it[1]}
        elif fn == "unrange":
            rc, jc = case["rangechar"], case["joinchar"]
            t = jc.join(rc.join(str(x) for x in p) for p in it)
            w = jc.join(jc.join(str(x) for x in range(p[0], p[1] + 1)) if len(p) == 2 else str(p[0]) for p in it)
        elif fn == "to_list":
            w = [t]
        else:
            w = t
        texts.append(t)
        want.append({"v": w})
        if w != t:
            labels.add(fn)
    call = {"uptime": "uptimeparse", "uptime_dict": "uptimeparse(format='dict')", "to_cidr_bad": "to_cidr"}.get(fn, fn)
    if fn == "unrange":
        call = "unrange(rangechar='%s', joinchar='%s')" % (case["rangechar"], case["joinchar"])
    template = '<group name="a*">\nvalue is {{ v | re(".+?") | %s }} end\n</group>' % call
    data = "\n".join("value is %s end" % t for t in texts)
    got = api.parse1(data, template)
    eq(got, {"a": want}, template=template, data=data)
    return sorted(labels) or None
