"""P33: ASA access-list lines."""
from .. import env  # noqa: F401
from ..core import Sub, raises, require, same
from ..ccp import parse
from ..stanza import v4, mask

RULE = "the line has ports, an ICMP type, logging or a time range"
ASSUME = ["extended, standard and remark lines in the forms the library documents; either inactive or a time range",
          "other kinds of lines (ethertype, webtype, IPv6 any6) are not covered"]
PROTO = {"ip": 0, "tcp": 6, "udp": 17, "ah": 51, "eigrp": 88, "esp": 50, "gre": 47, "igmp": 2, "igrp": 9, "ipinip": 4, "ipsec": 50, "ospf": 89, "pcp": 108, "pim": 103,
         "pptp": 47, "snp": 109, "icmp": 1}
ICMP = ("alternate-address conversion-error echo-reply echo information-reply information-request mask-reply mask-request mobile-redirect parameter-problem redirect "
        "router-advertisement router-solicitation source-quench time-exceeded timestamp-reply timestamp-request traceroute unreachable 0 8 13").split()
LEVELS = "alerts critical debugging emergencies errors informational notifications warnings 0 3 7".split()
ACL = ["TESTME_01", "INSIDE_in", "A", "remark", "extended", "101", "x-y.z", "standard", "INSIDE"]
OBJ = ["SRC", "DST", "any", "log", "host", "eq", "G1", "inactive", "10.0.0.0"]
REM = ["TESTING THE REMARK FIELD", "x", "extended permit ip any any log", "! no", "allow  web", "log disable time-range Z", "r 10.0.0.0 255.0.0.0"]
PORT = ["www", "https", "ssh", "1024", "1", "65535", "log"]


def addr(d):
    k = d.draw(6)
    if k == 0:
        return "any", "network"
    if k == 1:
        return "any4", "network"
    if k == 2:
        return "host " + v4(d), "network"
    if k == 3:
        return "object " + d.pick(OBJ), "object"
    if k == 4:
        return "object-group " + d.pick(OBJ), "object-group"
    return "%s %s" % (d.pick(["10.0.0.0", "192.0.2.0", "0.0.0.0", "inside_net", v4(d)]), mask(d.int(0, 32))), "network"


def ports(d):
    k = d.draw(8)
    if k > 4:
        return []
    if k == 4:
        return ["object-group", d.pick(OBJ)]
    if k == 3:
        return ["range", d.pick(PORT), d.pick(PORT)]
    return [d.pick(["eq", "neq", "lt", "gt"]), d.pick(PORT)]


def line(d, kinds=((6, "extended"), (1, "standard"), (1, "remark"))):
    r = {"acl_name": d.pick(ACL), "remark": "", "time_range": "", "log": False, "log_interval": -1, "log_level": "", "disable": False, "ip_protocol_object": ""}
    w = ["access-list", r["acl_name"]]
    kind = d.weighted(list(kinds))
    if kind == "remark":
        r.update(action="remark", remark=d.pick(REM), ip_protocol=-1, src_addr_method="", dst_addr_method="")
        return " ".join(w + ["remark", r["remark"]]), r, False
    r["action"] = d.pick(["permit", "deny"])
    w += [kind, r["action"]]
    if kind == "standard":
        a = d.pick(["any", "any4", "host " + v4(d), "%s %s" % (v4(d), mask(d.int(0, 32)))])
        r.update(ip_protocol=0, src_addr_method="network", dst_addr_method="network")
        return " ".join(w + [a]), r, False
    p = d.pick(["tcp", "udp", "icmp", "ip", "object-group", d.pick(sorted(PROTO)), str(d.int(0, 255))])
    extra = False
    if p == "object-group":
        r["ip_protocol_object"] = d.pick(["MYPROTO", "G1", "tcp", "ip"])
        w += [p, r["ip_protocol_object"]]
        r["ip_protocol"] = 65535
    else:
        w.append(p)
        r["ip_protocol"] = PROTO[p] if p in PROTO else int(p)
    a, r["src_addr_method"] = addr(d)
    w.append(a)
    sp = ports(d) if p in ("tcp", "udp") else []
    w += sp
    a, r["dst_addr_method"] = addr(d)
    w.append(a)
    dp = ports(d) if p in ("tcp", "udp") else []
    if dp and dp[0] == "object-group" and sp and sp[0] == "object-group":
        dp = []
    w += dp
    extra = bool(sp or dp)
    if p == "icmp" and d.chance(0.5):
        w += d.pick([[d.pick(ICMP)], [d.pick(ICMP)], ["object-group", d.pick(OBJ)], [d.pick(ICMP), str(d.int(0, 255))]])
        extra = True
    if d.chance(0.5):
        extra = True
        w.append("log")
        r.update(log=True, log_interval=300, log_level="informational")
        if d.chance(0.6):
            r["log_level"] = d.pick(LEVELS)
            w.append(r["log_level"])
        if d.chance(0.5):
            r["log_interval"] = d.pick([1, 300, 600, d.int(1, 600)])
            w += ["interval", str(r["log_interval"])]
        if d.chance(0.3):
            r["disable"] = True
            w.append("disable")
    k = d.draw(4)
    if k == 1:
        w.append("inactive")
    elif k == 2:
        r["time_range"] = d.pick(["MYTIME", "inactive", "log", "T1.x"])
        w += ["time-range", r["time_range"]]
        extra = True
    return d.weighted([(5, " "), (1, "  ")]).join(w), r, extra


NOISE = ["access-group A in interface inside", "hostname access-list", "!", "name 10.1.1.1 A", "no access-list A extended permit ip any any", "crypto map M 1 match address A"]


def g(d):
    return {"lines": [list(line(d)) if d.chance(0.85) else [d.pick(NOISE), None, False] for _ in range(d.pick([1, 1, 2, 4]))]}


def c(case):
    lines = [x[0] for x in case["lines"]]
    p = parse(lines, syntax="asa", factory=True)
    acls = {}
    for o, (text, want, _) in zip(list(p.objs), case["lines"]):
        if want is None:
            continue
        same([type(o).__name__, o.text], ["ASAAclLine", text], "line %r: type" % text)
        for _ in range(2):
            got = dict(o.result_dict)
            for k in sorted(want):
                same((got.get(k) or "") if want[k] == "" else got.get(k), want[k], "line %r: %s" % (text, k))
            extra = set(got) - set(want)
            require(not extra, "line %r: unknown fields %r", text, extra)
        same([o.src_addr_method, o.dst_addr_method], [want["src_addr_method"], want["dst_addr_method"]], "line %r: address methods" % text)
        acls.setdefault(want["acl_name"], []).append(text)
    same(dict((k, [o.text for o in v]) for k, v in p.objs.access_list.items()), acls, "%r: access lists by name" % lines)
    return any(x[2] for x in case["lines"])


def g_bad(d):
    t, r, _ = line(d, ((4, "extended"), (1, "standard")))
    w = t.split()
    k = d.draw(6)
    if k == 0:
        w.append(d.pick(["garbage", "log x", "permit", "interval"]))
    elif k == 1:
        w[3] = d.pick(["allow", "permitt", "VpAAmit987", "x"])
    elif k == 2:
        w[2] = d.pick(["extendedd", "webtypo", "x"])
    elif k == 3:
        w = w[:d.int(3, 4)]
    elif k == 4:
        w[4:] = ["nosuchproto", "any", "any"] if w[2] == "extended" else ["any5"]
    else:
        w = w[:2] + w[3:] if w[2] == "extended" and w[4] != w[2] else w[:3]
    t = " ".join(w)
    return {"line": t, "k": k}


def c_bad(case):
    from ciscoconfparse.models_asa import ASAAclLine
    raises(lambda: ASAAclLine(all_lines=[case["line"]], line=case["line"]), "access-list line %r" % case["line"])
    return True


SUBS = [Sub("lines", g, c, RULE, 3), Sub("bad", g_bad, c_bad, "every case", 0.5)]
