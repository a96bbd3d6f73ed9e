"""P26: layer-4 port specifications."""
from .. import env  # noqa: F401
from ..core import Sub, Violation, raises, require, same
from ciscoconfparse.ccp_util import L4Object

RULE = "a service name, an operator other than eq, or a port at the edge of the range"
ASSUME = ["ASA syntax; names whose port differs between ASA releases (kerberos, radius, radius-acct, secureid-udp, sqlnet, dnsix, rtsp over udp) are only "
          "compared with themselves"]
TCP = dict(aol=5190, bgp=179, chargen=19, cifs=3020, cmd=514, ctiqbe=2748, daytime=13, discard=9, domain=53, echo=7, exec=512, finger=79, ftp=21,
           gopher=70, h323=1720, hostname=101, http=80, https=443, ident=113, imap4=143, irc=194, klogin=543, kshell=544, ldap=389,
           ldaps=636, login=513, lotusnotes=1352, lpd=515, nfs=2049, nntp=119, pop2=109, pop3=110, pptp=1723, rsh=514, rtsp=554, sip=5060,
           smtp=25, ssh=22, sunrpc=111, tacacs=49, talk=517, telnet=23, uucp=540, whois=43, www=80)
TCP.update({"citrix-ica": 1494, "ftp-data": 20, "netbios-ssn": 139, "pcanywhere-data": 5631, "pim-auto-rp": 496})
UDP = dict(biff=512, bootpc=68, bootps=67, cifs=3020, discard=9, domain=53, echo=7, http=80, isakmp=500, nameserver=42, nfs=2049,
           ntp=123, rip=520, sip=5060, snmp=161, snmptrap=162, sunrpc=111, syslog=514, tacacs=49, talk=517, tftp=69, time=37, who=513,
           www=80, xdmcp=177)
UDP.update({"mobile-ip": 434, "netbios-dgm": 138, "netbios-ns": 137, "pcanywhere-status": 5632, "pim-auto-rp": 496})
DISPUTED = {"tcp": ["kerberos", "sqlnet"], "udp": ["kerberos", "radius", "radius-acct", "secureid-udp", "dnsix", "rtsp"]}
NAMES = {"tcp": TCP, "udp": UDP}
OPS = ["eq", "", "range", "lt", "gt", "neq"]


def g_port(d, proto, disputed=True):
    k = d.draw(10)
    if k < 4:
        return d.pick(sorted(NAMES[proto]))
    if k < 6:
        return d.pick([1, 2, 65535, 65534, 22, 1024])
    return d.int(1, 65535)


def g_ok(d):
    proto = d.pick(["tcp", "udp"])

    def one():
        op = d.pick(OPS)
        if op == "range":
            a = g_port(d, proto)
            b = g_port(d, proto)
            if d.chance(0.2):
                b = a
            va, vb = num(proto, a), num(proto, b)
            return [op, a, b] if va <= vb else [op, b, a]
        return [op, g_port(d, proto)]
    return {"proto": proto, "spec": one(), "other": one(), "oproto": d.pick([proto, proto, "tcp", "udp"]), "sp": d.pick([" ", " ", "  "]),
            "pad": d.pick(["", "", " "])}


def num(proto, p):
    return NAMES[proto][p] if isinstance(p, str) else p


def ports(proto, spec):
    op, v = spec[0], [num(proto, x) for x in spec[1:]]
    return {"eq": lambda: range(v[0], v[0] + 1), "": lambda: range(v[0], v[0] + 1), "range": lambda: range(v[0], v[-1] + 1),
            "lt": lambda: range(1, v[0]), "gt": lambda: range(v[0] + 1, 65536),
            "neq": lambda: [p for p in range(1, 65536) if p != v[0]]}[op]()


def mk(c, proto, spec):
    t = c["pad"] + c["sp"].join(str(x) for x in spec if x != "") + c["pad"]
    return t, L4Object(protocol=proto, port_spec=t, syntax="asa")


def c_ok(c):
    want = list(ports(c["proto"], c["spec"]))
    if not want:  # "lt 1", "gt 65535"
        raises(lambda: mk(c, c["proto"], c["spec"]), "%r denotes no port" % (c["spec"],))
        return "empty"
    t, o = mk(c, c["proto"], c["spec"])
    what = "L4Object(%s, %r)" % (c["proto"], t)
    same(list(o.port_list), want, what + ": ports")
    same(o.protocol, c["proto"], what + ": protocol")
    z = repr(o) if len(want) < 3000 or c["pad"] else ""
    spelt = "%d" % want[0] if len(want) == 1 else "%d-%d" % (want[0], want[-1]) if len(want) > 2 and want[-1] - want[0] == len(want) - 1 else None
    if spelt and z:
        same(z, "<L4Object %s ports: %s>" % (c["proto"], spelt), what + ": repr")
    # equality with an equivalent and with another specification
    alt = ["range", want[0], want[-1]] if want[-1] - want[0] == len(want) - 1 else c["spec"]
    require(mk(c, c["proto"], alt)[1] == o, what + ": differs from %r", alt)
    require(mk(c, {"tcp": "udp", "udp": "tcp"}[c["proto"]], alt if not isinstance(alt[1], str) else ["eq", 5])[1] != o,
            what + ": equal to the same ports of the other protocol")
    op = c["oproto"]
    try:
        w2 = list(ports(op, c["other"]))
    except KeyError:
        w2 = []
    if w2:
        x = mk(c, op, c["other"])[1]
        same(x == o, op == c["proto"] and w2 == want, what + ": equal to %s %r" % (op, c["other"]))
        same(x != o, not (op == c["proto"] and w2 == want), what + ": unequal to %s %r" % (op, c["other"]))
    # equal objects are still separate ones
    twin, third = mk(c, c["proto"], alt)[1], mk(c, c["proto"], c["spec"])[1]
    require(twin == o and o == twin and third == twin, what + ": equal to %r", alt)
    twin.port_list.clear() if hasattr(twin.port_list, "clear") else setattr(twin, "port_list", [])
    same([list(o.port_list), list(third.port_list)], [want, want], what + ": ports after an equal object was changed")
    require(twin != o and o != twin, what + ": still equal to an object that was changed")
    require(not (o == None) and o != t and not (o == 5), what + ": equal to something else")  # noqa: E711
    return c["spec"][0] not in ("eq", "") or isinstance(c["spec"][1], str)


def g_bad(d):
    proto = d.pick(["tcp", "udp"])
    other = "udp" if proto == "tcp" else "tcp"
    p = lambda: str(g_port(d, proto))  # noqa: E731
    bad = lambda: d.pick(["0", "65536", "70000", "-1", "1.5", "0x16", "", "nosuch", "1e3", "8_0", "+80", "\u0663", "80-90", "80,81",  # noqa: E731
                          str(65536 + d.draw(100000)), d.str("abcxyz", 4, 9, 5) + "q"] +
                         sorted(set(NAMES[other]) - set(NAMES[proto]) - set(DISPUTED[proto])))
    k = d.draw(7)
    if k == 0:
        s = " ".join([d.pick(["eq", "lt", "gt", "neq"]), bad()])
    elif k == 1:
        s = bad()
    elif k == 2:
        s = " ".join(d.pick([["range", p(), bad()], ["range", bad(), p()], ["range", p()], ["range"], ["range", p(), p(), p()]]))
    elif k == 3:
        a, b = g_port(d, proto), g_port(d, proto)
        a, b = num(proto, a), num(proto, b)
        s = "range %d %d" % (max(a, b) + 1 if a == b else max(a, b), min(a, b))
        if max(a, b) + 1 > 65536:
            s = "range 5 4"
    elif k == 4:
        s = " ".join([d.pick(["eq", "lt", "gt", "neq"]), p(), p()])
    elif k == 5:
        s = " ".join([d.pick(["equal", "eq:", "ge", "le", "ne", "not eq", "xeq", "xrange", "EQ5"]), p()])
    else:
        s = d.pick(["", " ", "eq", "lt", "gt", "neq", "lt 1", "gt 65535"])
    return {"proto": proto, "s": s, "syntax": "asa"}


def c_bad(c):
    raises(lambda: L4Object(protocol=c["proto"], port_spec=c["s"], syntax=c["syntax"]), "L4Object(%s, %r)" % (c["proto"], c["s"]))
    return True


def c_table(c):
    proto, name = c
    o = L4Object(protocol=proto, port_spec=name, syntax="asa")
    same(list(o.port_list), [NAMES[proto][name]], "%s port %s" % (proto, name))
    return True


def c_proto(c):
    raises(lambda: L4Object(protocol=c[0], port_spec="eq 5", syntax=c[1]), "L4Object(%r, 'eq 5', syntax=%r)" % tuple(c))
    return True


ALL = [[p, n] for p in sorted(NAMES) for n in sorted(NAMES[p])]
SUBS = [Sub("spec", g_ok, c_ok, RULE, 3), Sub("bad", g_bad, c_bad, "every case", 1), Sub("table", lambda d: d.pick(ALL), c_table, "every case", 0.1, fixed=ALL),
        Sub("protocol", lambda d: d.pick([["icmp", "asa"], ["", "asa"], ["TCP ", "asa"], ["tcp", "ios"], ["tcp", ""], ["tcp-udp", "asa"]]), c_proto, "every case", 0.1)]
