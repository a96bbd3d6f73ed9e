"""P43: DNS lookups, against a name server that lives in the harness (nothing is sent)."""
import ipaddress
import time
import warnings

from .. import env  # noqa: F401
from ..addr import g_addr
from ..core import Reject, Sub, raises, require, same
import dns.exception
import dns.flags
import dns.message
import dns.name
import dns.query
import dns.rcode
import dns.rdatatype
import dns.resolver
import dns.reversename
import dns.rrset
from ciscoconfparse.ccp_util import check_valid_ipaddress, dns6_lookup, dns_lookup, dns_query, reverse_dns_lookup

RULE = "the name server has an answer"
ASSUME = ["the transport functions of dnspython (dns.query.udp, dns.query.tcp) are replaced by a name server in the harness; zone transfers are left out",
          "names have two or more labels"]
TYPES = ["A", "AAAA", "CNAME", "MX", "NS", "PTR", "TXT"]
AL = "abcdefghijklmnopqrstuvwxyz0123456789"
warnings.simplefilter("ignore")


def g_host(d):
    return ".".join(d.str(AL, 1, 6, 3) for _ in range(d.int(2, 4)))


def g_v4(d):
    return str(ipaddress.IPv4Address(g_addr(d, 32)))


def g_v6(d):
    return str(ipaddress.IPv6Address(g_addr(d, 128)))


def canon(t, x):
    """The textual form of an address record, as the standard library writes it."""
    return str({"A": ipaddress.IPv4Address, "AAAA": ipaddress.IPv6Address}[t](x)) if t in ("A", "AAAA") else x


def g_rec(d, t):
    if t == "A":
        return [g_v4(d)]
    if t == "AAAA":
        return [g_v6(d)]
    if t == "MX":
        return [d.draw(65536), g_host(d)]
    if t == "TXT":
        return [d.str(AL + " =:;.-", 1, 20, 6) for _ in range(d.int(1, 2))]
    return [g_host(d)]


def g_query(d):
    t = d.pick(TYPES)
    c = {"t": t, "server": g_v4(d), "timeout": d.pick([0.5, 1, 2.0, 7, "3"]), "case": d.chance(0.2), "fail": d.pick([None] * 8 + ["nx", "servfail", "refused", "empty", "timeout"])}
    c["name"] = (g_v4(d) if d.chance(0.6) else g_v6(d)) if t == "PTR" else g_host(d)
    recs = []

    def one():
        r = g_rec(d, t)
        if r not in recs:
            recs.append(r)
    d.list(one, 1, 1 if t in ("CNAME", "PTR") else 8, 2)
    c["recs"] = recs
    c["via"] = g_host(d) if t in ("A", "AAAA") and d.chance(0.25) else None
    c["big"] = d.chance(0.2)
    return c


class Server:
    def __init__(self, c, owner):
        self.c, self.owner, self.asked = c, owner, []

    def answer(self, q, where, tcp, timeout, port):
        c = self.c
        self.asked.append([q.question[0].name.to_text().lower(), dns.rdatatype.to_text(q.question[0].rdtype), where, port, timeout])
        r = dns.message.make_response(q)
        r.flags |= dns.flags.RA
        n = q.question[0].name
        if c["fail"] == "timeout":
            self.clock.sleep(5 if timeout is None else timeout)
            raise dns.exception.Timeout
        if c["fail"] in ("nx", "servfail", "refused") or n.to_text().lower() != self.owner or self.asked[-1][1] != c["t"]:
            r.set_rcode({"servfail": dns.rcode.SERVFAIL, "refused": dns.rcode.REFUSED}.get(c["fail"], dns.rcode.NXDOMAIN))
            return r
        if c["fail"] == "empty":
            return dns.message.from_wire(r.to_wire())
        if c["big"] and not tcp:
            raise dns.message.Truncated(message=r)
        if c["via"]:
            r.answer.append(dns.rrset.from_text(n, 60, "IN", "CNAME", c["via"] + "."))
            n = dns.name.from_text(c["via"] + ".")
        r.answer.append(dns.rrset.from_text(n, 60, "IN", c["t"], *[rdata(c["t"], x) for x in c["recs"]]))
        return dns.message.from_wire(r.to_wire())


def rdata(t, x):
    if t == "TXT":
        return " ".join('"%s"' % y for y in (z.replace(";", "\\;") for z in x))
    return " ".join(str(y) for y in x) + ("" if t in ("A", "AAAA") else ".")


class Clock:
    """The time as the resolver sees it: it passes when something waits, however busy the machine is."""
    now = 1e9

    def time(self):
        self.now += 1e-6
        return self.now

    def sleep(self, s):
        self.now += s

    def __getattr__(self, name):
        return getattr(time, name)


def serve(server, fn):
    saved = dns.query.udp, dns.query.tcp, dns.resolver.Resolver.read_resolv_conf, dns.resolver.default_resolver
    server.clock = dns.resolver.time = Clock()

    def conf(self, f):
        self.nameservers, self.domain, self.search = ["203.0.113.53"], dns.name.root, []
    dns.query.udp = lambda q, where, timeout=None, port=53, **kw: server.answer(q, where, False, timeout, port)
    dns.query.tcp = lambda q, where, timeout=None, port=53, **kw: server.answer(q, where, True, timeout, port)
    dns.resolver.Resolver.read_resolv_conf = conf
    dns.resolver.default_resolver = None
    try:
        return fn()
    finally:
        dns.query.udp, dns.query.tcp, dns.resolver.Resolver.read_resolv_conf, dns.resolver.default_resolver = saved
        dns.resolver.time = time


def owner(c):
    return (dns.reversename.from_address(c["name"]).to_text() if c["t"] == "PTR" else c["name"] + ".").lower()


def c_query(c):
    name, t = c["name"], c["t"]
    s = Server(c, owner(c))
    what = "dns_query(%r, %r, %r) with %s" % (name, t, c["server"], c["fail"] or "%r (via %r)" % (c["recs"], c["via"]))
    r = serve(s, lambda: dns_query(name.upper() if c["case"] and t != "PTR" else name, t.lower() if c["case"] else t, c["server"], c["timeout"]))
    require(s.asked, what + ": nothing was asked")
    for a in s.asked:
        same(a[2:4], [c["server"], 53], what + ": server asked")
        same(a[1], t, what + ": type asked")
        require(a[4] is None or a[4] <= float(c["timeout"]) + 0.01, what + ": timeout %r", a[4])
    same(s.asked[0][0], owner(c), what + ": name asked")
    require(isinstance(r, set), what + ": returned a %s", type(r).__name__)
    for x in r:
        same(x.query_type, t, what + ": query_type")
        require(0 <= x.duration < 60, what + ": duration %r", x.duration)
    if c["fail"]:
        same(len(r), 1, what + ": number of responses")
        x = r.pop()
        require(x.has_error and str(x.error_str) and x.result_str == "" and str(x) == "", what + ": response %r", x)
        require(isinstance(x.error_str, dns.exception.DNSException), what + ": error %r", x.error_str)
        return False
    for x in r:
        require(not x.has_error and x.error_str == "", what + ": response %r", x)
        same(str(x), x.result_str, what + ": text of the response")
    if t == "MX":
        want = sorted([q, h + "."] for q, h in c["recs"])
        got = sorted([x.preference, x.result_str.lower()] for x in r)
    else:
        want = sorted("".join(x) if t == "TXT" else x[0] if t in ("A", "AAAA") else x[0] + "." for x in c["recs"])
        got = sorted(x.result_str if t == "TXT" else canon(t, x.result_str.lower()) for x in r)
        same({x.preference for x in r}, {-1}, what + ": preference")
    same(got, want, what + ": responses")
    return True


def g_old(d):
    c = g_query(d)
    c["fn"] = d.pick(["dns_lookup", "dns6_lookup", "reverse"])
    t = {"dns_lookup": d.pick(["A", "AAAA", "NS", "MX", "CNAME"]), "dns6_lookup": "AAAA", "reverse": "PTR"}[c["fn"]]
    if c["t"] != t:
        c["t"], c["via"] = t, None
        c["recs"] = [g_rec(d, t)]
        c["name"] = g_v4(d) if t == "PTR" else g_host(d)
    c["default"] = d.chance(0.3)
    return c


def c_old(c):
    if c["fn"] == "dns_lookup" and c["fail"]:
        raise Reject()
    t = c["t"]
    s = Server(c, owner(c))
    kw = {} if c["default"] and c["fn"] != "reverse" else {"server": c["server"]}
    what = "%s(%r, %r) with %s" % (c["fn"], c["name"], kw, c["fail"] or c["recs"])
    fn = {"dns_lookup": lambda: dns_lookup(c["name"], timeout=1, record_type=t, **kw), "dns6_lookup": lambda: dns6_lookup(c["name"], timeout=1, **kw),
          "reverse": lambda: reverse_dns_lookup(c["name"], timeout=1.0, **kw)}[c["fn"]]
    r = serve(s, fn)
    for a in s.asked:
        same(a[1:4], [t, kw.get("server", "203.0.113.53"), 53], what + ": question asked")
    same(s.asked[0][0], owner(c), what + ": name asked")
    same(bool(r["error"]), bool(c["fail"]), what + ": error")
    if c["fn"] == "reverse":
        same(r["addrs"], [c["name"]], what + ": addrs")
        same(r["name"].lower() if c["fn"] == "reverse" else r["name"], "" if c["fail"] else c["recs"][0][0] + ".", what + ": name")
    else:
        same(r["name"], c["name"], what + ": name")
        want = [] if c["fail"] else sorted(x[0] if t in ("A", "AAAA") else rdata(t, x) for x in c["recs"])
        same(sorted(canon(t, x.lower()) for x in r["addrs"]), want, what + ": addrs")
    return not c["fail"]


def g_valid(d):
    a = g_v4(d) if d.chance(0.5) else g_v6(d)
    return {"a": a, "pad": [d.pick(["", " "]), d.pick(["", " "])], "bad": d.pick([None, None, "256.1.1.1", "1.2.3", "g::1", "1::2::3", "", "a.b.c.d", "1.2.3.4.5", ":::"]),
            "query": d.pick([["", "A", "1.1.1.1"], ["x.y", "SOA", "1.1.1.1"], ["x.y", "A", ""], ["x.y", "", "1.1.1.1"], ["not.an.address", "PTR", "1.1.1.1"], ["x.y", "A", "1.1.1.1", 0], ["x.y", "A", "1.1.1.1", -1]])}


def c_valid(c):
    if c["bad"] is not None:
        raises(lambda: check_valid_ipaddress(c["bad"]), "check_valid_ipaddress(%r)" % c["bad"])
        s = Server({"t": "A", "fail": None}, "")
        raises(lambda: serve(s, lambda: dns_query(*c["query"])), "dns_query(*%r)" % (c["query"],))
        same(s.asked, [], "questions asked by dns_query(*%r)" % (c["query"],))
        return False
    a = c["pad"][0] + c["a"] + c["pad"][1]
    same(tuple(check_valid_ipaddress(a)), (c["a"], 6 if ":" in a else 4), "check_valid_ipaddress(%r)" % a)
    return True


SUBS = [Sub("query", g_query, c_query, RULE, 3), Sub("older functions", g_old, c_old, RULE, 1), Sub("validity", g_valid, c_valid, "a valid address", 1)]
