"""AAA, terminal line, host name and global interface commands: the reported facts are those written."""
from ..ccp import *
from ..core import Sub
from ..stanza import v4

NAMES = ["default", "console", "VTY", "A_1", "list-2", "group", "login", "x+y"]
GROUPS = ["tacacs+", "radius", "TAC_1", "RAD-X", "ldap", "g", "group2"]
METHODS = ["local", "local-case", "enable", "none", "line", "krb5", "if-authenticated", "cache", "krb5-telnet"]


def sp(d):
    return " "


def g(d):
    syn = d.pick(["ios", "nxos", "ios", "nxos", "ios", "nxos", "asa"])
    k = d.pick(["host", "name"] if syn == "asa" else ["login", "enable", "cmdauth", "console", "cmdacct", "execacct", "group", "line", "host", "glob"])
    c = {"syntax": syn, "k": k, "kids": [], "before": d.pick([[], ["!"], ["version 15.0", "aaa new-model"]]), "after": d.pick([[], ["!"], ["end"]])}
    nm, gr = d.pick(NAMES), d.pick(GROUPS)
    meth = [d.pick(METHODS) for _ in range(d.draw(4))]
    tail = "".join((" " if d.chance(0.9) else "  ") + m for m in meth)
    lvl = d.pick([0, 1, 15, d.int(0, 15)])
    rt = d.pick(["none", "stop-only", "start-stop"])
    if k == "login":
        c.update(line="aaa authentication login %s group %s%s" % (nm, gr, tail), want={"list_name": nm, "group": gr, "methods": meth, "feature": "aaa authentication login"})
    elif k == "enable":
        c.update(line="aaa authentication enable %s group %s%s" % (nm, gr, tail), want={"list_name": nm, "group": gr, "methods": meth, "feature": "aaa authentication enable"})
    elif k == "cmdauth":
        c.update(line="aaa authorization commands %d %s group %s%s" % (lvl, nm, gr, tail),
                 want={"level": lvl, "list_name": nm, "group": gr, "methods": meth, "feature": "aaa authorization commands"})
    elif k == "console":
        c.update(line="aaa authorization console %d %s group %s%s" % (lvl, nm, gr, tail),
                 want={"level": lvl, "list_name": nm, "group": gr, "methods": meth, "feature": "aaa authorization console"})
    elif k == "cmdacct":
        bc, more = d.pick(["", "", " broadcast"]), d.pick(["", "", " group " + d.pick(GROUPS), " group RAD group radius", " local"])
        c.update(line="aaa accounting commands %d %s %s%s group %s%s" % (lvl, nm, rt, bc, gr, more),
                 want={"level": lvl, "list_name": nm, "record_type": rt, "group": gr, "feature": "aaa accounting commands"})
    elif k == "execacct":
        bc, more = d.pick(["", "", " broadcast"]), d.pick(["", "", " group " + d.pick(GROUPS), " group RAD group radius", " local"])
        c.update(line="aaa accounting exec %s %s%s group %s%s" % (nm, rt, bc, gr, more), want={"list_name": nm, "record_type": rt, "group": gr, "feature": "aaa accounting exec"})
    elif k == "group":
        proto = d.pick(["tacacs+", "radius"])
        w = {"protocol": proto, "group": gr, "feature": "aaa group server", "vrf": "", "source_interface": "", "server_private": []}
        kids = []
        for _ in range(d.draw(4)):
            a = v4(d) if d.chance(0.7) else d.pick(["tac1.example.com", "ISE-1", "2001:db8::49", "srv_2"])
            kids.append("server-private " + a + d.pick(["", " key 7 0822455D0A16", " key foo", " port 49", " single-connection key x"]))
            w["server_private"].append(a)
        for _ in range(d.draw(3)):
            kids.append(d.pick(["server " + v4(d), "server name TAC1", "deadtime 10", "! server-private 9.9.9.9 key x", "no server-private 9.9.9.8 key x", "ip tacacs", "no ip vrf forwarding X"]))
        if d.chance(0.5):
            w["vrf"] = d.pick(["MGMT", "management", "a", "V-1"])
            kids.append((d.pick(["ip vrf forwarding ", "vrf forwarding "]) if syn == "ios" else "use-vrf ") + w["vrf"])
        if d.chance(0.5):
            w["source_interface"] = d.pick(["Loopback0", "Vlan100", "GigabitEthernet0/0", "mgmt0", "loopback 0"])
            kids.append(("ip %s source-interface " % proto.strip("+") if syn == "ios" else "source-interface ") + w["source_interface"])
        w["server_private"] = sorted(set(w["server_private"]))
        c.update(line="aaa group server %s %s" % (proto, gr), kids=d.shuffle(kids), want=w)
    elif k == "line":
        t = d.pick(["con", "vty", "aux", "tty", ""] if syn == "ios" else ["vty", "console", ""])
        a = d.int(0, 10)
        rng = [a] + ([a + d.int(0, 90)] if d.chance(0.5) else [])
        if syn == "nxos" and t:
            rng = []
        et = []
        kids = []
        if d.chance(0.6):
            et = [d.int(0, 35791)] + ([d.int(0, 2147483)] if d.chance(0.6) else [])
            kids.append("exec-timeout " + " ".join(map(str, et)))
        for _ in range(d.draw(3)):
            kids.append(d.pick(["password 7 0822455D0A16", "transport input ssh", "no exec-timeout", "session-timeout 5", "login", "! exec-timeout 3 3", "session-limit 5"]))
        c.update(line=" ".join(["line"] + ([t] if t else []) + [str(x) for x in rng]), kids=d.shuffle(kids), et=et,
                 want={"name": t, "line_range": rng, "range_str": " ".join(map(str, rng)), "is_accessline": True, "parse_exectimeout": et})
    elif k == "host":
        h = d.pick(["R1", "core-sw.example", "x_1", "hostname", "no"])
        c.update(line="hostname" + d.pick([" ", "  "]) + h, want={"hostname": h})
    elif k == "name":
        h, a = d.pick(["web-1", "name", "inside_net", "A", "10.1.1.9"]), v4(d)
        c.update(line="name %s %s%s" % (a, h, d.pick(["", " description the web server", " description name 1.1.1.1 x"])),
                 want={"name": h, "addr": a, "result_dict": {"name": h, "addr": a}})
    else:
        opts = [("no cdp run", "has_cdp_disabled"), ("logging event link-status global", "has_intf_logging_def"),
                ("spanning-tree portfast bpduguard default", "has_stp_portfast_bpduguard_def"), ("spanning-tree portfast default", "has_stp_portfast_def")]
        line, fact = d.pick(opts)
        w = {f: f == fact for _, f in opts}
        if syn == "nxos":
            w.pop("has_stp_portfast_def")
        w["has_stp_mode_rapidpvst"] = False
        c.update(line=line, want=w)
    return c


def c_(c):
    lines = c["before"] + [c["line"]] + [" " + x for x in c["kids"]] + c["after"]
    p = parse(lines, syntax=c["syntax"], factory=True)
    o = list(p.objs)[len(c["before"])]
    same(o.text, c["line"], "line")
    for _ in range(2):
        for f, v in c["want"].items():
            r = getattr(o, f)
            if f == "server_private":
                r = sorted(r)
            elif f in ("line_range", "parse_exectimeout"):
                r = list(r)
            same(r, v, "%s of %r" % (f, lines))
        if c.get("et"):
            same([o.manual_exectimeout_minutes(), o.manual_exectimeout_seconds()], [c["et"][0], c["et"][1] if len(c["et"]) > 1 else 0], "exec-timeout of %r" % lines)
    return c["k"]


SUBS = [Sub("facts", g, c_)]
RULE = "A command rendered from generated fields; every case is non-trivial, labelled by the kind of command."
ASSUME = "AAA method lists that start with a server group; commands start at column zero."
