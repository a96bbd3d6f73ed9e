"""P46: control of the library's log messages."""
import contextlib
import functools
import io
import sysconfig

from ..env import logger
from ..core import Sub, raises, require, same
from ..ccp import parse, snapshot
import ciscoconfparse.ciscoconfparse as cc
from ciscoconfparse import ccp_logger_control, configure_loguru

sysconfig.get_path = functools.lru_cache(maxsize=None)(sysconfig.get_path)  # loguru asks 44 times for each handler
RULE = "a message reached a handler after at least two control operations"
ASSUME = ["messages are emitted under the module names of the library, as its own code does; handlers are text streams"]
LEVELS = ["TRACE", "DEBUG", "INFO", "SUCCESS", "WARNING", "ERROR", "CRITICAL"]
NAMES = ["ciscoconfparse.ccp_util", "ciscoconfparse.ciscoconfparse", "ciscoconfparse", "ciscoconfparse.models_cisco", "user_module", "ciscoconfparse_tools"]


def g(d):
    def op():
        k = d.pick(["add", "add", "add", "remove", "disable", "enable", "emit", "emit", "emit", "configure", "parse", "bad"])
        e = {"op": k, "level": d.pick(LEVELS), "name": d.pick(NAMES), "k": d.draw(12), "color": d.chance(0.4), "ro": d.chance(0.97)}
        if k == "bad":
            e["what"] = d.draw(6)
        return e
    return {"ops": d.list(op, 1, 16, 7)}


def emit(name, level, text):
    exec("logger.log(level, text)", {"__name__": name, "logger": logger, "level": level, "text": text})


def mine(name):
    return name == "ciscoconfparse" or name.startswith("ciscoconfparse.")


BAD = [lambda: ccp_logger_control(action="stop"), lambda: ccp_logger_control(action=""), lambda: ccp_logger_control(action=5),
       lambda: ccp_logger_control(action="remove", active_handlers="0"), lambda: ccp_logger_control(action="remove", active_handlers=["x"]),
       lambda: configure_loguru(action="stop")]


def c(case):
    handlers = []  # [ids, stream, level, color, expected messages]
    enabled = True
    conf = []
    n = ops = 0
    hit = False
    old = cc.ACTIVE_LOGURU_HANDLERS
    out = io.StringIO()
    logger.remove()
    cc.ACTIVE_LOGURU_HANDLERS = [987654]  # a handler which is gone, as after logger.remove()
    try:
        logger.enable("ciscoconfparse")
        for i, e in enumerate(case["ops"] + [{"op": "emit", "name": NAMES[0], "level": "CRITICAL"}]):
            what = " after %r" % [[x["op"], x.get("level"), x.get("name")] for x in case["ops"][:i + 1]]
            k = e["op"]
            if k == "add":
                s = io.StringIO()
                have = [h[0][0] for h in handlers][:e["k"] // 2 % 5]
                more = {"active_handlers": list(have)} if have else {}
                ids = ccp_logger_control(sink=s, action="add", level=e["level"], read_only=e["ro"], colorize=e["color"], **more)
                require(isinstance(ids, list) and ids[:-1] == have and isinstance(ids[-1], int), "handlers %r added to %r" % (ids, have) + what)
                ids = ids[-1:]
                handlers.append([ids, s, e["level"], e["color"], [], e["ro"]])
                enabled = True
                ops += 1
            elif k == "remove":
                if handlers:
                    at = e["k"] % len(handlers)
                    gone = handlers[at:at + 1 + e["k"] // 2]
                    handlers[at:at + len(gone)] = []
                    ids = [x for h in gone for x in h[0]]
                    require(ccp_logger_control(action="remove", active_handlers=ids) is True, "result of remove" + what)
                    for h in gone:
                        check(h, what)
                    ops += 1
            elif k in ("disable", "enable"):
                require(ccp_logger_control(action=k) is True, "result of " + k + what)
                enabled = k == "enable"
                ops += 1
            elif k == "configure":
                with contextlib.redirect_stdout(out):
                    r = configure_loguru(read_only=True, active_handlers=list(conf), level=e["level"], colorize=e["color"])
                require(isinstance(r, list) and len(r) == 1 and r[0] not in conf, "handlers %r configured" % (r,) + what)
                conf = list(r)
                for h in [h for h in handlers if len(h) > 6]:  # the one configured before, now replaced
                    handlers.remove(h)
                    check(h, what)
                cut = len(out.getvalue())
                handlers.append([conf, out, e["level"], e["color"], [], True, cut])
                enabled = True
                ops += 1
            elif k == "parse":
                lines = ["interface Vlan1", " shutdown"]
                p = parse(lines)
                mute = io.StringIO()
                with contextlib.redirect_stdout(mute):
                    q = parse(lines, read_only=True)
                same(snapshot(q), snapshot(p), "read-only parse" + what)
                for x in cc.ACTIVE_LOGURU_HANDLERS:
                    logger.remove(x)
                cc.ACTIVE_LOGURU_HANDLERS = [987654]
                drop(handlers)
                conf, enabled = [], True
            elif k == "bad":
                raises(BAD[e["what"]], "invalid control %d" % e["what"] + what)
                drop(handlers)  # the refusal itself may have been logged
                conf = []
            else:
                n += 1
                text = "message-%d-end" % n
                emit(e["name"], e["level"], text)
                for h in handlers:
                    if (enabled or not mine(e["name"])) and LEVELS.index(e["level"]) >= LEVELS.index(h[2]):
                        h[4].append([text, e["level"]])
                        hit = hit or ops > 1
        for h in handlers:
            check(h, " after %r" % case["ops"])
    finally:
        logger.remove()
        logger.disable("ciscoconfparse")
        cc.ACTIVE_LOGURU_HANDLERS = old
    return hit


def drop(handlers):
    for h in handlers:
        for x in h[0]:
            logger.remove(x)
    handlers.clear()


def check(h, what):
    if not h[5]:
        logger.complete()
    text = h[1].getvalue()
    if len(h) > 6:
        text = text[h[6]:]
    rows = [x for x in text.split("\n") if x.strip()]
    got = []
    for x in rows:
        require("message-" in x, "a handler got %r" % x + what)
        head, tail = x.split("message-", 1)
        got.append(["message-" + tail.split("-end")[0] + "-end", [lv for lv in LEVELS if lv in head][:1]])
    same(got, [[t, [lv]] for t, lv in h[4]], "messages of a handler for %s" % h[2] + what)
    same("\x1b[" in text, h[3] and bool(rows), "colors of a handler" + what)


SUBS = [Sub("control", g, c)]
