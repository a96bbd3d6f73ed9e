"""Imports the code under test from /repo's current working tree."""
import os
import sys
import warnings

REPO = os.environ.get("CCPV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import logging  # noqa: E402

logging.disable(logging.CRITICAL)
from loguru import logger  # noqa: E402

logger.remove()
_catch = type(logger).catch


class _Through:
    """Stands in for logger.catch(reraise=True), which only adds a log record to an exception and passes it on."""

    def __call__(self, fn):
        return fn

    def __enter__(self):
        return None

    def __exit__(self, *exc):
        return False


def _fast_catch(self, *args, **kw):
    if not args and kw == {"reraise": True}:
        return _Through()
    return _catch(self, *args, **kw)


type(logger).catch = _fast_catch
import ciscoconfparse  # noqa: E402

logger.remove()
logger.disable("ciscoconfparse")

_where = os.path.realpath(ciscoconfparse.__file__)
if not _where.startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit("harness error: ciscoconfparse imported from %s, not from %s" % (_where, REPO))


def scratch():
    return os.environ.get("CCPV_SCRATCH") or "/tmp"
