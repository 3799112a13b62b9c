"""names of the library functions that ran under the engine"""
import sys

from symex import engine as E

seen = set()
_TOOL = 4


def _start(code, offset):
    if "/mo_parsing/" in code.co_filename:
        en = E.ENGINE
        if en is None or not en.active:
            return None
        seen.add(code.co_filename.rsplit("/", 1)[1] + ":" + code.co_qualname)
    return sys.monitoring.DISABLE


def install():
    m = sys.monitoring
    if m.get_tool(_TOOL) is None:
        m.use_tool_id(_TOOL, "symex")
        m.register_callback(_TOOL, m.events.PY_START, _start)
        m.set_events(_TOOL, m.events.PY_START)


def drain():
    return sorted(seen)
