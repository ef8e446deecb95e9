"""Interruptions: an exception arrives while the library runs, at a chosen one of the points where the
interpreter lets a signal handler run (a function is entered, a C function has returned, a loop goes
round) or when the stack is exhausted."""

import sys

from mc.sched import PREFIXES

MON = sys.monitoring
TOOL = 3


class TimeOut(Exception):
    """What a handler of a signal raises."""


KINDS = {"KeyboardInterrupt": KeyboardInterrupt, "TimeOut": TimeOut, "MemoryError": MemoryError}

_left = [None]
_count = [0]
_kind = [None]


def _tick():
    if _left[0] is None:
        return
    _count[0] += 1
    if _left[0] == _count[0]:
        _left[0] = -1
        raise _kind[0]("interrupted")


def _ours(code):
    return code.co_filename.startswith(PREFIXES)


def _start(code, offset):
    if not _ours(code):
        return MON.DISABLE
    _tick()


def _call(code, offset, callee, arg):
    if not _ours(code):
        return MON.DISABLE


def _c_return(code, offset, callee, arg):
    if _ours(code):
        _tick()


def _jump(code, offset, to):
    if not _ours(code):
        return MON.DISABLE
    if to <= offset:
        _tick()


def on():
    """Turn the events on; they stay on, as turning them on is slow."""
    if MON.get_tool(TOOL) is not None:
        return
    MON.use_tool_id(TOOL, "interruptions")
    e = MON.events
    for event, f in ((e.PY_START, _start), (e.CALL, _call), (e.C_RETURN, _c_return), (e.JUMP, _jump)):
        MON.register_callback(TOOL, event, f)
    MON.set_events(TOOL, e.PY_START | e.CALL | e.JUMP)


def run(f, k=0, kind="KeyboardInterrupt"):
    """(what f gave, number of points passed); at the k-th point the exception is raised."""
    on()
    _kind[0] = KINDS[kind]
    _count[0] = 0
    _left[0] = k
    try:
        return ("value", f()), _count[0]
    except BaseException as e:  # noqa
        if type(e).__name__ in ("Hang", "Violation"):
            raise
        return ("raises", type(e).__name__), _count[0]
    finally:
        _left[0] = None


def hit():
    return _left[0] == -1


def depth():
    f, n = sys._getframe(), 0
    while f is not None:
        f, n = f.f_back, n + 1
    return n


def shallow(f, room):
    """What f gives if only so many frames may be opened."""
    old = sys.getrecursionlimit()
    d = depth()
    try:
        sys.setrecursionlimit(d + room)
        try:
            got = ("value", f())
        except Exception as e:
            got = ("raises", type(e).__name__)
    except RecursionError:
        got = ("raises", "RecursionError")
    finally:
        sys.setrecursionlimit(old)
    return got
