"""Deterministic step counting and line coverage for the code under test
(sys.monitoring, per code object of the dfols package only).

A "step" is a backward jump (one loop iteration) executed in dfols.  Steps are
the simulator's notion of time for liveness: a client that executes too many of
them since its last evaluation is stuck, whatever the wall clock says."""
import os
import sys
import types

from . import env

TOOL = 4
LIMIT = int(os.environ.get("DST_STEP_LIMIT", "3000000"))
STATE = {"n": 0, "total": 0, "lines": None, "limit": LIMIT}
_installed = []


class SimStuck(BaseException):
    """Raised inside a client that makes no progress (deterministic counters)."""


def _codes():
    root = os.path.dirname(os.path.abspath(env.dfols.__file__)) + os.sep
    seen = set()
    stack = []
    for mod in env.DFOLS_MODULES:
        for v in vars(mod).values():
            if isinstance(v, types.FunctionType):
                stack.append(v.__code__)
            elif isinstance(v, type):
                for w in vars(v).values():
                    f = getattr(w, "__func__", w)
                    if isinstance(f, property):
                        f = f.fget
                    if isinstance(f, types.FunctionType):
                        stack.append(f.__code__)
    while stack:
        c = stack.pop()
        if c in seen or not os.path.abspath(c.co_filename).startswith(root):
            continue
        seen.add(c)
        stack.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    return seen


def install():
    if _installed:
        return
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        _installed.append(0)
        return
    E = mon.events
    mon.use_tool_id(TOOL, "dst")
    st = STATE

    def on_jump(code, off, dst):
        if dst <= off:
            st["n"] += 1
            if st["n"] > st["limit"]:
                st["total"] += st["n"]
                st["n"] = 0
                raise SimStuck("loop steps since last evaluation: >%d in %s" % (st["limit"], code.co_name))

    def on_line(code, line):
        s = st["lines"]
        if s is not None:
            s.add((code.co_name, line))
        return mon.DISABLE
    mon.register_callback(TOOL, E.JUMP, on_jump)
    mon.register_callback(TOOL, E.LINE, on_line)
    codes = _codes()
    nlines = 0
    for c in codes:
        mon.set_local_events(TOOL, c, E.JUMP | E.LINE)
        nlines += len({l for _, _, l in c.co_lines() if l is not None and l != c.co_firstlineno})
    STATE["all_lines"] = nlines
    _installed.append(len(codes))


def reset_eval():
    STATE["total"] += STATE["n"]
    STATE["n"] = 0


def begin_run():
    """A new world starts."""
    STATE["total"] += STATE["n"]
    STATE["n"] = 0


def begin_process():
    """A new run (in its own process) starts."""
    STATE["n"] = 0
    STATE["total"] = 0
    STATE["lines"] = set()
    mon = getattr(sys, "monitoring", None)
    if mon is not None:
        mon.restart_events()
