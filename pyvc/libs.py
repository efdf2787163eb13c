"""Models (assumed contracts) of external libraries the repository calls.
Everything here is trusted and listed in the evidence."""
import z3

from .core import *
from .core import PyRaise
from .vals import *

DEFAULT_LIB = {}


def lib(path):
    def deco(f):
        DEFAULT_LIB[path] = f
        return f

    return deco


# ------------------------------------------------------------------- logging


def noop_log():
    """A logger whose methods do nothing."""
    n = Native("log", lambda it, a, k: None)
    return Obj(FakeCls("Logger"), {m: n for m in ("debug", "info", "warning", "warn", "error", "critical", "exception", "log", "setLevel")})


class FakeCls:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<fake {self.name}>"


@lib("logging.getLogger")
def _getlogger(it, a, k):
    return noop_log()


# ---------------------------------------------------------------------- time


def clock(it, name):
    """Non-decreasing clock."""
    t = it.ctx.fresh(name, z3.RealSort())
    last = it.ctx.state.get("clock:" + name)
    if last is not None:
        it.ctx.assume(t >= last)
    it.ctx.mut_dict(it.ctx.state, "clock:" + name, t)
    return SReal(t)


@lib("time.monotonic")
def _mono(it, a, k):
    return clock(it, "monotonic")


@lib("time.time")
def _time(it, a, k):
    v = clock(it, "time")
    it.ctx.assume(v.t >= 0)
    return v


# ------------------------------------------------------------------- asyncio


@lib("asyncio.sleep")
def _sleep(it, a, k):
    def go():
        it.ctx.event("sleep", a[0])
        suspend(it, "sleep")
        return None

    return Coro(go, "sleep")


def suspend(it, why):
    """A suspension point: other tasks may run. The contract's rely hook
    havocs whatever state interference may change."""
    h = it.ctx.state.get("suspend_hook")
    if h is not None:
        h(it, why)


def simple_cm(name, enter=None, exit_=None, is_async=True):
    p = "__a" if is_async else "__"

    def mk(fn):
        if is_async:
            return Native(name, lambda it, a, k: Coro(lambda: fn(it) if fn else None))
        return Native(name, lambda it, a, k: fn(it) if fn else None)

    return Obj(FakeCls(name), {p + "enter__": mk(enter), p + "exit__": mk(exit_)})


@lib("weakref.WeakSet")
def _weakset(it, a, k):
    return VSet([], it.level) if not a else it.unsupported("WeakSet of existing items")


@lib("inspect.isawaitable")
def _isawaitable(it, a, k):
    x = it.resolve(a[0])
    return isinstance(x, Coro) or (isinstance(x, Obj) and "__await__" in x.attrs)


@lib("atexit.register")
def _atexit(it, a, k):
    return a[0]
