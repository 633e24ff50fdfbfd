"""Switch points, injection points and work accounting inside the library, through sys.monitoring.

Only code objects of the library (and, on request, of the format engine it uses) are instrumented; nothing else runs slower.
"""
import gc
import os
import sys
import types

TOOL = 4
mon = sys.monitoring


class Dispatcher(object):
    def __init__(self):
        self.mode = None  # callable(code, where) or None
        self.codes = {}

    def on_line(self, code, line):
        m = self.mode
        if m is not None:
            m(code, line)

    def on_instr(self, code, offset):
        m = self.mode
        if m is not None:
            m(code, -1 - offset)


DISPATCH = Dispatcher()
_started = False


def start():
    global _started
    if not _started:
        mon.use_tool_id(TOOL, "sim")
        mon.register_callback(TOOL, mon.events.LINE, DISPATCH.on_line)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, DISPATCH.on_instr)
        _started = True


def collect(prefixes):
    """All code objects of functions whose source file is under one of `prefixes` (and code nested in them)"""
    seen = {}

    def add(code):
        if code in seen or not isinstance(code, types.CodeType):
            return
        if not code.co_filename.startswith(prefixes):
            return
        seen[code] = True
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
    # in a defined order, whatever the garbage collector's is
    return sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


_sets = {}
_current = {}


def define(name, prefixes):
    _sets[name] = collect(tuple(prefixes))


def enable(name, instructions=False):
    """Instrument the code of the set `name`"""
    start()
    ev = mon.events.LINE | (mon.events.INSTRUCTION if instructions else 0)
    want = {c: ev for c in _sets[name]}
    for c in list(_current):
        if c not in want:
            mon.set_local_events(TOOL, c, 0)
            del _current[c]
    for c, e in want.items():
        if _current.get(c) != e:
            mon.set_local_events(TOOL, c, e)
            _current[c] = e
    return len(want)


def disable():
    before = dict(_current)
    for c in list(_current):
        mon.set_local_events(TOOL, c, 0)
        del _current[c]
    return before


def restore(before):
    for c, e in before.items():
        mon.set_local_events(TOOL, c, e)
        _current[c] = e


class LineCounter(object):
    """Counts executed lines, raises `exc` beyond the budget"""

    def __init__(self, budget=None, exc=None):
        self.n, self.budget, self.exc = 0, budget, exc

    def __call__(self, code, where):
        self.n += 1
        if self.budget is not None and self.n > self.budget:
            self.budget = None
            raise self.exc("more than the budget of executed lines")


class LineRecorder(object):
    """Which lines are executed, and how often"""

    def __init__(self):
        self.n, self.sites = 0, {}

    def __call__(self, code, where):
        self.n += 1
        k = (code, where)
        self.sites[k] = self.sites.get(k, 0) + 1

    def injector(self, spec, make, prefix):
        """Where spec["frac"] of the execution is done; with spec["site"], at some execution of that one of the distinct lines
        instead (those of files under `prefix` only, when spec["own"])"""
        if "site" not in spec:
            return LineInjector(min(int(spec["frac"] * self.n), max(0, self.n - 1)), make)
        sites = sorted(self.sites, key=lambda s: (s[0].co_filename, s[0].co_firstlineno, s[0].co_qualname, s[1]))
        own = [s for s in sites if s[0].co_filename.startswith(prefix)]
        if spec.get("own") and own:
            sites = own
        if not sites:
            return LineInjector(0, make)
        at = sites[min(int(spec["site"] * len(sites)), len(sites) - 1)]
        return LineInjector(min(int(spec["frac"] * self.sites[at]), self.sites[at] - 1), make, at)


class LineInjector(object):
    """Raises make() at the k-th executed line (counted from 0), or at the k-th execution of the line `at`"""

    def __init__(self, k, make, at=None):
        self.k, self.make, self.at, self.n, self.raised, self.where = k, make, at, 0, None, None

    def __call__(self, code, where):
        if self.at is not None and self.at != (code, where):
            return
        n = self.n
        self.n = n + 1
        if n == self.k:
            self.raised = self.make()
            self.where = "%s:%s" % (os.path.basename(code.co_filename), code.co_qualname)
            raise self.raised


class active(object):
    def __init__(self, mode):
        self.mode = mode

    def __enter__(self):
        DISPATCH.mode = self.mode
        return self.mode

    def __exit__(self, *a):
        DISPATCH.mode = None
        return False


# functions implemented in C that go through all of what they are given
LINEAR = {"count", "index", "copy", "reverse", "sort", "remove", "insert", "extend", "sorted", "list", "tuple", "set", "frozenset", "dict",
          "sum", "min", "max", "any", "all", "find", "rfind", "rindex", "bytes", "bytearray", "fromkeys", "update", "deepcopy"}
BUILTIN = (types.BuiltinFunctionType, types.MethodDescriptorType, type)
CONTAINERS = (list, tuple, dict, set, frozenset, bytes, bytearray, str)


class counting_calls(object):
    """Counts the starts of Python functions, of the library, the standard library or whatever else; the jumps in them: the
    rounds of their loops, also of those that are within one line; and the items of what they give to C functions to go through"""

    def __enter__(self):
        start()
        self.n = self.jumps = self.items = 0
        mon.register_callback(TOOL, mon.events.PY_START, self._on_start)
        mon.register_callback(TOOL, mon.events.JUMP, self._on_jump)
        mon.register_callback(TOOL, mon.events.CALL, self._on_call)
        mon.set_events(TOOL, mon.events.PY_START | mon.events.JUMP | mon.events.CALL)
        return self

    def _on_start(self, code, offset):
        self.n += 1

    def _on_call(self, code, offset, function, arg):
        if isinstance(function, BUILTIN) and function.__name__ in LINEAR:
            for x in (arg, getattr(function, "__self__", None)):
                if isinstance(x, CONTAINERS):
                    self.items += len(x)

    def _on_jump(self, code, offset, target):
        self.jumps += 1

    def __exit__(self, *a):
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.PY_START, None)
        mon.register_callback(TOOL, mon.events.JUMP, None)
        mon.register_callback(TOOL, mon.events.CALL, None)
        return False
