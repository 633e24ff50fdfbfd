"""Finds the state that outlives a call: what of the library's module, class, function and object attributes changes while it is used.

Only guides the scheduler (threads are switched more often in code that refers to such state); no verdict depends on it.
"""
import enum
import io
import sys
import types

ATOMS = (int, float, complex, str, bytes, bool, type(None), enum.Enum)
_base = None
_ever = set()


def _walk(prefix):
    """Yields (name, holder codes, value): name is what code refers to the state by"""
    seen = set()
    todo = []
    for m in [m for n, m in sorted(sys.modules.items()) if n == prefix or n.startswith(prefix + ".")]:
        for k, v in sorted(vars(m).items()):
            if not k.startswith("__"):
                todo.append((k, v, 0))
    while todo:
        name, v, depth = todo.pop()
        if isinstance(v, types.ModuleType) or depth > 12:
            continue
        if isinstance(v, ATOMS):
            yield name, v
            continue
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, types.FunctionType):
            for k, x in sorted(vars(v).items()):
                todo.append((k, x, depth + 1))
            for k, x in zip(v.__code__.co_varnames, v.__defaults__ or ()):
                todo.append((k, x, depth + 1))
            for k, c in zip(v.__code__.co_freevars, v.__closure__ or ()):
                try:
                    todo.append((k, c.cell_contents, depth + 1))
                except ValueError:
                    pass
        elif isinstance(v, (staticmethod, classmethod)):
            todo.append((name, v.__func__, depth + 1))
        elif isinstance(v, property):
            todo.extend((name, f, depth + 1) for f in (v.fget, v.fset) if f is not None)
        elif isinstance(v, type):
            if v.__module__.startswith(prefix) and not issubclass(v, enum.Enum):
                for k, x in sorted(vars(v).items()):
                    if not k.startswith("__"):
                        todo.append((k, x, depth + 1))
        elif isinstance(v, (dict, list, set, tuple, frozenset, bytearray)):
            yield name, v
            items = list(v.items()) if isinstance(v, dict) else [] if isinstance(v, (bytearray, set, frozenset)) else list(enumerate(v))
            for _, x in items:
                if not isinstance(x, ATOMS):
                    todo.append((name, x, depth + 1))
        elif isinstance(v, io.IOBase):
            yield name, v
        else:
            if callable(getattr(v, "cache_info", None)):
                yield name, v
            for k, x in sorted(vars(v).items()) if hasattr(v, "__dict__") else ():
                todo.append((k, x, depth + 1))


def _mark(v):
    if isinstance(v, ATOMS):
        return (type(v).__name__, hash(v))
    if isinstance(v, io.BytesIO):
        return ("stream", v.tell(), len(v.getvalue()))
    if isinstance(v, io.IOBase):
        return ("stream",)
    if isinstance(v, bytearray):
        return bytes(v)
    if isinstance(v, dict):
        return (len(v), tuple((hash(k), hash(x) if isinstance(x, ATOMS) else id(x)) for k, x in v.items() if isinstance(k, ATOMS)))
    if isinstance(v, (list, tuple)):
        return (len(v), tuple(hash(x) if isinstance(x, ATOMS) else id(x) for x in v))
    if isinstance(v, (set, frozenset)):
        return len(v)
    return v.cache_info()


def _marks():
    out = {}
    for name, v in _walk("procmon_parser"):
        try:
            out.setdefault(name, []).append(_mark(v))
        except Exception:
            pass
    return out


def baseline():
    global _base
    _base = _marks()


def changed():
    """The names of the state that is not as it was after the import, now or when it was asked for before"""
    now = _marks()
    _ever.update(k for k in set(now) | set(_base) if now.get(k) != _base.get(k))
    return set(_ever)


def codes(names, all_codes):
    """The code that refers to one of the names"""
    return {c for c in all_codes if names & (set(c.co_names) | set(c.co_freevars) | set(c.co_varnames[:c.co_argcount]))}
