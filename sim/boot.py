"""Loads the library under test into the simulator: its locks become simulated ones, all of its modules are imported."""
import _thread
import importlib
import importlib.machinery
import importlib.util
import os
import pkgutil
import sys
import threading

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PACKAGE = os.path.join(REPO, "procmon_parser")
_booted = False


def _lock_factory(real, sim):
    def factory(*a, **kw):
        f = sys._getframe(1)
        name = f.f_code.co_filename
        # functools.lru_cache and the like make locks of their own in C and hold them only while nothing switches
        if name.startswith(REPO + os.sep):
            return sim()
        return real(*a, **kw)
    return factory


class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles a module once: when it is imported again its functions have the very same code objects (which are instrumented)"""
    codes = {}

    def get_code(self, fullname):
        if fullname not in self.codes:
            self.codes[fullname] = super().get_code(fullname)
        return self.codes[fullname]


class _Finder(object):
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split(".")[0] != "procmon_parser":
            return None
        base = os.path.join(REPO, *name.split("."))
        for file, package in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(file):
                return importlib.util.spec_from_file_location(name, file, loader=_Loader(name, file),
                                                              submodule_search_locations=[base] if package else None)
        return None


def _import():
    import procmon_parser
    if not os.path.realpath(procmon_parser.__file__).startswith(PACKAGE + os.sep):
        raise RuntimeError("procmon_parser comes from %s, not from %s" % (procmon_parser.__file__, REPO))
    for m in pkgutil.iter_modules(procmon_parser.__path__):
        importlib.import_module("procmon_parser." + m.name)


def renew():
    """The library as in a process that has just imported it: nothing of what its modules remember is left"""
    for n in [n for n in sys.modules if n.split(".")[0] == "procmon_parser"]:
        del sys.modules[n]
    _import()
    from . import shared
    shared.baseline()


def boot():
    global _booted
    if _booted:
        return
    from . import sched
    threading.Lock = _lock_factory(threading.Lock, sched.SimLock)
    threading.RLock = _lock_factory(threading.RLock, sched.SimRLock)
    _thread.allocate_lock, _thread.allocate = threading.Lock, threading.Lock
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder)
    _import()
    import construct
    from . import instrument
    instrument.define("lib", [PACKAGE + os.sep])
    instrument.define("lib+construct", [PACKAGE + os.sep, os.path.dirname(os.path.realpath(construct.__file__)) + os.sep,
                                        os.path.dirname(construct.__file__) + os.sep])
    if not instrument._sets["lib"]:
        raise RuntimeError("no code of the library found")
    from . import shared
    shared.baseline()
    _booted = True
