"""Runs one scenario: picks the engine, puts the process environment back first, runs threads under the scheduler."""
import os
import random
import time
import traceback

from . import boot, instrument, shared, simclock
from .engine_pml import Session, Violation
from .sched import Deadlock, Scheduler

_env = dict(os.environ)


def reset_env():
    import locale
    if dict(os.environ) != _env:
        os.environ.clear()
        os.environ.update(_env)
    os.environ["TZ"] = "UTC"
    time.tzset()
    locale.setlocale(locale.LC_ALL, "C")
    os.chdir("/")
    simclock.off()


def session(scn, stats):
    if "config" in scn or "configs" in scn:
        from .engine_pmc import ConfigSession
        return ConfigSession(scn, stats)
    return Session(scn, stats)


def code_set(scn):
    return "lib+construct" if scn["prop"].startswith("C") else "lib"


def needs_lines(scn):
    return bool(scn.get("budget") or any("inj" in o for o in scn.get("ops", ())))


class Outcome(object):
    def __init__(self):
        self.trace, self.violation, self.scn = [], None, None


def execute(scn, stats):
    """Returns an Outcome; exceptions other than violations are errors of the harness"""
    out = Outcome()
    out.scn = scn
    reset_env()
    try:
        if scn.get("fresh"):
            shared.changed()
            boot.renew()
            stats.probe("fresh-import")
        if "threads" in scn:
            run_threads(scn, stats, out)
        else:
            if needs_lines(scn):
                instrument.enable(code_set(scn))
            else:
                instrument.disable()
            s = session(scn, stats)
            out.trace = s.trace
            run_session(s)
    except Violation as v:
        out.violation = v
    finally:
        reset_env()
    return out


def run_session(s):
    """What the library returned is used by the checks as the documented types; a result that can't be used so is a violation too"""
    try:
        s.run()
    except (Violation, Deadlock):
        raise
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        raise Violation("unusable-result", "step %d: a result could not be used: %s: %s (%s)" % (
            len(s.trace), type(e).__name__, e, "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in frames[-3:])))


def run_threads(scn, stats, out):
    sc = scn["sched"]
    instrument.enable(code_set(scn), bool(sc.get("instr")))
    n = len(scn["threads"])
    if "switches" in sc:
        s = Scheduler(n, switches=sc["switches"])
    else:
        s = Scheduler(n, rng=random.Random("sched/%s" % sc["seed"]), p=sc["p"], hot=sc.get("hot"))
        if s.hot:
            names = shared.changed()
            s.shared = shared.codes(names, instrument._sets["lib"]) if names else set()
            stats.probe("schedules-aimed-at-shared-state", int(bool(s.shared)))
    sessions = [session(t, stats) for t in scn["threads"]]
    for x in sessions:
        x.in_thread(s)
    res = s.run([guard(x) for x in sessions])
    stats.probe("switches", len(s.taken))
    stats.probe("switches-inside-library", s.inside_lib_switches)
    stats.probe("switch-points", s.points)
    out.scn = dict(scn, sched={"switches": s.taken, "instr": sc.get("instr", 0)})
    out.trace = [list(x.trace) for x in sessions] + [list(s.taken)]
    bad = []
    for i, r in enumerate(res):
        if r[0] == "harness":
            e = r[1]
            if isinstance(e, Deadlock):
                raise Violation("deadlock", "thread %d: all threads wait for each other" % i)
            raise e
        if r[1] is not None:
            bad.append((i, r[1]))
    if bad:
        i, v = bad[0]
        raise Violation(v.cls, "thread %d: %s" % (i, v.msg))


def guard(session):
    def body():
        try:
            run_session(session)
        except Violation as v:
            return v
        return None
    return body
