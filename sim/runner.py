"""Lane processes, forked chunks, watchdogs, and the evaluation of candidates for the minimiser.

A check is a fixed number of lanes (processes with fixed, different hash seeds).  Scenario i belongs to chunk i // CHUNK, chunk c
to lane c % LANES.  A lane loads the library once, and runs every chunk in a fork of that state, so the outcome of a chunk
depends on nothing but the seed, the chunk and the code.
"""
import gc
import hashlib
import json
import mmap
import os
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

CHUNK = 40
LANES = 8
SOFT_CPU = 40  # seconds of processor time one scenario may take before it counts as hanging
HARD_CPU = 70
MEMORY = 3 * 1024 ** 3


def generators():
    from . import gen_pmc, gen_pml
    return dict(gen_pml.GENERATORS, **gen_pmc.GENERATORS)


def scenario(prop, seed, index, tier):
    rng = random.Random("%s/%s/%d" % (seed, prop, index))
    from .gen_pml import temper
    return temper(generators()[prop](rng, tier))


def digest(x):
    return hashlib.blake2b(json.dumps(x, sort_keys=True, default=repr).encode("utf-8", "surrogatepass"), digest_size=12).hexdigest()


def _hang(signum, frame):
    from .simdisk import SimHang
    raise SimHang("still running after %d seconds of processor time" % SOFT_CPU)


def in_child(fn, marker=None):
    """Runs fn() in a fork; returns its JSON result, or {"died": ...}.  `marker` says what it was at when it died."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGVTALRM, _hang)
            gc.disable()
            res = fn()
            data = json.dumps(res).encode("utf-8", "surrogatepass")
        except BaseException:
            data = json.dumps({"harness": traceback.format_exc()}).encode()
        try:
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if data:
        try:
            return json.loads(data.decode("utf-8", "surrogatepass"))
        except ValueError:
            pass
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGPROF, signal.SIGXCPU):
        return {"died": "hang"}
    return {"died": "signal %d" % os.WTERMSIG(status) if os.WIFSIGNALED(status) else "exit %d" % status}


def timers(on):
    if on:
        signal.setitimer(signal.ITIMER_VIRTUAL, SOFT_CPU, 5)
        signal.setitimer(signal.ITIMER_PROF, HARD_CPU)
    else:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)


def run_one(scn, stats):
    """(outcome or None, violation as [cls, msg] or None)"""
    from . import execute
    from .simdisk import SimHang
    timers(True)
    cpu = os.times()
    try:
        out = execute.execute(scn, stats)
    except SimHang as e:
        timers(False)
        execute.reset_env()
        return None, ["hang", str(e)], scn
    finally:
        timers(False)
    now = os.times()
    stats.peak("slowest-run-cpu-ms", int(1000 * (now.user + now.system - cpu.user - cpu.system)))
    gc.collect()
    v = out.violation
    return out, (None if v is None else [v.cls, v.msg]), out.scn


NONTRIVIAL = {
    "R01": lambda st, tr: st["ops"].get("get", 0) + st["ops"].get("slice", 0) + st["ops"].get("csv", 0) >= 2 and (st["ops"].get("seek") or st["faults"] or len(tr) > 5),
    "R02": lambda st, tr: st["ops"].get("next", 0) + st["ops"].get("for", 0) >= 3,
    "R03": lambda st, tr: st["faults"].get("short-read"),
    "R04": lambda st, tr: any(k != "short-read" for k in st["faults"]),
    "R05": lambda st, tr: True,
    "R06": lambda st, tr: True,
    "R07": lambda st, tr: True,
    "R08": lambda st, tr: st["envs"],
    "R09": lambda st, tr: st["probes"].get("switches-inside-library"),
    "R10": lambda st, tr: st["ops"].get("mutate") or st["ops"].get("heldcsv") or st["ops"].get("close"),
    "R11": lambda st, tr: st["faults"],
    "R12": lambda st, tr: st["ops"].get("open", 0) >= 2,
    "R13": lambda st, tr: st["ops"].get("cost", 0) >= 2,
    "C01": lambda st, tr: st["faults"],
    "C02": lambda st, tr: st["ops"].get("dump"),
    "C03": lambda st, tr: st["probes"].get("crash-images", 0) >= 3,
    "C04": lambda st, tr: st["ops"].get("fsave", 0) and st["ops"].get("fload", 0),
    "C05": lambda st, tr: st["probes"].get("switches-inside-library"),
    "C06": lambda st, tr: st["faults"],
    "C07": lambda st, tr: st["faults"].get("damage"),
    "C08": lambda st, tr: st["faults"].get("unserialisable"),
}


def run_chunk(prop, seed, tier, indices, marker):
    """In a fork: runs the scenarios, stops at the first violation"""
    from .engine_pml import Stats
    total, traces, events, samples = Stats().as_dict(), [], hashlib.blake2b(digest_size=12), []
    res = {"runs": 0, "violation": None, "nontrivial": 0, "ms": 0}
    for i in indices:
        marker.seek(0)
        marker.write(struct.pack("<q", i))
        scn = scenario(prop, seed, i, tier)
        st = Stats()
        out, v, scn2 = run_one(scn, st)
        d = st.as_dict()
        merge(total, d)
        res["runs"] += 1
        if out is not None:
            t = digest(out.trace)
            events.update(t.encode())
            if NONTRIVIAL[prop](d, out.trace):
                traces.append(t)
        if len(samples) < 1 and out is not None:
            samples.append({"index": i, "scenario": summary(scn), "outcome": json.loads(json.dumps(out.trace, default=repr))[:12]})
        if v is not None:
            res["violation"] = {"index": i, "cls": v[0], "msg": v[1], "scenario": scn2}
            break
    res.update(stats=total, traces=traces, digest=events.hexdigest(), samples=samples)
    return res


def summary(scn):
    if "threads" in scn:
        return {"threads": [summary(t) for t in scn["threads"]], "sched": scn["sched"]}
    out = {k: v for k, v in scn.items() if k not in ("log", "configs")}
    if "log" in scn:
        out["log"] = {"is64": scn["log"]["is64"], "events": len(scn["log"]["events"]), "procs": len(scn["log"]["procs"])}
    if "configs" in scn:
        out["configs"] = [[o[0] for o in c] for c in scn["configs"]]
    s = json.dumps(out, default=repr)
    return json.loads(s) if len(s) < 3000 else {"ops": len(scn.get("ops", ())), "first": json.loads(json.dumps(scn.get("ops", [])[:4], default=repr))}


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif k in ("lines", "bytes", "lines-per-byte", "open-bytes", "event-bytes", "event-lines", "retained", "slowest-run-cpu-ms"):
            a[k] = max(a.get(k, 0), v)
        else:
            a[k] = a.get(k, 0) + v


def lane_main(lane, prop, seed, tier, count, wall):
    """Runs the chunks of one lane; one line of JSON per chunk on stdout"""
    from . import boot
    boot.boot()
    prepare()
    marker = mmap.mmap(-1, 8)
    t0 = time.monotonic()
    chunks = (count + CHUNK - 1) // CHUNK
    for c in range(lane, chunks, LANES):
        if time.monotonic() - t0 > wall:
            emit({"lane": lane, "stop": "wall", "chunk": c})
            return
        idx = list(range(c * CHUNK, min(count, (c + 1) * CHUNK)))
        res = in_child(lambda: run_chunk(prop, seed, tier, idx, marker))
        marker.seek(0)
        at = struct.unpack("<q", marker.read(8))[0]
        if "died" in res:
            if res["died"] == "hang":
                res = {"runs": at - idx[0] + 1, "violation": {"index": at, "cls": "hang", "msg": "scenario %d does not end" % at,
                                                              "scenario": scenario(prop, seed, at, tier)}}
            else:
                res = {"harness": "the chunk process died (%s) in scenario %d" % (res["died"], at)}
        res["chunk"], res["lane"] = c, lane
        emit(res)
        if res.get("violation") or "harness" in res:
            return
    emit({"lane": lane, "stop": "done"})


def emit(x):
    sys.stdout.write(json.dumps(x) + "\n")
    sys.stdout.flush()


def prepare():
    """Everything that is the same for all chunks is loaded before the first fork"""
    from . import engine_pmc, engine_pml, execute, filelayer, gen_pmc, gen_pml, sched, simclock  # noqa: F401
    import locale, pathlib, shutil, tempfile, tracemalloc, zoneinfo, logging, string  # noqa: F401,E401
    signal.signal(signal.SIGVTALRM, _hang)
    execute.reset_env()
    gc.collect()
    gc.freeze()


def run_list(scns):
    """In a fork: runs the scenarios in order, returns the violation of the last one (an earlier violation doesn't count)"""
    from .engine_pml import Stats
    v, last, trace = None, None, None
    for s in scns:
        out, v, last = run_one(s, Stats())
        trace = None if out is None else digest(out.trace)
    return {"violation": v, "scenario": last, "trace": trace}


def evaluate(scns, cpu_cap=None):
    """Runs scenarios in a fresh fork: {"violation": [cls, msg] or None, ...} or {"harness": ...}"""
    res = in_child(lambda: run_list(scns))
    if "died" in res:
        if res["died"] == "hang":
            return {"violation": ["hang", "the scenario does not end"], "scenario": scns[-1], "trace": None}
        return {"harness": res["died"]}
    return res
