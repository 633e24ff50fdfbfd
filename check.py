#!/opt/venv/bin/python
"""Deterministic simulation of procmon-parser with fault injection.

  check.py run PROPERTY [--tier quick|thorough] [--seed N] [--count N]   decide a property (VERIF_SEED, VERIF_TIER are used too)
  check.py replay FILE                                                   run a recorded violation again
  check.py selftest [PROPERTY...]                                        same seeds, other worker counts and hash seeds: same events

The library is taken from VERIF_REPO (default /repo).
"""
import argparse
import json
import os
import re
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
sys.path.insert(0, HERE)

QUICK = {"R01": 24000, "R02": 40000, "R03": 8000, "R04": 20000, "R05": 40000, "R06": 20000, "R07": 22000, "R08": 32000, "R09": 5000,
         "R10": 36000, "R11": 12000, "R12": 24000, "R13": 400, "C01": 50000, "C02": 50000, "C03": 5000, "C04": 32000, "C05": 12000, "C06": 15000,
         "C07": 5500, "C08": 40000}
THOROUGH = 40  # times as many
WALL = {"quick": 500, "thorough": 3600}
SHRINK = {"quick": 40, "thorough": 180}
LOCALES = ["de_DE.UTF-8", "zh_CN.UTF-8", "fa_IR.UTF-8", "th_TH.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9", "zh_CN.GB18030"]

REAL = ["procmon_parser (all modules, unmodified)", "construct", "io.BufferedReader/BufferedWriter/BytesIO", "C library time zones and locales (R08)"]
STUBS = ["file contents and byte streams (simulated disk)", "open() of the simulated path (R07)", "thread scheduler and threading.Lock/RLock of the library (R09, C05)",
         "time of day (R08)", "occurrence of asynchronous exceptions (R07, R11, C06)"]


def lane_env(lane, scratch, prop):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "PYTHON")) and k not in ("LANG", "TZ", "LD_PRELOAD", "LOCPATH")}
    env["PYTHONHASHSEED"] = str(101 + 7919 * lane)
    env["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
    env["PYTHONUTF8"] = "1"
    if prop == "R08":
        so = os.path.join(scratch, "simclock.so")
        if os.path.exists(so):
            env["LD_PRELOAD"] = so
        env["LOCPATH"] = os.path.join(scratch, "locale")
        # the character set follows the locale
        env.update(PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", PYTHONIOENCODING="utf-8")
    return env


def build_environment(scratch, prop):
    """The simulated clock and the locales of R08. Returns what is missing."""
    if prop != "R08":
        return []
    from sim import simclock
    missing = []
    try:
        simclock.build(scratch)
    except (OSError, subprocess.CalledProcessError) as e:
        missing.append("simulated clock: %s" % e)
    os.makedirs(os.path.join(scratch, "locale"))
    jobs = []
    for name in LOCALES:
        out = os.path.join(scratch, "locale", name)
        try:
            jobs.append((name, subprocess.Popen(["localedef", "-i", name.split(".")[0], "-f", name.split(".")[1], out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        except OSError as e:
            missing.append("locale %s: %s" % (name, e))
    for name, j in jobs:
        j.wait()
        if not os.path.exists(os.path.join(scratch, "locale", name)):
            missing.append("locale " + name)
    return missing


def command(*args):
    return [PYTHON, "-B", "-W", "ignore", os.path.join(HERE, "check.py")] + [str(a) for a in args]


def known_findings(prop):
    """[(class, regular expression of the message, text)] of the open findings of a property"""
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"open: property=(\S+) class=(\S+) match=/(.*)/ (.*)$", line.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3), m.group(4)))
    except OSError:
        pass
    return out


# ------------------------------------------------------------------------------------------------ run
def run(args):
    prop = args.property
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(args.seed if args.seed is not None else os.environ.get("VERIF_SEED") or 1)
    count = args.count or QUICK[prop] * (THOROUGH if tier == "thorough" else 1)
    wall = float(os.environ.get("VERIF_WALL") or WALL[tier])
    print("property=%s tier=%s VERIF_SEED=%d scenarios=%d" % (prop, tier, seed, count), flush=True)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="simcheck-")
    try:
        missing = build_environment(scratch, prop)
        res = drive(prop, seed, tier, count, wall, scratch, args.jobs)
        violation, code = res["violation"], 0
        if res["harness"]:
            print("HARNESS ERROR\n" + res["harness"], file=sys.stderr, flush=True)
            code = 2
        replay = None
        if violation is not None and not code:
            replay = report(prop, seed, tier, violation, scratch)
            code = 1
        elif not code and res["runs"] < max(1, count // 5):
            print("too few runs (%d of %d) within the time limit" % (res["runs"], count), file=sys.stderr)
            code = 2
        evidence(prop, tier, seed, count, res, time.time() - t0, violation, replay, missing)
        for cls, rx, text in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        for k, n in sorted(res["known"].items()):
            print("(met %d times: %s)" % (n, k))
        print("runs=%d distinct=%d wall=%.1fs" % (res["runs"], len(res["traces"]), time.time() - t0))
        if code == 1:
            print("%s at seed %s/%s/%d: %s" % (violation["cls"], seed, prop, violation["index"], violation["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.stdout.flush()
        return code
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def drive(prop, seed, tier, count, wall, scratch, jobs=None):
    from sim import runner
    chunks = (count + runner.CHUNK - 1) // runner.CHUNK
    waiting = [n for n in range(runner.LANES) if n < chunks]
    jobs = jobs or runner.LANES
    sel = selectors.DefaultSelector()
    procs, buffers = {}, {}
    res = {"runs": 0, "traces": set(), "stats": {}, "violation": None, "harness": None, "samples": [], "digests": {}, "known": {}, "walls": 0}
    t0 = time.monotonic()

    def start(lane):
        p = subprocess.Popen(command("_lane", lane, prop, seed, tier, count, max(1.0, wall - (time.monotonic() - t0))), env=lane_env(lane, scratch, prop), stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE if False else None, cwd="/")
        procs[lane], buffers[lane] = p, b""
        os.set_blocking(p.stdout.fileno(), False)
        sel.register(p.stdout, selectors.EVENT_READ, lane)

    def stop(lane):
        p = procs.pop(lane)
        sel.unregister(p.stdout)
        p.kill()
        p.wait()
        p.stdout.close()

    finished, at = set(), {}
    while (waiting or procs) and not res["harness"]:
        while waiting and len(procs) < jobs:
            start(waiting.pop(0))
        for key, _ in sel.select(5):
            lane = key.data
            if lane not in procs:
                continue
            data = key.fileobj.read()
            if data is None:
                continue
            if not data:
                p = procs[lane]
                stop(lane)
                if lane not in finished and not res["harness"]:
                    res["harness"] = "lane %d ended with %s before it was done" % (lane, p.returncode)
                continue
            buffers[lane] += data
            lines = buffers[lane].split(b"\n")
            buffers[lane] = lines.pop()
            for line in lines:
                m = json.loads(line)
                if "stop" in m:
                    finished.add(lane)
                    res["walls"] += m["stop"] == "wall"
                    continue
                if "harness" in m:
                    res["harness"] = m["harness"]
                    break
                at[lane] = m["chunk"]
                res["runs"] += m["runs"]
                res["traces"].update(m.get("traces", ()))
                runner.merge(res["stats"], m.get("stats", {}))
                runner.merge(res["known"], m.get("known", {}))
                if len(res["samples"]) < 3:
                    res["samples"] += m.get("samples", [])
                res["digests"][m["chunk"]] = m.get("digest")
                if m["violation"]:
                    finished.add(lane)
                    m["violation"]["lane"] = lane
                    m["violation"]["chunk"] = m["chunk"]
                    if res["violation"] is None or m["violation"]["index"] < res["violation"]["index"]:
                        res["violation"] = m["violation"]
        if res["violation"] is not None:
            # only lanes that can still find one with a smaller index go on
            c = res["violation"]["chunk"]
            for lane in list(procs):
                if at.get(lane, lane - runner.LANES) + runner.LANES > c:
                    finished.add(lane)
                    stop(lane)
            waiting = [n for n in waiting if n < c]
    for lane in list(procs):
        stop(lane)
    return res


def report(prop, seed, tier, v, scratch):
    """Minimises, writes the replay file, and runs it in a fresh process"""
    job = os.path.join(scratch, "shrink.json")
    with open(job, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier, "violation": v, "seconds": SHRINK[tier]}, f)
    out = os.path.join(HERE, "evidence", "replays")
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, "%s-%s-%d.json" % (prop, seed, v["index"]))
    r = subprocess.run(command("_shrink", job, path), env=lane_env(v["lane"], scratch, prop), cwd="/", stdout=subprocess.DEVNULL)
    if r.returncode or not os.path.exists(path):
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "index": v["index"], "lane": v["lane"], "before": [], "scenario": v["scenario"],
                       "violation": [v["cls"], v["msg"]], "minimised": False}, f)
    with open(path) as f:
        rec = json.load(f)
    again = subprocess.run(command("replay", path), cwd="/", capture_output=True, text=True)
    rec["reproduced"] = again.returncode == 1
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    v["cls"], v["msg"] = rec["violation"]
    v["reproduced"] = rec["reproduced"]
    print("replay %s (%d operations, %d scenarios before it, %d candidates tried): %s" % (
        path, rec.get("size", 0), len(rec["before"]), rec.get("tried", 0), "reproduced" if rec["reproduced"] else "NOT reproduced: " + again.stdout[-300:]), flush=True)
    return path


def shrink(job, path):
    from sim import boot, runner
    from sim.shrink import Shrinker
    with open(job) as f:
        j = json.load(f)
    boot.boot()
    runner.prepare()
    v, prop = j["violation"], j["property"]
    cls, scn = v["cls"], v["scenario"]
    before, last = [], {"violation": [v["cls"], v["msg"]]}

    def test(cand, before=()):
        r = runner.evaluate(list(before) + [cand])
        if r.get("violation") and r["violation"][0] == cls:
            last["violation"] = r["violation"]
            return r["scenario"]
        return None

    seconds = j["seconds"] if cls != "hang" else 1
    s = Shrinker(lambda c: test(c, before), seconds, 4000)
    ok = test(scn)
    rec = {"property": prop, "seed": j["seed"], "index": v["index"], "lane": v["lane"], "minimised": True}
    if ok is None:
        first = v["chunk"] * runner.CHUNK
        prefix = [runner.scenario(prop, j["seed"], i, j["tier"]) for i in range(first, v["index"])]
        if test(scn, prefix) is not None:
            before = s.shrink_list(prefix, lambda c: test(scn, c) is not None)
            ok = scn
        else:
            before, rec["minimised"] = prefix, False
    if ok is not None and cls != "hang":
        scn = s.run(ok if not before else scn)
        r = test(scn, before)
        if r is not None:
            scn = r
    rec.update(before=before, scenario=scn, violation=last["violation"], tried=s.tried,
               size=len(scn.get("ops", ())) or sum(len(t["ops"]) for t in scn.get("threads", ())))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return 0


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    if os.environ.get("SIM_REPLAY") != "1":
        scratch = tempfile.mkdtemp(prefix="simreplay-")
        try:
            build_environment(scratch, rec["property"])
            return subprocess.run(command("replay", path), env=dict(lane_env(rec["lane"], scratch, rec["property"]), SIM_REPLAY="1"), cwd="/").returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    from sim import boot, runner
    boot.boot()
    runner.prepare()
    r = runner.evaluate(rec["before"] + [rec["scenario"]])
    if "harness" in r:
        print(r["harness"])
        return 2
    if r["violation"] is None:
        print("no violation (recorded: %s)" % ": ".join(rec["violation"]))
        return 0
    print("%s: %s" % tuple(r["violation"]))
    if r["violation"] != rec["violation"]:
        print("(recorded: %s: %s)" % tuple(rec["violation"]))
        if r["violation"][0] != rec["violation"][0]:
            return 3
    print("VIOLATION property=%s replay=%s" % (rec["property"], path))
    return 1


RULES = {
    "R": "Each case is a random log (1 seed = 1 log, stream, history of operations and fault plan, drawn from random.Random('SEED/PROPERTY/INDEX')), executed against the library; "
         "every operation is judged against an independent model of the log. Distinct: different event traces (operation, outcome, faults fired per step). Non-trivial: ",
    "C": "Each case is one or more random configurations with a history of loads/saves over simulated streams and a fault plan; every step is judged against an independent encoder and "
         "model. Distinct: different event traces (operation, outcome, faults fired, stream kind per step). Non-trivial: ",
}
NONTRIVIAL_TEXT = {
    "R01": "at least two indexed reads and (foreign stream positions, failed reads or more than five steps)", "R02": "at least three iteration steps",
    "R03": "at least one short read fired", "R04": "at least one stream fault fired", "R05": "the file is cut or unfinished (always)", "R06": "bytes are damaged (always)",
    "R07": "whole-log calls were made (always)", "R08": "the environment was changed", "R09": "at least one thread switch inside library code",
    "R10": "a returned value was changed, exported again, or outlived its stream", "R11": "at least one asynchronous exception fired", "R12": "at least two readers on one stream", "R13": "the cost of at least two event reads was measured",
    "C01": "at least one fault, cut or invalid record", "C02": "at least one save", "C03": "at least three distinct crash images loaded", "C04": "saves and loads in one session",
    "C05": "at least one thread switch inside library or format engine code", "C06": "at least one asynchronous exception fired", "C07": "damaged data was loaded",
    "C08": "at least one option that can't be represented",
}


def evidence(prop, tier, seed, count, res, wall, violation, replay_path, missing):
    st = res["stats"]
    sites = st.get("sites", {})
    cov = {
        "evaluations": res["runs"], "distinct_nontrivial": len(res["traces"]), "rule": RULES[prop[0]] + NONTRIVIAL_TEXT[prop], "samples": res["samples"],
        "runs_planned": count, "seeds_per_hour": int(res["runs"] / max(wall, 0.001) * 3600),
        "simulated_time": "the library has no timers; simulated steps (operations): %d, time-of-day settings: %d" % (sum(st.get("ops", {}).values()), st.get("envs", {}).get("clock", 0)),
        "operations": st.get("ops", {}), "faults_fired": st.get("faults", {}), "faults_fired_in_operation": st.get("faults_in", {}), "environment_changes": st.get("envs", {}),
        "injection_sites": {"distinct": len(sites), "most": dict(sorted(sites.items(), key=lambda x: -x[1])[:40])}, "probes": st.get("probes", {}), "peaks": st.get("peaks", {}),
        "distinct_measure": "digest of the per-step event trace; for threads together with the schedule as executed",
        "real_components": REAL, "simulated_components": STUBS, "missing_environment": missing, "lanes_stopped_by_time": res["walls"], "known_findings_met": res["known"],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2), "violations": int(violation is not None),
          "assumptions": ["sampling: a clean run is evidence, not proof", "the model encodes the format as documented in the repository and as the unchanged library decodes it",
                          "CPython 3.12 of /opt/venv; construct as installed"]}
    if violation is not None:
        ev["violation"] = {"class": violation["cls"], "message": violation["msg"], "seed": "%s/%s/%d" % (seed, prop, violation["index"]), "replay": replay_path,
                           "reproduced": violation.get("reproduced")}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(path + ".tmp", path)


# ------------------------------------------------------------------------------------------------ self test
def selftest(args):
    """The same seeds with other numbers of workers, and the same lanes with other hash seeds, must give the same events"""
    from sim import runner
    bad = 0
    for prop in args.properties or sorted(QUICK):
        n = max(runner.CHUNK * runner.LANES, QUICK[prop] // args.part)
        scratch = tempfile.mkdtemp(prefix="simself-")
        try:
            build_environment(scratch, prop)
            runs = {}
            for name, jobs, shift in (("8 workers", 8, 0), ("3 workers", 3, 0), ("1 worker" if args.slow else "5 workers", 1 if args.slow else 5, 0), ("other hash seeds", 8, 13)):
                global lane_env
                saved = lane_env
                if shift:
                    def lane_env(lane, scratch, prop, saved=saved):
                        e = saved(lane, scratch, prop)
                        e["PYTHONHASHSEED"] = str(int(e["PYTHONHASHSEED"]) + shift)
                        return e
                try:
                    r = drive(prop, args.seed, "quick", n, 3000, scratch, jobs)
                finally:
                    lane_env = saved
                runs[name] = r
                if r["harness"] or r["violation"]:
                    print(prop, name, r["harness"] or r["violation"]["msg"])
                    bad += 1
            ref = runs["8 workers"]["digests"]
            for name, r in runs.items():
                diff = [c for c in ref if r["digests"].get(c) != ref[c]]
                print("%s %-17s %d scenarios, %d chunks, %d differ" % (prop, name, r["runs"], len(ref), len(diff)), flush=True)
                bad += len(diff)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    print("determinism:", "OK" if not bad else "%d differences" % bad)
    return 1 if bad else 0


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "_lane":
        from sim import runner
        _, _, lane, prop, seed, tier, count, wall = sys.argv
        runner.lane_main(int(lane), prop, int(seed), tier, int(count), float(wall))
        return 0
    if len(sys.argv) > 1 and sys.argv[1] == "_shrink":
        return shrink(sys.argv[2], sys.argv[3])
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    p = sub.add_parser("run")
    p.add_argument("property", choices=sorted(QUICK))
    p.add_argument("--tier", choices=["quick", "thorough"])
    p.add_argument("--seed", type=int)
    p.add_argument("--count", type=int)
    p.add_argument("--jobs", type=int)
    p = sub.add_parser("replay")
    p.add_argument("file")
    p = sub.add_parser("selftest")
    p.add_argument("properties", nargs="*")
    p.add_argument("--seed", type=int, default=7)
    p.add_argument("--part", type=int, default=8)
    p.add_argument("--slow", action="store_true")
    args = ap.parse_args()
    if args.cmd == "run":
        return run(args)
    if args.cmd == "replay":
        return replay(os.path.abspath(args.file))
    return selftest(args)


if __name__ == "__main__":
    try:
        code = main()
    except KeyboardInterrupt:
        code = 2
    sys.stdout.flush()
    os._exit(code) if len(sys.argv) > 1 and sys.argv[1] in ("_lane", "_shrink") else sys.exit(code)
