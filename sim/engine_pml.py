"""Executes one scenario of log reading against the library and judges every step against the model.

Rules of judgement (the weakest that still say what the property says):
  clean step     - the result is exactly the recorded data; an exception only where a list would raise one
  fault fired    - the step raises (the injected error itself or as cause), or returns exactly the recorded data (for the
                   properties which say that the error reaches the caller, it must raise)
  data lost      - (truncated file, closed stream, unreadable range) the step raises or returns exactly the recorded data
  damaged event  - anything for that event; everything else exactly as recorded
In no case may a step report the end of the log before the end, or return wrong data.
"""
import datetime
import gc
import io
import os
import random
import time
import tracemalloc

from . import boot, instrument, observe, pmlgen
from .simdisk import ASYNC_ERRORS, ERRORS, Disk, SimAbort, SimHang, make_stream

COST_BYTES = 256 * 1024  # what buffering and reading ahead may cost on top of what is asked for
COST_RETAINED = 64 * 1024
_img_cache = {}


def image_of(log):
    key = repr(log)
    img = _img_cache.get(key)
    if img is None:
        if len(_img_cache) > 8:
            _img_cache.clear()
        img = _img_cache[key] = pmlgen.build(log)
    return img


class Violation(Exception):
    def __init__(self, cls, msg):
        super(Violation, self).__init__("%s: %s" % (cls, msg))
        self.cls, self.msg = cls, msg


def lib():
    import procmon_parser
    return procmon_parser


def chain(e):
    seen, todo = [], [e]
    while todo:
        x = todo.pop()
        if x is None or any(x is s for s in seen):
            continue
        seen.append(x)
        todo += [x.__cause__, None if x.__suppress_context__ else x.__context__]
        todo += [a for a in getattr(x, "args", ()) if isinstance(a, BaseException)]
    return seen


def attempt(fn):
    try:
        return ("ok", fn())
    except SimHang:
        raise
    except BaseException as e:
        return ("exc", e)


DIGEST_EVENTS = 60


class Slot(object):
    """A reader and what the model knows about it"""

    def __init__(self, reader, stack, det):
        self.reader, self.stack, self.det = reader, stack, det
        self.cursors = {0}
        self.iters = {}
        self.ended = False


def snap_value(kind, v):
    if kind == "event":
        return observe.snap_event(v)
    if kind == "events":
        if not isinstance(v, (list, tuple)):
            raise TypeError("not a list")
        return [observe.snap_event(e) for e in v]
    if kind == "procs":
        return [observe.snap_process(p) for p in v]
    return v


class Session(object):
    """One stream, the readers over it, and the step interpreter"""

    def __init__(self, scn, stats, log=None):
        self.img = image_of(scn["log"])
        self.scn, self.stats = scn, stats
        self.strict = scn.get("prop") in ("R04", "R11")  # they say that the error must reach the caller
        self.trace = []
        st = scn.get("stream", {})
        data = self.img.data
        self.damaged, self.loose, self.lossy = set(), False, False
        data = self._damage(data, scn.get("damage") or [])
        self.expect_open = scn.get("expect_open")  # name of the exception type opening must raise
        for off, hx in scn.get("header") or []:
            raw = bytes.fromhex(hx)
            data = data[:off] + raw + data[off + len(raw):]
            self.loose = True
        if data == self.img.data:
            self.expect_open = None
        if scn.get("cut") is not None:
            data = data[:self._cutpos(scn["cut"], len(data))]
            self.lossy = True
        self.disk = Disk(data, st.get("short"))
        self.kind = st.get("kind", "duck")
        self.stream = make_stream(self.kind, self.disk, st.get("buf", 64))
        self.slots = {}
        self.held = []  # [label, kind, object, expected snapshot or None]
        self.dry = None
        self.budget = scn.get("budget")
        self.closed = False
        # what the library makes of (damaged) data from memory, before anything else happens
        self.alone = {key: self.digest(io.BytesIO(data), key[0], key[1], None) for key in
                      {(bool(o["stack"]), bool(o["det"])) for o in scn["ops"] if o["o"] == "digest"}}

    def digest(self, stream, stack, det, rng):
        """Everything a reader returns, in a random order of the steps: {step: outcome}, errors as "error"."""
        L = lib()
        out = {}

        def note(key, fn):
            r = attempt(fn)
            if r[0] == "exc" and not isinstance(r[1], Exception):
                raise r[1]
            got = r[1] if r[0] == "ok" else "error"
            if key in out and out[key] != got:
                self.fail("wrong-value", "%s was first %s and then %s" % (key, observe.short(out[key]), observe.short(got)))
            out[key] = got
            return r

        r = note(("open",), lambda: L.ProcmonLogsReader(stream, stack, det))
        if r[0] == "exc":
            return out
        reader = r[1]
        out[("open",)] = "opened"
        n = len(reader)
        out[("len",)] = n
        todo = [("procs",), ("sysd",)] + [(what, i) for i in range(min(n, DIGEST_EVENTS)) for what in ("get", "csv")]
        if rng is not None:
            todo += [rng.choice(todo) for _ in range(5)] + [("slice", i) for _, i in rng.sample(todo[2:], min(3, len(todo) - 2))]
            rng.shuffle(todo)
        for t in todo:
            if rng is not None and rng.random() < 0.1:
                attempt(lambda: stream.seek(rng.randrange(2 * len(self.disk.data) + 1)))
            if t[0] == "procs":
                note(t, lambda: [observe.snap_process(p) for p in reader.processes()])
            elif t[0] == "sysd":
                note(t, reader.system_details)
            elif t[0] == "csv":
                note(t, lambda: reader[t[1]].get_compatible_csv_info())
            elif t[0] == "slice":
                note(("get", t[1]), lambda: observe.snap_event(reader[t[1]:t[1] + 1][0]))
            else:
                note(t, lambda: observe.snap_event(reader[t[1]]))
        return out

    def op_digest(self, k, op, inj):
        """Opens and reads everything, damaged as it may be: nothing but the bytes of the file decides what comes out"""
        if not self.rewind(op):
            return "no-stream"
        ref = self.alone[bool(op["stack"]), bool(op["det"])]
        try:
            got = self.digest(self.stream, bool(op["stack"]), bool(op["det"]), random.Random("digest/%s" % op["seed"]))
        except Violation as v:
            self.fail(v.cls, "%s: %s" % (self.label(k, op), v.msg))
        if set(ref) - set(got) or set(got) - set(ref):
            self.fail("wrong-value", "%s: opening gives %s, alone from memory it is %s" % (
                self.label(k, op), [got.get(("open",)), got.get(("len",))], [ref.get(("open",)), ref.get(("len",))]))
        for key in got:
            if got[key] != ref[key]:
                self.fail("wrong-value", "%s: %s: alone from memory and here: %s" % (self.label(k, op), key, observe.diff(ref[key], got[key])))
        self.stats.probe("digest-values", len(got))
        return "same" if "error" not in got.values() else "same-with-errors"

    def in_thread(self, sched):
        """Every call of the stream is a point where the scheduler may switch"""
        self.disk.hook = sched.point

    # ---------------------------------------------------------------- faults in the stored data
    def _cutpos(self, c, size):
        """c: fraction, or {"ev": i, "o": f} (inside event i), or {"sec": name, "o": f}, or an absolute position"""
        if isinstance(c, dict):
            if "ev" in c and self.img.n:
                regs = self.img.ev_regions[c["ev"] % self.img.n]
                lo, hi = regs[c.get("reg", 0) % len(regs)]
            else:
                sec = c.get("sec", "hosts")
                lo, hi = self.img.regions[sec], self.img.regions[sec + "_end"]
            return min(size, lo + int((hi - lo) * c["o"]))
        if isinstance(c, float):
            return int(size * c)
        return max(0, min(size, c))

    def _damage(self, data, items):
        if not items:
            return data
        out = bytearray(data)
        for d in items:
            if "link" in d:
                # a chain of structures that leads back (or elsewhere) into itself
                i = next((j % self.img.n for j in range(d["ev"], d["ev"] + self.img.n) if self.img.ev_links[j % self.img.n]), None)
                if i is not None:
                    at = self.img.ev_links[i]
                    a, b = at[d["link"] % len(at)], at[d["to"] % len(at)]
                    out[a:a + 4] = ((b - a) % (1 << 32)).to_bytes(4, "little")
                    self.damaged.add(i)
                continue
            if "ev" in d:
                if not self.img.n:
                    continue
                i = d["ev"] % self.img.n
                if d.get("idx"):
                    lo = self.img.regions["offsets"] + 5 * i
                    hi = lo + 5
                else:
                    regs = self.img.ev_regions[i]
                    lo, hi = regs[d.get("reg", 0) % len(regs)]
                self.damaged.add(i)
            else:
                lo, hi = d.get("lo", 0), len(out)
                self.loose = True
            raw = bytes.fromhex(d["x"])
            if hi <= lo:
                continue
            p = lo + (d["o"] % (hi - lo))
            for k, b in enumerate(raw):
                if p + k < hi:
                    out[p + k] = (out[p + k] ^ b) if d.get("xor") else b
        return bytes(out)

    # ---------------------------------------------------------------- judging
    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def judge(self, label, out, exp, kind="value", damaged=False, inj=None):
        """out: result of `attempt`; exp: ("ok", value) or ("exc", types).  Returns the trace tag."""
        fired, injected = list(self.disk.fired), list(self.disk.injected)
        if inj is not None and inj.raised is not None:
            fired.append("line:" + type(inj.raised).__name__)
            injected.append(inj.raised)
        how, v = out
        anything = damaged or self.loose
        if how == "exc":
            name = type(v).__name__
            if not isinstance(v, Exception):
                # interrupts and the like: only the injected one itself
                if any(v is x for x in injected):
                    return "raised-" + name
                self.fail("unexpected-exception", "%s raised %s: %s" % (label, name, v))
            if inj is not None and inj.raised is not None and not isinstance(inj.raised, Exception):
                self.fail("interrupt-replaced", "%s: %s at %s became %s: %s" % (label, type(inj.raised).__name__, inj.where, name, v))
            if isinstance(v, StopIteration) and not (exp[0] == "exc" and StopIteration in exp[1]):
                self.fail("false-end", "%s reported the end of the log%s" % (label, " after " + ",".join(fired) if fired else ""))
            if exp[0] == "exc" and isinstance(v, exp[1]):
                return "expected-" + name
            if isinstance(v, MemoryError) and not any(isinstance(x, MemoryError) for x in injected):
                self.fail("unbounded-memory", "%s ran out of memory on a file of %d bytes" % (label, len(self.disk.data)))
            if self.disk.soft and any(x is y for x in chain(v) for y in self.disk.soft):
                return "raised-" + name
            if fired:
                if not injected or any(x is y for x in chain(v) for y in injected):
                    return "raised-" + name
                self.fail("masked-error", "%s: the stream failed with %s but %s was raised, which does not carry it: %s" % (
                    label, ",".join(fired), name, v))
            if anything or self.lossy or self.closed:
                return "rejected-" + name
            self.fail("unexpected-exception", "%s raised %s: %s" % (label, name, observe.short(str(v))))
        # returned
        if inj is not None and inj.raised is not None and not isinstance(inj.raised, Exception):
            self.fail("interrupt-swallowed", "%s returned normally although %s was raised at %s" % (label, type(inj.raised).__name__, inj.where))
        if anything:
            return "value"
        if exp[0] == "exc":
            self.fail("no-error", "%s returned %s, expected %s" % (label, observe.short(v), "/".join(t.__name__ for t in exp[1])))
        try:
            got = snap_value(kind, v)
        except Exception as e:
            self.fail("bad-value", "%s returned an unusable value: %s: %s" % (label, type(e).__name__, e))
        if got != exp[1]:
            self.fail("wrong-value", "%s%s%s: %s" % (label, " after " + ",".join(fired) if fired else "",
                                                   " with data lost" if self.lossy or self.closed else "", observe.diff(exp[1], got)))
        hard = [x for x in fired if x != "NONE"]
        if hard and self.strict:
            self.fail("error-swallowed", "%s returned normally after %s" % (label, ",".join(hard)))
        return "exact" + ("-despite-fault" if fired else "")

    def check_swallowed(self, label, inj):
        """The step succeeded"""
        if inj is not None and inj.raised is not None and (self.strict or not isinstance(inj.raised, Exception)):
            self.fail("interrupt-swallowed", "%s went on although %s was raised at %s" % (label, type(inj.raised).__name__, inj.where))
        hard = [x for x in self.disk.fired if x != "NONE"]
        if hard and self.strict:
            self.fail("error-swallowed", "%s went on after %s" % (label, ",".join(hard)))

    def exp_event(self, i, slot):
        return pmlgen.expected(self.img, i, slot.stack, slot.det)

    def exp_index(self, i, slot):
        n = self.img.n
        if -n <= i < n:
            return ("ok", self.exp_event(i % n, slot)), (i % n) in self.damaged
        return ("exc", (IndexError,)), False

    # ---------------------------------------------------------------- steps
    def run(self):
        for k, op in enumerate(self.scn["ops"]):
            self.step(k, op)
        self.finish()
        return self.trace

    def step(self, k, op):
        name = op["o"]
        self.stats.op(name)
        fn = getattr(self, "op_" + name)
        self.disk.arm(op.get("faults"))
        inj = None
        try:
            if "inj" in op:
                inj = self.injector(op)
                tag = self.guarded(fn, k, op, inj)
            elif self.budget == 1:
                tag = self.budgeted(fn, k, op)
            else:
                tag = fn(k, op, None)
        finally:
            self.disk.disarm()
        for f in self.disk.fired:
            self.stats.fault(f)
            self.stats.fault_in(name)
        if inj is not None and inj.raised is not None:
            self.stats.fault("line:" + type(inj.raised).__name__)
            self.stats.site(inj.where)
        self.trace.append((name, tag, tuple(self.disk.fired)))

    def label(self, k, op):
        return "step %d (%s)" % (k, ", ".join("%s=%s" % (a, b) for a, b in op.items() if a not in ("faults", "inj")))

    def finish(self):
        self.verify_held("end")
        if self.disk.shorts:
            self.stats.faults["short-read"] = self.stats.faults.get("short-read", 0) + self.disk.shorts

    # -- work accounting
    def budgeted(self, fn, k, op):
        size = len(self.disk.data)
        lines = 200000 + 40 * size + (size * size) // 4
        mem = 16 * 1024 * 1024 + 200 * size
        self.work = None
        counter = instrument.LineCounter(lines, SimHang)
        tracemalloc.start()
        try:
            try:
                with instrument.active(counter):
                    tag = fn(k, op, None)
            finally:
                peak = tracemalloc.get_traced_memory()[1]
                tracemalloc.stop()
        except SimHang as e:
            self.fail("unbounded-work", "%s: %s (limit %d lines for a file of %d bytes)" % (self.label(k, op), e, lines, size))
        if peak > mem:
            self.fail("unbounded-memory", "%s: peak of %d bytes allocated for a file of %d bytes" % (self.label(k, op), peak, size))
        self.stats.peak("lines", counter.n)
        self.stats.peak("bytes", peak)
        return tag

    # -- injection at executed lines
    def injector(self, op):
        spec = op["inj"]
        return self.dry_run(op).injector(spec, ERRORS[spec["err"]], boot.PACKAGE + os.sep)

    def dry_run(self, op):
        """The lines the step executes when nothing happens"""
        L = lib()
        c = instrument.LineRecorder()
        name = op["o"]
        slot = self.slots.get(op.get("r", 0))
        try:
            data = self.disk.data
            if name in ("open", "readall"):
                fn = (lambda: L.ProcmonLogsReader(io.BytesIO(data), bool(op.get("stack", 1)), bool(op.get("det", 1)))) if name == "open" \
                    else (lambda: L.read_all_events_from_pml(io.BytesIO(data)))
                if "path" in op:
                    fn = lambda: L.read_all_events_from_pml(io.BytesIO(data))
            elif slot is None:
                return c
            else:
                key = (slot.stack, slot.det)
                if self.dry is None:
                    self.dry = {}
                if key not in self.dry:
                    self.dry[key] = L.ProcmonLogsReader(io.BytesIO(data), slot.stack, slot.det)
                r = self.dry[key]
                n = self.img.n
                if name in ("get", "csv"):
                    i = op["i"]
                    fn = lambda: (r[i], r[i].get_compatible_csv_info() if name == "csv" else None)
                elif name == "next":
                    i = min(slot.cursors)
                    fn = lambda: r[i]
                elif name in ("for", "slice"):
                    fn = lambda: r[0:3]
                elif name == "procs":
                    fn = lambda: r.processes()
                elif name == "sysd":
                    fn = lambda: r.system_details()
                else:
                    fn = lambda: len(r)
            with instrument.active(c):
                fn()
        except Exception:
            pass
        return c

    def guarded(self, fn, k, op, inj):
        return fn(k, op, inj)

    def call(self, fn, inj):
        if inj is None:
            return attempt(fn)
        with instrument.active(inj):
            return attempt(fn)

    # -- opening
    def op_open(self, k, op, inj):
        L = lib()
        stack, det = bool(op.get("stack", 1)), bool(op.get("det", 1))
        if not self.rewind(op):
            return "no-stream"
        how = op.get("how", 0)

        def make():
            if stack and det and how == 0:
                return L.ProcmonLogsReader(self.stream)
            if how == 1:
                return L.ProcmonLogsReader(self.stream, stack, det)
            if stack:
                return L.ProcmonLogsReader(self.stream, should_get_details=det)
            return L.ProcmonLogsReader(f=self.stream, should_get_stacktrace=stack, should_get_details=det)

        out = self.call(make, inj)
        label = self.label(k, op)
        if out[0] == "ok":
            self.check_swallowed(label, inj)
            if self.expect_open:
                self.fail("no-error", "%s: an unfinished capture was opened (%s)" % (label, self.scn.get("why")))
            slot = self.slots[op.get("r", 0)] = Slot(out[1], stack, det)
            if not self.loose and not op.get("quiet"):
                fired = ",".join(self.disk.fired)
                self.disk.disarm()
                self.check_meta(slot, label + (" after " + fired if fired else ""))
            return "opened"
        if self.expect_open and not self.disk.fired:
            want = getattr(L, self.expect_open)
            if not isinstance(out[1], want):
                self.fail("wrong-error", "%s: an unfinished capture (%s) was refused with %s: %s instead of %s" % (
                    label, self.scn.get("why"), type(out[1]).__name__, out[1], self.expect_open))
            return "refused"
        return self.judge(label, out, ("ok", None), "open", inj=inj)

    def rewind(self, op):
        armed, self.disk.armed = self.disk.armed, []
        hook, self.disk.hook = self.disk.hook, None
        try:
            self.stream.seek(0)
        except ValueError:
            return False
        finally:
            self.disk.armed = armed
            self.disk.hook = hook
            self.disk.op_calls = {"read": 0, "seek": 0, "tell": 0, "any": 0}
        return True

    def check_meta(self, slot, label):
        n = attempt(lambda: len(slot.reader))
        if n != ("ok", self.img.n):
            self.fail("wrong-value", "%s: length %s, expected %d" % (label, n[1], self.img.n))
        p = attempt(lambda: [observe.snap_process(x) for x in slot.reader.processes()])
        if p != ("ok", self.img.procs):
            self.fail("wrong-value", "%s: processes: %s" % (label, observe.diff(self.img.procs, p[1])))
        s = attempt(slot.reader.system_details)
        if s != ("ok", self.img.sysd):
            self.fail("wrong-value", "%s: system details: %s" % (label, observe.diff(self.img.sysd, s[1])))

    def slot(self, op):
        return self.slots.get(op.get("r", 0))

    # -- reading
    def op_get(self, k, op, inj):
        s = self.slot(op)
        if s is None:
            return "no-reader"
        exp, dam = self.exp_index(op["i"], s)
        out = self.call(lambda: s.reader[op["i"]], inj)
        tag = self.judge(self.label(k, op), out, exp, "event", dam, inj)
        if out[0] == "ok" and op.get("hold"):
            self.held.append([self.label(k, op), "event", out[1], None if dam or self.loose else exp[1], s])
        return tag

    def op_csv(self, k, op, inj):
        s = self.slot(op)
        if s is None:
            return "no-reader"
        exp, dam = self.exp_index(op["i"], s)
        first = op.get("first")

        def fn():
            e = s.reader[op["i"]]
            return e.get_compatible_csv_info(first) if first else e.get_compatible_csv_info()
        if exp[0] == "ok":
            exp = ("ok", pmlgen.expected_csv(exp[1], first))
        return self.judge(self.label(k, op), self.call(fn, inj), exp, "value", dam, inj)

    def op_slice(self, k, op, inj):
        s = self.slot(op)
        if s is None:
            return "no-reader"
        sl = slice(*op["s"])
        if sl.step == 0:
            exp, dam = ("exc", (ValueError,)), False
        else:
            idx = list(range(self.img.n))[sl]
            dam = any(i in self.damaged for i in idx)
            exp = ("ok", [self.exp_event(i, s) for i in idx])
        out = self.call(lambda: s.reader[sl], inj)
        if dam and out[0] == "ok" and not self.loose:
            got = out[1]
            if len(got) != len(idx):
                self.fail("wrong-value", "%s: %d events instead of %d" % (self.label(k, op), len(got), len(idx)))
            for i, e in zip(idx, got):
                if i not in self.damaged and observe.snap_event(e) != self.exp_event(i, s):
                    self.fail("wrong-value", "%s: event %d: %s" % (self.label(k, op), i, observe.diff(self.exp_event(i, s), observe.snap_event(e))))
        tag = self.judge(self.label(k, op), out, exp, "events", dam, inj)
        if out[0] == "ok" and op.get("hold"):
            self.held.append([self.label(k, op), "events", out[1], None if dam or self.loose or exp[0] != "ok" else exp[1], s])
        return tag

    def op_badidx(self, k, op, inj):
        s = self.slot(op)
        if s is None:
            return "no-reader"
        bad = {"str": "0", "float": 1.0, "none": None, "tuple": (0, 1), "bytes": b"0"}[op["v"]]
        return self.judge(self.label(k, op), self.call(lambda: s.reader[bad], inj), ("exc", (TypeError,)), inj=inj)

    def op_rev(self, k, op, inj):
        s = self.slot(op)
        if s is None:
            return "no-reader"
        exp = ("ok", [self.exp_event(i, s) for i in range(self.img.n)][::-1])
        dam = bool(self.damaged)
        return self.judge(self.label(k, op), self.call(lambda: list(reversed(s.reader)), inj), exp, "events", dam, inj)

    def op_len(self, k, op, inj):
        s = self.slot(op)
        if s is None:
            return "no-reader"
        return self.judge(self.label(k, op), self.call(lambda: len(s.reader), inj), ("ok", self.img.n), inj=inj)

    def op_procs(self, k, op, inj):
        s = self.slot(op)
        if s is None:
            return "no-reader"
        out = self.call(s.reader.processes, inj)
        tag = self.judge(self.label(k, op), out, ("ok", self.img.procs), "procs", inj=inj)
        if out[0] == "ok" and op.get("hold"):
            self.held.append([self.label(k, op), "procs", out[1], None if self.loose else self.img.procs, s])
        return tag

    def op_sysd(self, k, op, inj):
        s = self.slot(op)
        if s is None:
            return "no-reader"
        out = self.call(s.reader.system_details, inj)
        tag = self.judge(self.label(k, op), out, ("ok", self.img.sysd), inj=inj)
        if out[0] == "ok" and op.get("hold"):
            self.held.append([self.label(k, op), "value", out[1], None if self.loose else dict(self.img.sysd), s])
        return tag

    # -- what operations cost
    def event_size(self, i):
        return sum(hi - lo for lo, hi in self.img.ev_regions[i])

    def op_costopen(self, k, op, inj):
        """Opening reads the header and the tables"""
        size = len(self.disk.data)
        tables = size - (self.img.regions["events_end"] - self.img.regions["events"])
        limit = 4 * tables + COST_BYTES
        if self.kind == "buffered":  # every jump to a string or process may fill the buffer again
            limit += 4 * self.scn["stream"]["buf"] * (self.img.nstrings + len(self.img.procs))
        before = self.disk.delivered
        tag = self.op_open(k, op, inj)
        spent = self.disk.delivered - before
        self.stats.peak("open-bytes", spent)
        if spent > limit:
            self.fail("unbounded-io", "%s read %d bytes, the header and tables are %d" % (self.label(k, op), spent, tables))
        return tag

    def op_cost(self, k, op, inj):
        """One event: judged like any read, and what it read and executed is compared with the size of the event"""
        s = self.slot(op)
        n = self.img.n
        if s is None or not n:
            return "no-reader"
        i = op["i"] % n
        size = self.event_size(i)
        before = self.disk.delivered
        counter = instrument.LineCounter()
        vast = n > 100000 or bool(self.scn["log"].get("huge"))
        if vast:
            tracemalloc.start()
            at_start = tracemalloc.get_traced_memory()[0]
        if op.get("via") == "next":
            fn = lambda: next(s.reader)
            with instrument.counting_calls() as calls, instrument.active(counter):
                out = attempt(fn)
            size = max(self.event_size(min(c, n - 1)) for c in s.cursors)
            tag = self.advance(k, op, s, out, None)
        else:
            with instrument.counting_calls() as calls, instrument.active(counter):
                out = attempt({"neg": lambda: s.reader[i - n], "slice": lambda: s.reader[i:i + 1][0],
                               "slice2": lambda: s.reader[i - n::n][0]}.get(op.get("via"), lambda: s.reader[i]))
            tag = self.judge(self.label(k, op), out, ("ok", self.exp_event(i, s)), "event")
        if vast:
            peak = tracemalloc.get_traced_memory()[1] - at_start
            tracemalloc.stop()
            self.stats.peak("event-memory", peak)
            if peak > 3 * COST_BYTES + 60 * size:
                self.fail("unbounded-memory", "%s allocated %d bytes for an event of %d bytes (the file has %d events, %d bytes)" % (
                    self.label(k, op), peak, size, n, len(self.disk.data)))
        spent = self.disk.delivered - before
        self.stats.peak("event-bytes", spent)
        self.stats.peak("event-lines", counter.n)
        self.stats.peak("event-calls", calls.n)
        self.stats.peak("event-loop-rounds", calls.jumps)
        self.stats.peak("event-items", calls.items)
        if spent > 4 * size + COST_BYTES:
            self.fail("unbounded-io", "%s read %d bytes for an event of %d (the file has %d events, %d bytes)" % (
                self.label(k, op), spent, size, n, len(self.disk.data)))
        for done, what in ((counter.n, "executed %d lines"), (calls.n, "called %d functions"), (calls.jumps, "ran %d rounds of loops"),
                           (calls.items, "gave %d items to functions that go through them")):
            if done > 3000 + 12 * size:
                self.fail("unbounded-work", "%s %s for an event of %d bytes (the file has %d events, %d bytes)" % (
                    self.label(k, op), what % done, size, n, len(self.disk.data)))
        return tag

    def op_soak(self, k, op, inj):
        """Many reads; what stays allocated afterwards must not grow with them"""
        s = self.slot(op)
        n = self.img.n
        if s is None or not n:
            return "no-reader"
        rng = random.Random("soak/%d" % op["seed"])
        how, errs, count = op["how"], op.get("err"), op["k"]
        if how == "all" and len(self.disk.data) > 4000000:
            how = "next"
        base = len(self.scn["log"]["events"]) or 1
        L = lib()
        reader, disk = s.reader, self.disk

        def one(j):
            if errs and rng.random() < 0.3:
                disk.arm([{"op": rng.choice(["read", "seek", "any"]), "nth": rng.randrange(4), "ttl": 1, "err": errs}])
            else:
                disk.disarm()
            try:
                if how == "get":
                    return reader[rng.randrange(n)]
                if how == "next":
                    return next(reader, None)
                if how == "iter":
                    for e in reader:
                        return e
                if how == "slice":
                    a = rng.randrange(n)
                    return reader[a:a + 3]
                if how == "csv":
                    return reader[rng.randrange(n)].get_compatible_csv_info()
                if how == "misc":
                    e = reader[rng.randrange(n)]
                    return e.date(), str(e), repr(e), hash(e), reader.processes(), reader.system_details(), reader[n + j] if j % 5 == 0 else None
                if how == "open":
                    return L.ProcmonLogsReader(self.stream, bool(j & 1), bool(j & 2))
                if how == "all":
                    return len(L.read_all_events_from_pml(self.stream))
            except Exception:
                return None

        def measured(times, at):
            for j in range(times):
                if how in ("open", "all"):
                    disk.disarm()
                    self.stream.seek(0)
                one(j + at)
                if how in ("open", "all") and j % 8 == 7:
                    gc.collect()
            disk.disarm()
            gc.collect()

        # (large events are read fewer times)
        count = max(8, min(count, (1500000 if count < 10000 else 9000000) // max(self.event_size(i) for i in range(min(n, base))))) if how not in ("open", "all") else max(1, min(count, 20000000 // len(self.disk.data)))
        if self.scn["log"].get("huge"):
            count = min(count, 3) if how == "open" else min(count, 2000)
        if how == "slice" and count > 10000:
            count //= 3
        lines = instrument.disable()
        for i in range(min(n, base)):
            try:
                snap_value("event", reader[i])
            except Exception:
                pass
        tracemalloc.start()
        try:
            measured(count // 2 if how != "all" else 1, 0)
            a = tracemalloc.get_traced_memory()[0]
            measured(count, 1000)
            b = tracemalloc.get_traced_memory()[0]
        finally:
            tracemalloc.stop()
            instrument.restore(lines)
        if how in ("next", "iter"):
            s.cursors = set(range(n + 1))
        self.stats.peak("retained", b - a)
        self.stats.probe("soak-reads", count)
        if b - a > COST_RETAINED:
            self.fail("retained", "%s: %d bytes more are allocated after %d times '%s' than before (file of %d events, %d bytes)" % (
                self.label(k, op), b - a, count, how, n, len(self.disk.data)))
        return "soaked"

    # -- iteration
    def op_next(self, k, op, inj):
        s = self.slot(op)
        if s is None:
            return "no-reader"
        j = op.get("it", 0)
        if j and j not in s.iters:
            s.iters[j] = iter(s.reader)
        it = s.iters.get(j, s.reader)
        if op.get("dflt"):
            out = self.call(lambda: next(it, "default"), inj)
            if out == ("ok", "default"):
                out = ("exc", StopIteration())
            return self.advance(k, op, s, out, inj)
        fn = (lambda: it.__next__()) if op.get("dunder") else (lambda: next(it))
        return self.advance(k, op, s, self.call(fn, inj), inj)

    def advance(self, k, op, s, out, inj, label=None):
        """Judges the outcome of one iteration step and moves the model's cursor"""
        label = label or self.label(k, op)
        n = self.img.n
        injected = inj is not None and inj.raised is not None
        if self.loose:
            return self.judge(label, out, ("ok", None), inj=inj) if out[0] == "ok" or not isinstance(out[1], StopIteration) else "end"
        cand = sorted(s.cursors)
        if out[0] == "exc" and isinstance(out[1], StopIteration):
            if any(c >= n for c in cand) and not injected:
                s.cursors = {c for c in cand if c >= n}
                s.ended = True
                return "end"
            self.judge(label + " at event %s of %d" % (cand, n), out, ("ok", None), inj=inj)
        if out[0] == "exc":
            # gives up exactly the event it was for; an interrupt may also strike before that
            if injected:
                tag = self.judge(label, out, ("ok", None), inj=inj)
                s.cursors = {c for c in cand} | {c + 1 for c in cand if c < n}
                return tag
            live = [c for c in cand if c < n]
            if not live:
                return self.judge(label, out, ("exc", (StopIteration,)), inj=inj)
            dam = any(c in self.damaged for c in live)
            tag = self.judge(label + " at event %s" % live, out, ("ok", self.exp_event(live[0], s)), "event", dam, inj)
            s.cursors = {c + 1 for c in live if not dam or self.disk.fired or self.lossy or self.closed or c in self.damaged}
            return tag
        live = [c for c in cand if c < n]
        if not live:
            self.fail("too-many", "%s returned an event after the end" % label)
        try:
            got = snap_value("event", out[1])
        except Exception as e:
            if any(c in self.damaged for c in live):
                s.cursors = {c + 1 for c in live if c in self.damaged}
                return "value"
            self.fail("bad-value", "%s returned an unusable value: %s: %s" % (label, type(e).__name__, e))
        match = {c for c in live if c in self.damaged or self.exp_event(c, s) == got}
        if not match:
            other = [c for c in range(n) if self.exp_event(c, s) == got]
            if other:
                self.fail("wrong-event", "%s returned event %d, expected event %s" % (label, other[0], live))
            self.judge(label + " at event %s" % live, out, ("ok", self.exp_event(live[0], s)), "event", False, inj)
        if (injected and not isinstance(inj.raised, Exception)) or (self.strict and (injected or self.disk.fired)):
            self.judge(label, out, ("ok", got), "event", False, inj)
        s.cursors = {c + 1 for c in match}
        if op.get("hold"):
            dam = any(c in self.damaged for c in match)
            self.held.append([label, "event", out[1], None if dam else got, s])
        return "exact"

    def op_for(self, k, op, inj):
        """A for loop that stops after op["k"] events"""
        s = self.slot(op)
        if s is None:
            return "no-reader"
        limit = op["k"]
        got = []

        def loop():
            if op.get("via") and not self.disk.armed and not self.damaged and not self.lossy and not self.closed and limit > self.img.n:
                got.extend({"list": list, "tuple": tuple, "star": lambda x: [*x], "comp": lambda x: [e for e in x],
                            "enum": lambda x: [e for _, e in enumerate(x)]}[op["via"]](s.reader))
                return "ended"
            for e in s.reader:
                got.append(e)
                if len(got) >= limit or len(got) > self.img.n + 5:
                    return "stopped"
            return "ended"
        out = self.call(loop, inj)
        fired, injd = self.disk.fired, self.disk.injected
        self.disk.fired, self.disk.injected = [], []
        for e in got:
            self.advance(k, op, s, ("ok", e), None)
        self.disk.fired, self.disk.injected = fired, injd
        if out == ("ok", "stopped"):
            self.check_swallowed(self.label(k, op), inj)
            return "stopped"
        if out == ("ok", "ended"):
            return self.advance(k, op, s, ("exc", StopIteration()), inj)
        return self.advance(k, op, s, out, inj)

    def op_readall(self, k, op, inj):
        L = lib()
        if not self.rewind(op):
            return "no-stream"
        full = Slot(None, True, True)
        exp = ("ok", [self.exp_event(i, full) for i in range(self.img.n)])
        if self.expect_open:
            exp = ("exc", (getattr(L, self.expect_open),))
        out = self.call(lambda: L.read_all_events_from_pml(self.stream), inj)
        if self.expect_open and not self.disk.fired and inj is None:
            if out[0] == "ok":
                self.fail("no-error", "%s: an unfinished capture was read as a whole log (%s)" % (self.label(k, op), self.scn.get("why")))
            if not isinstance(out[1], exp[1]):
                self.fail("wrong-error", "%s: an unfinished capture (%s) was refused with %s: %s instead of %s" % (
                    self.label(k, op), self.scn.get("why"), type(out[1]).__name__, out[1], self.expect_open))
            return "refused"
        if out[0] == "ok" and not self.loose and len(out[1]) != self.img.n:
            self.fail("incomplete-list", "%s returned %d of %d events%s" % (self.label(k, op), len(out[1]), self.img.n,
                                                                           " after " + ",".join(self.disk.fired) if self.disk.fired else ""))
        if out[0] == "ok" and self.damaged and not self.loose:
            for i, e in enumerate(out[1]):
                if i not in self.damaged and observe.snap_event(e) != exp[1][i]:
                    self.fail("wrong-value", "%s: event %d: %s" % (self.label(k, op), i, observe.diff(exp[1][i], observe.snap_event(e))))
        if out[0] == "exc" and isinstance(out[1], StopIteration):
            self.fail("false-end", "%s raised StopIteration" % self.label(k, op))
        tag = self.judge(self.label(k, op), out, exp, "events", bool(self.damaged), inj)
        if self.disk.closes and not self.closed:
            self.fail("closed-callers-stream", "%s closed the stream of the caller" % self.label(k, op))
        if self.disk.writes:
            self.fail("wrote-callers-stream", "%s wrote to the stream of the caller" % self.label(k, op))
        return tag

    # -- other users of the stream
    def op_seek(self, k, op, inj):
        try:
            if op.get("whence") == 2:
                self.stream.seek(0, 2)
            else:
                self.stream.seek(op["p"] % (2 * len(self.disk.data) + 1))
            if op.get("n"):
                self.stream.read(op["n"])
        except ValueError:
            return "closed"
        except OSError:
            return "io-error"
        return "moved"

    def op_trunc(self, k, op, inj):
        pos = self._cutpos(op["c"], len(self.disk.data))
        self.disk.data = self.disk.data[:pos]
        self.lossy = True
        self.stats.fault("truncate")
        return "cut"

    def op_damage(self, k, op, inj):
        self.disk.data = self._damage(self.disk.data, [op["d"]])
        self.stats.fault("damage")
        return "damaged"

    def op_bad(self, k, op, inj):
        lo = self._cutpos(op["c"], len(self.disk.data))
        self.disk.bad = [[lo, lo + op["n"], op["err"]]]
        return "bad"

    def op_heal(self, k, op, inj):
        self.disk.bad = []
        return "healed"

    def op_close(self, k, op, inj):
        if op.get("how") == "drop" and self.kind != "bytesio":
            # the descriptor goes away below the stream object
            self.disk.closed = True
        else:
            self.stream.close()
        self.closed = True
        self.stats.fault("close")
        return "closed"

    def op_drop(self, k, op, inj):
        s = self.slots.pop(op.get("r", 0), None)
        del s
        for h in self.held:
            h[4] = None
        gc.collect(0)
        return "dropped"

    # -- returned values
    def op_mutate(self, k, op, inj):
        if not self.held:
            return "nothing"
        h = self.held[op["h"] % len(self.held)]
        obj, kind, how = h[2], h[1], op["how"]
        h[3] = None
        if kind == "events":
            if not obj:
                return "empty"
            if how % 5 == 0:
                del obj[0]
                return "list"
            obj = obj[how % len(obj)]
            kind = "event"
        if kind == "event":
            m = how % 8
            if obj.details is None:
                m = 0
            if m == 0:
                obj.path = "changed"
                obj.category = "changed"
            elif m == 1:
                obj.details.clear()
            elif m == 2:
                obj.details["Length"] = "changed"
                obj.details["added"] = 1
            elif obj.stacktrace is None or obj.details is None:  # changed before
                obj.tid = -1
            elif m == 3:
                del obj.stacktrace[:]
            elif m == 4:
                obj.stacktrace.append(0xdead)
            elif m == 5:
                for v in obj.details.values():
                    if isinstance(v, list):
                        v.append("changed")
                        del v[0]
            elif m == 6:
                obj.process = None
                obj.operation = "changed"
                obj.result = obj.tid = obj.duration = obj.date_filetime = 0
            else:
                obj.details = {}
                obj.stacktrace = None
            return "event"
        if kind == "procs":
            if how % 2:
                del obj[:]
            else:
                obj.append(None)
            return "procs"
        obj.clear()
        return "dict"

    def op_verify(self, k, op, inj):
        self.verify_held(self.label(k, op))
        return "verified"

    def verify_held(self, label):
        for lab, kind, obj, exp, _ in self.held:
            if exp is None:
                continue
            try:
                got = snap_value(kind, obj)
            except Exception as e:
                self.fail("changed-later", "%s: the value of %s became unusable: %s: %s" % (label, lab, type(e).__name__, e))
            if got != exp:
                self.fail("changed-later", "%s: the value of %s changed: %s" % (label, lab, observe.diff(exp, got)))

    def op_heldcsv(self, k, op, inj):
        ev = [h for h in self.held if h[1] == "event" and h[3] is not None]
        if not ev:
            return "nothing"
        lab, kind, obj, exp, _ = ev[op["h"] % len(ev)]
        first = op.get("first")
        want = pmlgen.expected_csv(exp, first)
        for _ in range(op.get("times", 2)):
            out = attempt(lambda: obj.get_compatible_csv_info(first) if first else obj.get_compatible_csv_info())
            if out != ("ok", want):
                self.fail("wrong-export", "%s: columns of %s: %s" % (self.label(k, op), lab, observe.diff(want, out[1]) if out[0] == "ok" else repr(out[1])))
            out[1].clear()
        if observe.snap_event(obj) != exp:
            self.fail("export-changed-event", "%s: exporting %s changed it: %s" % (self.label(k, op), lab, observe.diff(exp, observe.snap_event(obj))))
        str(obj), repr(obj), hash(obj)
        if observe.snap_event(obj) != exp:
            self.fail("export-changed-event", "%s: printing %s changed it" % (self.label(k, op), lab))
        return "exported"

    def op_helddate(self, k, op, inj):
        ev = [h for h in self.held if h[1] == "event" and h[3] is not None]
        if not ev:
            return "nothing"
        lab, kind, obj, exp, _ = ev[op["h"] % len(ev)]
        secs, frac = divmod(exp[5] - 116444736000000000, 10 ** 7)
        micro = datetime.timedelta(microseconds=frac // 10)
        order = [True, False] if op.get("order") else [False, True]
        for utc in order[:op.get("both", 1) + 1]:
            want = (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=secs) if utc else local_time(secs, os.environ.get("TZ", "UTC"))) + micro
            out = attempt(lambda: obj.date(utc))
            if out != ("ok", want):
                self.fail("wrong-value", "%s: %s date of %s with TZ=%s: expected %s got %s" % (
                    self.label(k, op), "UTC" if utc else "local", lab, os.environ.get("TZ"), want, out[1]))
        return "dated"

    def op_same(self, k, op, inj):
        """A returned event is equal to, hashes and prints like one read anew, whatever was done with it meanwhile"""
        ev = [h for h in self.held if h[1] in ("event", "procs") and h[3] is not None]
        if not ev:
            return "nothing"
        lab, kind, obj, exp, s = ev[op["h"] % len(ev)]
        s = s or self.slots.get(0)
        if s is None or s.reader is None:
            return "no-reader"
        if kind == "procs":
            out = attempt(lambda: s.reader.processes())
        else:
            at = [i for i in range(self.img.n) if i not in self.damaged and self.exp_event(i, s) == exp]
            if not at:
                return "other-options"
            out = attempt(lambda: s.reader[at[op["how"] % len(at)]])
        if out[0] == "exc":
            return "unreadable"
        new = out[1]
        same = [("==", obj == new and new == obj), ("!=", not obj != new), ("repr", repr(obj) == repr(new))]
        if kind == "event":
            same += [("hash", hash(obj) == hash(new)), ("str", str(obj) == str(new)), ("process", obj.process == new.process),
                     ("process hash", hash(obj.process) == hash(new.process))]
        for what, yes in same:
            if not yes:
                self.fail("changed-later", "%s: %s no longer agrees with the same one read again (%s)" % (self.label(k, op), lab, what))
        return "same"

    def op_copy(self, k, op, inj):
        """A copy of a returned event is as good as the event, also when everything else is gone"""
        import copy
        import pickle
        ev = [h for h in self.held if h[1] in ("event", "events", "procs") and h[3] is not None]
        if not ev:
            return "nothing"
        lab, kind, obj, exp, _ = ev[op["h"] % len(ev)]
        how = op.get("how", "deepcopy")
        out = attempt(lambda: copy.deepcopy(obj) if how == "deepcopy" else pickle.loads(pickle.dumps(obj)))
        if out[0] == "exc":
            self.fail("not-independent", "%s: %s of %s raised %s: %s" % (self.label(k, op), how, lab, type(out[1]).__name__, out[1]))
        self.held.append(["%s of %s" % (how, lab), kind, out[1], exp, None])
        self.verify_held(self.label(k, op))
        return "copied"

    # -- environment
    def op_tz(self, k, op, inj):
        os.environ["TZ"] = op["tz"]
        time.tzset()
        self.stats.env("tz:" + op["tz"])
        return "tz"

    def op_locale(self, k, op, inj):
        import locale
        try:
            locale.setlocale(locale.LC_ALL, op["loc"])
        except locale.Error:
            return "locale-missing"
        self.stats.env("locale:" + op["loc"])
        return "locale"

    def op_cwd(self, k, op, inj):
        os.chdir(op["dir"])
        self.stats.env("cwd")
        return "cwd"

    def op_clock(self, k, op, inj):
        from . import simclock
        if simclock.set_time(op["t"]):
            self.stats.env("clock")
            return "clock"
        return "clock-missing"

    def op_environ(self, k, op, inj):
        os.environ.update(op["env"])
        self.stats.env("environ")
        return "environ"

    def op_date(self, k, op, inj):
        s = self.slot(op)
        n = self.img.n
        if s is None or not n:
            return "no-reader"
        i = op["i"] % n
        ft = self.img.events[i]["date"]
        secs, frac = divmod(ft - 116444736000000000, 10 ** 7)
        micro = datetime.timedelta(microseconds=frac // 10)
        if op.get("utc", 1):
            exp = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=secs) + micro
            out = self.call((lambda: s.reader[i].date()) if op.get("default") else (lambda: s.reader[i].date(True)), inj)
        else:
            exp = local_time(secs, os.environ.get("TZ", "UTC")) + micro
            out = self.call(lambda: s.reader[i].date(False), inj)
            self.stats.env("local-date")
        return self.judge(self.label(k, op) + " TZ=%s" % os.environ.get("TZ"), out, ("ok", exp), "value", i in self.damaged, inj)


def local_time(secs, tz):
    """Local wall clock, computed without the C library's time zone state"""
    import zoneinfo
    if tz in POSIX_TZ:
        utc = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=secs)
        return utc + datetime.timedelta(seconds=POSIX_TZ[tz])
    d = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=secs)
    return d.astimezone(zoneinfo.ZoneInfo(tz)).replace(tzinfo=None, fold=0)


POSIX_TZ = {"UTC": 0, "UTC0": 0, "XST-13:45": 13 * 3600 + 45 * 60, "YST+11": -11 * 3600, "ZZZ-0:00:01": 1}


class Stats(object):
    def __init__(self):
        self.ops, self.faults, self.envs, self.sites, self.peaks, self.faults_in, self.probes = {}, {}, {}, {}, {}, {}, {}

    def op(self, n):
        self.ops[n] = self.ops.get(n, 0) + 1

    def fault(self, n):
        self.faults[n] = self.faults.get(n, 0) + 1

    def fault_in(self, n):
        self.faults_in[n] = self.faults_in.get(n, 0) + 1

    def env(self, n):
        self.envs[n] = self.envs.get(n, 0) + 1

    def site(self, n):
        self.sites[n] = self.sites.get(n, 0) + 1

    def probe(self, n, k=1):
        self.probes[n] = self.probes.get(n, 0) + k

    def peak(self, n, v):
        self.peaks[n] = max(self.peaks.get(n, 0), v)

    def as_dict(self):
        return {"ops": self.ops, "faults": self.faults, "envs": self.envs, "sites": self.sites, "peaks": self.peaks,
                "faults_in": self.faults_in, "probes": self.probes}


# ------------------------------------------------------------------------------------------------ reading by path
def _op_readpath(self, k, op, inj):
    """read_all_events_from_pml(path): the path is opened through the simulated file layer"""
    import hashlib
    import pathlib
    import shutil
    import tempfile
    from .filelayer import FileLayer, OPEN_ERRORS
    L = lib()
    label = self.label(k, op)
    scratch = tempfile.mkdtemp(prefix="simpath-")
    try:
        path = os.path.join(scratch, op.get("name", "log.pml"))
        disk = Disk(self.disk.data, self.scn.get("stream", {}).get("short"))
        if not op.get("missing"):
            with open(path, "wb") as f:
                f.write(self.disk.data)
        disk.arm(op.get("faults"))
        # interrupts that strike at a line can hit before a with-block is entered or while it is left: there only a handle
        # that nothing will ever close counts as leaked
        strict = inj is None
        layer = FileLayer(path, disk, op.get("buf", 64), strict, OPEN_ERRORS.get("ENOENT" if op.get("missing") else op.get("open_error")))
        arg = {"str": path, "bytes": os.fsencode(path), "path": pathlib.Path(path)}[op["path"]]
        full = Slot(None, True, True)
        exp = ("ok", [self.exp_event(i, full) for i in range(self.img.n)])
        if op.get("missing"):
            exp = ("exc", (FileNotFoundError,))
        elif op.get("open_error"):
            exp = ("exc", (OSError,))
        elif self.expect_open:
            exp = ("exc", (getattr(L, self.expect_open),))
        self.disk.fired, self.disk.injected, self.disk.soft = disk.fired, disk.injected, disk.soft
        with layer:
            out = self.call(lambda: L.read_all_events_from_pml(arg), inj)
        how = "%s%s" % (out[0], "" if out[0] == "ok" else " " + type(out[1]).__name__)
        if disk.shorts:
            self.stats.faults["short-read"] = self.stats.faults.get("short-read", 0) + disk.shorts
        if strict:
            open_handles = [h for h in layer.handles if not h.closed]
            if open_handles:
                self.fail("leaked-handle", "%s ended with %s and left the file it opened open" % (label, how))
        try:
            if out[0] == "ok" and not self.loose and len(out[1]) != self.img.n:
                self.fail("incomplete-list", "%s returned %d of %d events%s" % (label, len(out[1]), self.img.n,
                                                                               " after " + ",".join(disk.fired) if disk.fired else ""))
            if out[0] == "ok" and self.damaged and not self.loose:
                for i, e in enumerate(out[1]):
                    if i not in self.damaged and observe.snap_event(e) != exp[1][i]:
                        self.fail("wrong-value", "%s: event %d: %s" % (label, i, observe.diff(exp[1][i], observe.snap_event(e))))
            if out[0] == "exc" and isinstance(out[1], StopIteration):
                self.fail("false-end", "%s raised StopIteration" % label)
            saved, self.closed = self.closed, False  # the path is a file of its own
            tag = self.judge(label, out, exp, "events", bool(self.damaged), inj)
            self.closed = saved
        finally:
            out = None
            if inj is not None and inj.raised is not None:
                inj.raised.__traceback__ = None
                inj.raised = type(inj.raised)("simulated")
        layer.handles = []
        if layer.opens and not layer.open_error:
            if not strict and not disk.closed:
                gc.collect()
                if not disk.closed:
                    self.fail("leaked-handle", "%s ended with %s and the file it opened is never closed" % (label, how))
            self.stats.probe("opened-by-path")
        fds = layer.leaked_descriptors()
        if fds:
            gc.collect()
            fds = layer.leaked_descriptors()
        if fds:
            for fd in fds:
                os.close(fd)
            self.fail("leaked-handle", "%s ended with %s and left a descriptor of the file open" % (label, how))
        if any("b" not in m or set(m) & set("wax+") for m in layer.modes):
            self.fail("opened-for-writing", "%s opened the log with mode %s" % (label, layer.modes))
        if not op.get("missing"):
            with open(path, "rb") as f:
                if f.read() != self.disk.data:
                    self.fail("changed-file", "%s changed the file" % label)
        self.stats.probe("path-calls")
        return tag
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


Session.op_readpath = _op_readpath
