"""Executes one scenario of configuration loading and saving against the library and judges every step against the model."""
import io
import gc
import os
import tracemalloc
from collections import OrderedDict

from . import boot, instrument, pmcgen
from .engine_pml import Violation, attempt, chain, lib
from .observe import diff, short
from .simdisk import ERRORS, Disk, NoSeekRaw, ReadOnlyDuck, SimHang, SinkDisk, make_sink, make_stream

DROP = object()


class Handle(object):
    """A configuration in memory: the library's mapping and the model of it"""

    def __init__(self, real, model, strict=True):
        self.real, self.model = real, model


class FileState(object):
    """A file of the simulated store: what is durable, and what the model knows about it"""

    def __init__(self, content=b"", cfg=None, partial=None):
        self.content, self.cfg, self.partial = content, cfg, partial


class ConfigSession(object):
    def __init__(self, scn, stats):
        self.scn, self.stats, self.trace = scn, stats, []
        self.configs = scn.get("configs") or []
        self.handles, self.files = {}, {}
        self.hook = None
        self.cur = None  # the disk of the step
        self.budget = scn.get("budget")
        self.alone = {k: self.load_alone(op) for k, op in enumerate(scn["ops"]) if op.get("same") and op.get("damage")}

    def load_alone(self, op):
        """What plain memory gives for the damaged data of a step, before anything else happens"""
        data, _ = self.damage(self.cfg(op), pmcgen.encode(self.cfg(op)), op["damage"])
        out = attempt(lambda: loaded(lib().loads_configuration(data)))
        return out if out[0] == "ok" else ("exc", type(out[1]).__name__)

    def in_thread(self, sched):
        self.hook = sched.point

    # ---------------------------------------------------------------- helpers
    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def run(self):
        for k, op in enumerate(self.scn["ops"]):
            self.stats.op(op["o"])
            self.cur = None
            self.inj = self.injector(op) if "inj" in op else None
            tag = getattr(self, "op_" + op["o"])(k, op)
            fired = tuple(self.cur.fired) if self.cur is not None else ()
            for f in fired:
                self.stats.fault(f)
                self.stats.fault_in(op["o"])
            if isinstance(self.cur, Disk) and self.cur.shorts:
                self.stats.faults["short-read"] = self.stats.faults.get("short-read", 0) + self.cur.shorts
            if self.inj is not None and self.inj.raised is not None:
                self.stats.fault("line:" + type(self.inj.raised).__name__)
                self.stats.site(self.inj.where)
            self.inj = None
            self.trace.append((op["o"], tag, fired, self.shape(op)))
        self.verify_all("at the end")
        return self.trace

    def shape(self, op):
        """What tells apart steps with the same outcome"""
        st = op.get("stream") or op.get("sink") or {}
        return (st.get("kind"), st.get("buf"), len(self.cfg(op)), sorted(x for x in op if x not in ("o", "c", "h", "f", "stream", "sink")))

    def label(self, k, op):
        return "step %d (%s)" % (k, ", ".join("%s=%s" % (a, short(b, 60)) for a, b in op.items() if a not in ("faults", "inj", "value")))

    def injector(self, op):
        L, c, spec = lib(), instrument.LineRecorder(), op["inj"]
        try:
            cfg = self.handles[op["h"]].model if "h" in op and op["h"] in self.handles else self.cfg(op)
            fn = self.files[op["f"]].content if op["o"] == "fload" and op.get("f") in self.files else pmcgen.encode(cfg)
            m = pmcgen.make(cfg)
            with instrument.active(c):
                if op["o"] in ("load", "loads", "fload"):
                    L.loads_configuration(fn)
                else:
                    L.dumps_configuration(m)
        except Exception:
            pass
        return c.injector(spec, ERRORS[spec["err"]], boot.PACKAGE + os.sep)

    def call(self, fn):
        if self.inj is not None:
            with instrument.active(self.inj):
                return attempt(fn)
        if self.budget:
            return self.budgeted(fn)
        return attempt(fn)

    def budgeted(self, fn):
        size = self.work_size
        lines = 100000 + 500 * size
        mem = 8 * 1024 * 1024 + 2000 * size
        counter = instrument.LineCounter(lines, SimHang)
        tracemalloc.start()
        try:
            with instrument.active(counter):
                out = attempt(fn)
            peak = tracemalloc.get_traced_memory()[1]
        except SimHang as e:
            self.fail("unbounded-work", "%s (limit %d lines for %d bytes)" % (e, lines, size))
        finally:
            tracemalloc.stop()
        if peak > mem:
            self.fail("unbounded-memory", "a peak of %d bytes allocated for %d bytes of data" % (peak, size))
        self.stats.peak("lines", counter.n)
        self.stats.peak("lines-per-byte", counter.n // max(1, size) if size > 64 else 0)
        self.stats.peak("bytes", peak)
        return out

    def cfg(self, op):
        return self.configs[op.get("c", 0) % len(self.configs)] if self.configs else []

    def snap(self, label, real):
        try:
            return pmcgen.snap(real)
        except Exception as e:
            self.fail("bad-value", "%s gave an unusable configuration: %s: %s" % (label, type(e).__name__, e))

    def judge_exception(self, label, e, allowed):
        """An operation raised: only what was injected, or what `allowed` says"""
        d = self.cur
        injected = list(d.injected) if d is not None else []
        line = self.inj.raised if self.inj is not None else None
        if line is not None:
            injected.append(line)
        fired = list(d.fired) if d is not None else []
        if not isinstance(e, Exception):
            if any(e is x for x in injected):
                return "raised-" + type(e).__name__
            self.fail("unexpected-exception", "%s raised %s: %s" % (label, type(e).__name__, e))
        if line is not None:
            if not isinstance(line, Exception) and not self.translated(e, line):
                self.fail("interrupt-replaced", "%s: %s at %s became %s: %s" % (label, type(line).__name__, self.inj.where, type(e).__name__, e))
            return "raised-" + type(e).__name__
        if isinstance(e, MemoryError) and not any(isinstance(x, MemoryError) for x in injected):
            self.fail("unbounded-memory", "%s ran out of memory" % label)
        if fired and any(not isinstance(x, Exception) for x in injected):
            self.fail("interrupt-replaced", "%s: %s became %s: %s" % (label, "/".join(type(x).__name__ for x in injected), type(e).__name__, e))
        if fired or (d is not None and d.soft):
            return "raised-" + type(e).__name__
        if allowed:
            return "rejected-" + type(e).__name__
        self.fail("unexpected-exception", "%s raised %s: %s" % (label, type(e).__name__, short(str(e))))

    def translated(self, e, line):
        """Some handlers of the format engine turn whatever strikes inside of them into one of its own errors"""
        from construct import ConstructError
        return isinstance(e, ConstructError) and any(x is line for x in chain(e))

    def check_swallowed(self, label):
        if self.inj is not None and self.inj.raised is not None and not isinstance(self.inj.raised, Exception):
            self.fail("interrupt-swallowed", "%s returned normally although %s was raised at %s" % (label, type(self.inj.raised).__name__, self.inj.where))
        if self.cur is not None and any(not isinstance(x, Exception) for x in self.cur.injected):
            self.fail("interrupt-swallowed", "%s returned normally although the stream raised %s" % (label, self.cur.fired))
        if self.scn.get("prop") in ("C02", "C06"):  # they say that it must raise
            if self.inj is not None and self.inj.raised is not None:
                self.fail("error-swallowed", "%s returned normally although %s was raised at %s" % (label, type(self.inj.raised).__name__, self.inj.where))
            # the buffered streams of the standard library try again themselves when a call is interrupted
            if self.cur is not None and [x for x in self.cur.injected if not isinstance(x, InterruptedError)]:
                self.fail("error-swallowed", "%s returned normally although the stream raised %s" % (label, self.cur.fired))

    # ---------------------------------------------------------------- loading
    def read_stream(self, data, op):
        st = op.get("stream", {})
        pre = bytes.fromhex(op.get("prefix", ""))
        disk = self.cur = Disk(pre + data, st.get("short"))
        kind = st.get("kind", "bytesio")
        if kind == "pipe":
            stream = NoSeekRaw(disk)
        elif kind == "readonly":
            stream = ReadOnlyDuck(disk)
        elif kind == "bufpipe":
            disk.buffered = True
            stream = io.BufferedReader(NoSeekRaw(disk), max(1, st.get("buf", 64)))
        else:
            stream = make_stream(kind, disk, st.get("buf", 64))
        if pre:
            left = len(pre)
            while left:
                left -= len(stream.read(left))
        disk.hook = self.hook
        disk.shorts = 0
        disk.arm(op.get("faults"))
        return stream

    def do_load(self, label, data, op, exp, partial=False, reject=False, loose=None):
        """exp: canonical options; partial: a leading part is as good; reject: it must raise; loose: checker of damaged data"""
        L = lib()
        self.work_size = len(data)
        if op.get("api") == "loads":
            out = self.call(lambda: L.loads_configuration(data))
        else:
            stream = self.read_stream(data, op)
            out = self.call(lambda: L.load_configuration(stream))
            self.cur.disarm()
            if getattr(self.cur, "closes", 0):
                self.fail("closed-callers-stream", "%s closed the stream of the caller" % label)
            if getattr(self.cur, "writes", 0):
                self.fail("wrote-callers-stream", "%s wrote to the stream of the caller" % label)
        if out[0] == "exc":
            return self.judge_exception(label, out[1], partial or reject or loose), None
        self.check_swallowed(label)
        if loose is not None:
            loose(label, out[1])
            return "value", out[1]
        if reject:
            self.fail("no-error", "%s returned %s although the data %s" % (label, short(self.snap(label, out[1])), reject))
        got = self.snap(label, out[1])
        if got != exp and not (partial and got == exp[:len(got)]):
            fired = self.cur.fired if self.cur is not None else []
            cls = "missing-options" if len(got) < len(exp) and got == exp[:len(got)] else "wrong-value"
            self.fail(cls, "%s%s: %s" % (label, " after " + ",".join(fired) if fired else "", self.explain(exp, got)))
        return "exact" if got == exp else "leading-part", out[1]

    def explain(self, exp, got):
        if len(exp) != len(got):
            return "%d of %d options: expected %s got %s" % (len(got), len(exp), short([x[0] for x in exp]), short([x[0] for x in got]))
        return diff(exp, got)

    def op_load(self, k, op):
        cfg = self.cfg(op)
        data, exp = pmcgen.encode(cfg), pmcgen.canon(cfg)
        label = self.label(k, op)
        reject, loose, partial = None, None, False
        if "cut" in op:
            pos = self.cutpos(cfg, data, op["cut"])
            bounds = pmcgen.boundaries(cfg)
            data = data[:pos]
            label += " cut at %d of %d" % (pos, bounds[-1])
            if pos in bounds:
                exp = exp[:max(i for i, b in enumerate(bounds) if b == pos)]
            else:
                reject = "ends inside a record"
            self.stats.fault("cut")
        if op.get("invalid"):
            data, why = self.invalidate(cfg, op["invalid"])
            if why:
                reject = why
                self.stats.fault("invalid-record")
        if op.get("damage"):
            data, loose = self.damage(cfg, data, op["damage"])
            self.stats.fault("damage")
        tag, real = self.do_load(label, data, op, exp, partial, reject, loose)
        if k in self.alone and self.inj is None:
            how, ref = self.alone[k]
            if real is None:
                if how == "ok" and not tag.startswith("raised"):
                    self.fail("depends-on-stream", "%s: %s, although the same bytes load from memory as %s" % (label, tag, short(ref)))
            elif how == "exc":
                self.fail("no-error", "%s returned %s, the same bytes in memory are refused (%s)" % (label, short(loaded(real)), ref))
            elif loaded(real) != ref:
                self.fail("wrong-value", "%s: the same bytes in memory load differently: %s" % (label, diff(ref, loaded(real))))
            self.stats.probe("damaged-compared")
        return tag

    def cutpos(self, cfg, data, c):
        if isinstance(c, dict) and cfg:
            b = pmcgen.boundaries(cfg)
            i = c["opt"] % len(cfg)
            return min(len(data), b[i] + int((b[i + 1] - b[i]) * c["f"]) + c.get("d", 0)) if c["f"] or c.get("d", 0) >= 0 else b[i]
        if isinstance(c, dict):
            return 0
        return int(len(data) * c)

    def invalidate(self, cfg, inv):
        """One record of the configuration is made undecodable. Returns (data, why) - why None: not applicable"""
        if not cfg:
            return b"", None
        i = inv["opt"] % len(cfg)
        parts = [pmcgen.encode_option(o) for o in cfg]
        rec = bytearray(parts[i])
        name, kind, value = cfg[i]
        how, why = inv["how"], None
        head = 16 + len(pmcgen.cstring(name))
        if how == "enum" and kind == "map" and value:
            j = inv["el"] % len(value)
            rec[head + 4 * j:head + 4 * j + 4] = b"\x01\x00\x00\x00"
            why = "names a column that does not exist"
        elif how == "enum" and kind == "rules" and value:
            j = inv["el"] % len(value)
            p = head + 5 + sum(len(pmcgen.encode_rule(r)) for r in value[:j])
            if inv["el"] % 3 == 0:
                rec[p:p + 4] = b"\x07\x00\x00\x00"
                why = "names a column that does not exist"
            elif inv["el"] % 3 == 1:
                rec[p + 4:p + 8] = b"\x63\x00\x00\x00"
                why = "names a relation that does not exist"
            else:
                rec[p + 8] = 0x09
                why = "names an action that does not exist"
        elif how == "size":
            d = inv["el"] % 7 + 1
            good = int.from_bytes(rec[0:4], "little")
            size = good + d if inv["el"] % 3 == 0 else [0, 1, 0x10, good - 1, good - 16, 0xffffffff, 0x7fffffff, good ^ 0x10000][inv["el"] // 3 % 8]
            if size == good:
                size = 0
            rec[0:4] = size.to_bytes(4, "little")
            why = "has a record with a wrong size"
        elif how == "header":
            rec[4:8] = [0, 4, 0x0f, 0x11 + inv["el"] % 9, 0x20, 0xffffffff][inv["el"] // 9 % 6].to_bytes(4, "little")
            why = "has a record with a wrong header size"
        elif how == "zero" and i + 1 < len(cfg):
            # (nothing was ever written to its place)
            n = len(rec) if inv["el"] % 2 else 16
            rec[:n] = b"\0" * n
            why = "has a record that is zero"
        elif how == "const" and kind == "rules":
            rec[head] = 2 + inv["el"] % 200
            why = "has a rules record of an unknown version"
        parts[i] = bytes(rec)
        return b"".join(parts), why

    def damage(self, cfg, data, items):
        out = bytearray(data)
        bounds = pmcgen.boundaries(cfg)
        first, confined = None, True
        for d in items:
            if not out:
                break
            raw = bytes.fromhex(d["x"])
            if "opt" in d and cfg:
                i = d["opt"] % len(cfg)
                lo, hi = bounds[i], bounds[i + 1]
                p = lo + d["o"] % (hi - lo)
            else:
                p = d["o"] % len(out)
                i = max(0, max(j for j, b in enumerate(bounds) if b <= p))
            for q, b in enumerate(raw):
                if p + q < len(out):
                    out[p + q] = (out[p + q] ^ b) if d.get("xor") else b
            last = min(p + len(raw), len(out)) - 1
            head = bounds[i] + 16 + len(pmcgen.cstring(cfg[i][0])) if i < len(cfg) else 0
            if p < head or i >= len(cfg) or last >= bounds[i + 1] or cfg[i][1] in ("rules",):
                confined = False
            first = i if first is None else min(first, i)
        exp = pmcgen.canon(cfg)

        def loose(label, real):
            try:
                items = list(real.items())
            except Exception as e:
                self.fail("bad-value", "%s gave an unusable configuration: %s: %s" % (label, type(e).__name__, e))
            before = exp[:first or 0]
            names = [n for n, _ in items[:len(before)]]
            if names != [n for n, _ in before]:
                self.fail("wrong-value", "%s: the options before the damaged one are %s, expected %s" % (label, short(names), short([n for n, _ in before])))
            if not confined:
                # a later record may have taken the name of an earlier one: nothing more to say about that one
                if len(items) >= len(exp):
                    for (n, v), e in zip(items, before):
                        if [n, pmcgen.snap_value(n, v)] != e:
                            self.fail("wrong-value", "%s: the option %r before the damaged one changed" % (label, n))
                return
            for (n, v), e in zip(items, before):
                try:
                    got = [n, pmcgen.snap_value(n, v)]
                except Exception as x:
                    self.fail("bad-value", "%s: option %r is unusable: %s" % (label, n, x))
                if got != e:
                    self.fail("wrong-value", "%s: the option %r before the damaged one: %s" % (label, n, diff(e, got)))
        return bytes(out), loose

    # ---------------------------------------------------------------- saving
    def open_sink(self, op):
        st = op.get("sink", {})
        pre = bytes.fromhex(st.get("pre", ""))
        kind = st.get("kind", "bytesio")
        disk = self.cur = SinkDisk(pre, None if kind == "bytesio" else st.get("capacity"), st.get("max_write"))
        pos = min(len(pre) + 16, st.get("pos", 0))
        if kind in ("duck", "append", "pipe", "bufpipe"):
            pos = len(pre)
        stream = make_sink(kind, disk, pos if kind != "append" else st.get("pos", 0), st.get("buf", 64))
        if "capacity" in st and kind != "bytesio":
            disk.capacity = pos + st["capacity"]
        disk.hook = self.hook
        disk.arm(op.get("faults"))
        return stream, disk, pos

    @staticmethod
    def applied(pre, pos, part):
        if not part:
            return pre
        base = pre.ljust(pos, b"\0")
        return base[:pos] + part + base[pos + len(part):]

    def do_dump(self, label, real, ser, op, reject=None):
        """Saves `real` through the sink of the step. ser: what it must write; reject: why it must raise.
        Returns (tag, durable content, whether it was reported as saved)"""
        L = lib()
        stream, disk, pos = self.open_sink(op)
        pre = disk.pre
        kind = op.get("sink", {}).get("kind", "bytesio")
        self.work_size = len(ser) if ser is not None else 1000
        out = self.call(lambda: L.dump_configuration(real, stream))
        content = lambda: stream.getvalue() if kind == "bytesio" else bytes(disk.content)
        where = ""
        if disk.closes or (kind == "bytesio" and stream.closed):
            self.fail("closed-callers-stream", "%s closed the stream of the caller" % label)
        if out[0] == "ok" and kind in ("buffered", "bufpipe", "random"):
            fl = attempt(stream.flush)
            if fl[0] == "exc":
                out, where = fl, " (when flushed)"
        disk.hook = None
        disk.disarm()
        now = content()
        if reject:
            # nothing may be written, whatever else happens
            wrote = [x for x in disk.log if x[1]]
            if out[0] == "ok":
                self.fail("no-error", "%s returned although %s" % (label, reject))
            if kind in ("buffered", "bufpipe", "random"):
                attempt(stream.flush)
                now = content()
                wrote = [x for x in disk.log if x[1]]
            if now != pre or wrote:
                self.fail("written-before-error", "%s: %s, but the target changed: %s" % (label, reject, self.explain_bytes(pre, now)))
            tag = self.judge_exception(label, out[1], True)
            self.drop(stream, disk)
            return tag, now, False
        full = self.applied(pre, pos, ser)
        if out[0] == "ok":
            self.check_swallowed(label)
            if now != full:
                cls = "incomplete-save" if self.prefix_of(pre, pos, ser, now) is not None else "wrong-bytes"
                self.fail(cls, "%s was reported as saved%s%s: %s" % (label, " after " + ",".join(disk.fired) if disk.fired else "", where, self.explain_bytes(full, now)))
            if kind in ("raw", "buffered", "random", "bytesio"):
                t = attempt(stream.tell)
                if t != ("ok", pos + len(ser)):
                    self.fail("wrong-position", "%s left the stream at %s instead of %d" % (label, t[1], pos + len(ser)))
            if kind in ("raw", "random", "buffered"):
                for at, b in disk.log:
                    if b is None or at < pos or at + len(b) > pos + len(ser):
                        self.fail("wrote-elsewhere", "%s wrote %s bytes at %d, outside of its %d bytes at %d" % (label, b and len(b), at, len(ser), pos))
            self.drop(stream, disk)
            return "saved", now, True
        tag = self.judge_exception(label + where, out[1], False)
        if now != pre:
            k = self.prefix_of(pre, pos, ser, now)
            if k is None:
                self.fail("wrong-bytes", "%s failed and left bytes that are no leading part of the configuration: %s" % (label, self.explain_bytes(full, now)))
        self.drop(stream, disk)
        return tag, now, False

    def prefix_of(self, pre, pos, ser, now):
        """The largest k so that exactly the first k bytes of `ser` were applied, or None"""
        lo, hi = 0, min(len(ser), max(0, len(now) - pos))  # the length of what is common
        while lo < hi:
            mid = (lo + hi + 1) // 2
            lo, hi = (mid, hi) if now[pos:pos + mid] == ser[:mid] else (lo, mid - 1)
        # it ends at the end of the content, or what follows it (the less, the more is applied) is as it was
        for k in sorted({lo, min(lo, max(0, len(pre) - pos)), 0}, reverse=True):
            if now == self.applied(pre, pos, ser[:k]):
                return k
        return None

    def drop(self, stream, disk):
        disk.closed = True
        if isinstance(stream, (io.BufferedWriter, io.BufferedRandom)):
            try:
                stream.close()
            except Exception:
                pass

    def explain_bytes(self, exp, got):
        n = 0
        while n < min(len(exp), len(got)) and exp[n] == got[n]:
            n += 1
        return "%d bytes instead of %d, first difference at %d (%s instead of %s)" % (len(got), len(exp), n, got[n:n + 8].hex(), exp[n:n + 8].hex())

    def op_dump(self, k, op):
        """Saves a configuration given by value"""
        cfg = self.cfg(op)
        real = pmcgen.make(cfg, OrderedDict if op.get("ordered") else dict, op.get("alt"))
        label, ser, exp = self.label(k, op), pmcgen.encode(cfg), pmcgen.canon(cfg)
        ids = [(n, id(v)) for n, v in real.items()]
        tag, now, ok = self.do_dump(label, real, ser, op)
        if self.snap(label, real) != exp or [(n, id(v)) for n, v in real.items()] != ids:
            self.fail("save-changed-configuration", "%s changed the configuration it saved: %s" % (label, self.explain(exp, self.snap(label, real))))
        return tag

    def op_dumps(self, k, op):
        L = lib()
        cfg = self.cfg(op)
        label, ser = self.label(k, op), pmcgen.encode(cfg)
        real = pmcgen.make(cfg, dict, op.get("alt"))
        ids = [(n, id(v)) for n, v in real.items()]
        self.work_size = len(ser)
        out = self.call(lambda: L.dumps_configuration(real))
        if out[0] == "exc":
            return self.judge_exception(label, out[1], False)
        self.check_swallowed(label)
        if out[1] != ser:
            self.fail("wrong-bytes", "%s: %s" % (label, self.explain_bytes(ser, out[1])))
        if self.snap(label, real) != pmcgen.canon(cfg) or [(n, id(v)) for n, v in real.items()] != ids:
            self.fail("save-changed-configuration", "%s changed the configuration it saved" % label)
        return "exact"

    # -- crash while saving
    def op_crashdump(self, k, op):
        """Saves, and then loads every image that a crash at some point of the physical writes can leave"""
        L = lib()
        cfg = self.cfg(op)
        real = pmcgen.make(cfg)
        label, ser, exp = self.label(k, op), pmcgen.encode(cfg), pmcgen.canon(cfg)
        stream, disk, pos = self.open_sink(op)
        out = attempt(lambda: L.dump_configuration(real, stream))
        if out[0] == "ok" and hasattr(stream, "flush"):
            attempt(stream.flush)
        disk.disarm()
        log = list(disk.log)
        self.drop(stream, disk)
        if out[0] == "exc":
            self.judge_exception(label, out[1], False)
        images = self.images(log, op["points"], len(ser), pmcgen.boundaries(cfg))
        parts = 0
        for where, img in images:
            o = attempt(lambda: L.loads_configuration(img))
            self.stats.probe("crash-images")
            if o[0] == "exc":
                if not isinstance(o[1], Exception):
                    self.fail("unexpected-exception", "%s, crash %s: loading raised %s" % (label, where, type(o[1]).__name__))
                self.stats.probe("crash-images-refused")
                continue
            got = self.snap("%s, crash %s: loading" % (label, where), o[1])
            if got != exp[:len(got)]:
                self.fail("wrong-after-crash", "%s, crash %s: %d bytes are stored and load as %s" % (label, where, len(img), self.explain(exp[:len(got)], got)))
            parts += 1
        return "crashed-%d" % parts

    def images(self, log, points, size, bounds):
        """Contents of the file after a crash, in the order of the writes; the last write may be torn at any byte"""
        seen, out = set(), []

        def add(where, content):
            b = bytes(content)
            if b not in seen:
                seen.add(b)
                out.append((where, b))
        total = sum(len(b) if b is not None else 1 for _, b in log)
        if points.get("all") or total <= 150:
            cuts = list(range(total + 1))
        else:
            cuts = sorted({int(total * f) for f in points["f"]} | {max(0, min(total, b + d)) for b in bounds for d in points["d"]} | {0, total})
        content, done, i, off = bytearray(), 0, 0, 0
        for c in cuts:
            while done < c:
                at, b = log[i]
                if b is None:
                    del content[at:]
                    done += 1
                    i += 1
                    continue
                n = min(len(b) - off, c - done)
                if at + off > len(content):
                    content.extend(b"\0" * (at + off - len(content)))
                content[at + off:at + off + n] = b[off:off + n]
                off += n
                done += n
                if off == len(b):
                    i, off = i + 1, 0
            add("after %d of %d bytes" % (c, total), content)
        return out

    # -- options that can't be represented
    def op_baddump(self, k, op):
        L = lib()
        cfg = self.cfg(op)
        real = pmcgen.make(cfg, OrderedDict if op.get("ordered") else dict, op.get("alt"))
        label = self.label(k, op)
        names = [o[0] for o in cfg]
        items = list(real.items())
        bad = []
        for b in op["bad"]:
            made = make_bad(b)
            if made is None:
                continue
            name, value, why = made
            if name in names:
                i = names.index(name)
                items[i] = (name, value)
            else:
                i = b["at"] % (len(items) + 1)
                items.insert(i, (name, value))
                names.insert(i, name)
            bad.append((name, why))
        if not bad:
            return "not-applicable"
        real = type(real)(items)
        before = [(n, id(v), freeze(v)) for n, v in real.items()]
        self.stats.fault("unserialisable")
        for _, why in bad:
            self.stats.probe("bad:" + why)
        tag, now, ok = self.do_dump(label, real, None, op, "%r %s" % bad[0])
        after = [(n, id(v), freeze(v)) for n, v in real.items()]
        if after != before:
            self.fail("save-changed-configuration", "%s changed the configuration it could not save" % label)
        if op.get("dumps"):
            o = attempt(lambda: L.dumps_configuration(real))
            if o[0] == "ok":
                self.fail("no-error", "%s: dumps_configuration returned although %r %s" % ((label,) + bad[0]))
        # corrected and saved again
        fixed_cfg = [list(o) for o in cfg]
        fixed = type(real)()
        for n, v in real.items():
            if n in [o[0] for o in cfg]:
                o = [o for o in cfg if o[0] == n][0]
                fixed[n] = pmcgen.make_value(o[1], o[2]) if n in [x for x, _ in bad] else v
        ser = pmcgen.encode(fixed_cfg)
        again = {"sink": dict(op.get("sink", {}))}
        again["sink"].pop("capacity", None)
        again["sink"].pop("max_write", None)
        self.do_dump(label + " after correcting it", fixed, ser, again)
        return tag

    # ---------------------------------------------------------------- sessions over a file store
    def op_new(self, k, op):
        cfg = _copy(self.cfg(op))
        self.handles[op["h"]] = Handle(pmcgen.make(cfg, OrderedDict if op.get("ordered") else dict, op.get("alt")), cfg)
        return "made"

    def op_fload(self, k, op):
        f = self.files.get(op["f"])
        if f is None:
            return "no-file"
        label = self.label(k, op)
        if f.cfg is not None:
            exp, partial = f.cfg, False
        else:
            exp, partial = f.partial, True
        tag, real = self.do_load(label, f.content, op, pmcgen.canon(exp), partial)
        if real is not None:
            n = len(real)
            self.handles[op["h"]] = Handle(real, [_copy(o) for o in exp[:n]])
        self.verify_all(label)
        return tag

    def op_fsave(self, k, op):
        h = self.handles.get(op["h"])
        if h is None:
            return "no-handle"
        label = self.label(k, op)
        ser = pmcgen.encode(h.model)
        ids = [(n, id(v)) for n, v in h.real.items()]
        op = dict(op)
        op["sink"] = dict(op.get("sink", {}), pre="", pos=0)
        tag, now, ok = self.do_dump(label, h.real, ser, op)
        if [(n, id(v)) for n, v in h.real.items()] != ids:
            self.fail("save-changed-configuration", "%s changed the configuration it saved" % label)
        model = [_copy(o) for o in h.model]
        self.files[op["f"]] = FileState(now, model if ok else None, None if ok else model)
        self.verify_all(label)
        if ok and op.get("again"):
            a, b = attempt(lambda: lib().dumps_configuration(h.real)), attempt(lambda: lib().dumps_configuration(h.real))
            if a != ("ok", ser) or b != ("ok", ser):
                self.fail("wrong-bytes", "%s: saving again gives other bytes" % label)
        return tag

    def op_fcrash(self, k, op):
        """The machine dies in the middle of a save: what is in memory is gone, of the file some first bytes are there"""
        h = self.handles.get(op["h"])
        if h is not None:
            stream, disk, pos = self.open_sink(op)
            attempt(lambda: lib().dump_configuration(h.real, stream))
            attempt(getattr(stream, "flush", lambda: None))
            log = list(disk.log)
            self.drop(stream, disk)
            imgs = self.images(log, {"f": [op["at"]], "d": [0]}, 0, [])
            img = imgs[min(len(imgs) - 1, int(len(imgs) * op["at"]))][1]
            self.files[op["f"]] = FileState(img, None, [_copy(o) for o in h.model])
            self.stats.fault("crash")
        self.handles = {}
        gc.collect(0)
        return "crashed"

    def op_restart(self, k, op):
        self.handles = {}
        return "restarted"

    def op_edit(self, k, op):
        h = self.handles.get(op["h"])
        if h is None:
            return "no-handle"
        label = self.label(k, op)
        m, r = h.model, h.real
        how = op["how"]
        if how == "set":
            name, kind, value = op["value"]
            r[name] = pmcgen.make_value(kind, value)
            for o in m:
                if o[0] == name:
                    o[2] = _copy(value)
                    break
            else:
                m.append([name, kind, _copy(value)])
            self.verify_all(label)
            return "set"
        if not m:
            return "empty"
        i = op["i"] % len(m)
        name, kind, value = m[i]
        if how == "del":
            del r[name]
            del m[i]
        elif how == "move":
            v = r.pop(name)
            r[name] = v
            m.append(m.pop(i))
        elif how == "clear":
            r.clear()
            del m[:]
        elif how == "inplace":
            v, x = r[name], op["value"]
            if kind in ("cols", "map", "rules") and isinstance(v, list):
                if x["k"] == 0 and value:
                    del v[0], value[0]
                elif x["k"] == 1:
                    el = {"cols": x["col"] & 0xffff, "map": x["map"], "rules": x["rule"]}[kind]
                    v.append(pmcgen.make_value(kind, [el])[0])
                    value.append(_copy(el))
                elif x["k"] == 2:
                    v.reverse()
                    value.reverse()
                elif kind == "rules" and value:
                    v[-1].value, value[-1][3] = x["rule"][3], x["rule"][3]
                    v[-1].column, value[-1][0] = pmcgen.make_value("map", [x["rule"][0]])[0], x["rule"][0]
                else:
                    del v[:], value[:]
            elif kind == "font":
                v.height, value[0] = x["col"], x["col"]
                v.face_name, value[13] = "edited", "edited"
        self.verify_all(label)
        return how

    def op_verify(self, k, op):
        self.verify_all(self.label(k, op))
        return "verified"

    def verify_all(self, label):
        for n, h in self.handles.items():
            got = self.snap(label, h.real)
            exp = pmcgen.canon(h.model)
            if got != exp:
                self.fail("changed-configuration", "%s: configuration %s in memory changed: %s" % (label, n, self.explain(exp, got)))


def loaded(real):
    """Whatever was loaded (from damaged data, of any type) as plain values"""
    return [[n, repr(v) if not hasattr(v, "face_name") else sorted((k, repr(x)) for k, x in vars(v).items())] for n, v in real.items()]


def _copy(v):
    return [_copy(x) for x in v] if isinstance(v, list) else v


def freeze(v):
    if isinstance(v, list):
        return [freeze(x) for x in list.__iter__(v)]
    if hasattr(v, "__dict__") and type(v).__module__.startswith("procmon_parser"):
        return sorted((k, repr(x)) for k, x in v.__dict__.items()) if not isinstance(v, int) else int(v)
    return repr(v)


def make_bad(b):
    """(name, value, why) of an option that can't be represented"""
    import procmon_parser as L
    from procmon_parser.configuration import Font
    kind, v = b["kind"], b["v"]
    names = {"u32": ["HistoryDepth", "Profiling", "Autoscroll", "ColumnCount"], "cols": ["Columns"], "map": ["ColumnMap"],
             "str": ["Logfile", "DbgHelpPath"], "cstr": ["SymbolPath", "SourcePath"], "font": ["LogFont", "BoookmarkFont"],
             "rules": ["FilterRules", "HighlightRules"], "bytes": ["Custom", "x"], "name": [None]}[kind]
    name = names[b["n"] % len(names)]

    def rule(**kw):
        r = L.Rule("Path", "contains", "1", "include")
        for k, x in kw.items():
            setattr(r, k, x)
        return r

    class Boom(list):
        """A list whose iteration fails on the way"""

        def __iter__(self):
            for x in list.__iter__(self):
                yield x
            raise OSError(5, "Input/output error (simulated)")

    table = {
        "u32": [(-1, "is negative"), (1 << 32, "is too large"), ("1", "is a text"), (None, "is missing"), (1.5, "is a float")],
        "cols": [([1, 70000], "has too large a width"), ([3, -1, 2], "has a negative width"), (["a"], "has a text for a width"), (None, "is missing"),
                 (Boom([1, 2]), "fails while it is read")],
        "map": [([L.Column.PID, None], "has no column in it"), ([L.Column.PID, "NoSuchColumn"], "names a column that does not exist"), (5, "is no list"),
                (Boom([L.Column.PID]), "fails while it is read")],
        "str": [(5, "is a number"), (None, "is missing"), (["a"], "is a list"), ("a\ud800b", "has a lone surrogate"), (b"abc", "is bytes")],
        "cstr": [(5, "is a number"), (None, "is missing"), (["a"], "is a list"), ("a\udfff", "has a lone surrogate"), (b"abc", "is bytes")],
        "font": [(Font(face_name="x" * 33), "has too long a face name"), (Font(italic=256), "has a value out of range"), (Font(height=-8), "has a negative height"),
                 (Font(face_name=None), "has no face name"), ({"height": 8}, "is no font"), (None, "is missing")],
        "rules": [([rule(), "x"], "has a text for a rule"), ([rule(), rule(value=7), rule()], "has a rule with a number for a value"),
                  ([rule(column=None)], "has a rule without a column"), ([rule(), rule(value="9" * 30)], "has a rule with too large a number"),
                  ([rule(value="a\ud800")], "has a rule with a lone surrogate"), (None, "is missing"), (7, "is no list"),
                  ([rule(action="maybe")], "has a rule with an unknown action"), (Boom([rule()]), "fails while it is read")],
        "bytes": [("text", "is a text"), (None, "is missing"), (7.5, "is a float"), ([1, 2], "is a list")],
        "name": [(b"x", "name"), ],
    }
    if kind == "name":
        return [(5, b"x", "has a number for a name"), ("a\ud800", b"x", "has a lone surrogate in its name"), (None, b"x", "has no name"),
                (b"Custom", b"x", "has bytes for a name")][v % 4]
    value, why = table[kind][v % len(table[kind])]
    return name, value, why
