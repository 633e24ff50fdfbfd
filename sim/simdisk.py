"""The simulated disk: file contents, the streams over it, and the faults of their calls."""
import io
import random
import struct
import zlib


class SimAbort(BaseException):
    """An asynchronous exception of a kind the library can't know"""


class SimFault(Exception):
    """An error of a kind the library can't know"""


def _log_error():
    from procmon_parser import PMLError
    return PMLError("simulated")


class SimHang(BaseException):
    """Raised by the simulator when an operation exceeds every legitimate amount of work"""


ERRORS = {
    "EIO": lambda: OSError(5, "Input/output error (simulated)"),
    "ESTALE": lambda: OSError(116, "Stale file handle (simulated)"),
    "ENOMEM": lambda: OSError(12, "Cannot allocate memory (simulated)"),
    "EINTR": lambda: InterruptedError(4, "Interrupted system call (simulated)"),
    "EAGAIN": lambda: BlockingIOError(11, "Resource temporarily unavailable (simulated)"),
    "ETIMEDOUT": lambda: TimeoutError(110, "Connection timed out (simulated)"),
    "ECONNRESET": lambda: ConnectionResetError(104, "Connection reset by peer (simulated)"),
    "EACCES": lambda: PermissionError(13, "Permission denied (simulated)"),
    "ENOSPC": lambda: OSError(28, "No space left on device (simulated)"),
    "EOFERROR": lambda: EOFError("Compressed file ended before the end-of-stream marker was reached (simulated)"),
    "ZLIB": lambda: zlib.error("Error -3 while decompressing data (simulated)"),
    "CLOSED": lambda: ValueError("I/O operation on closed file (simulated)"),
    "NOMEM": lambda: MemoryError("simulated"),
    "INDEX": lambda: IndexError("simulated"),
    "KEY": lambda: KeyError("simulated"),
    "STRUCT": lambda: struct.error("simulated"),
    "ASSERT": lambda: AssertionError("simulated"),
    "UNSUPPORTED": lambda: io.UnsupportedOperation("seek (simulated)"),
    "RUNTIME": lambda: RuntimeError("simulated"),
    "TYPE": lambda: TypeError("simulated"),
    "ATTRIBUTE": lambda: AttributeError("simulated"),
    "UNICODE": lambda: UnicodeDecodeError("utf-16", b"x", 0, 1, "simulated"),
    "NOTIMPL": lambda: NotImplementedError("simulated"),
    "CUSTOM": lambda: SimFault("simulated"),
    "PML": _log_error,
    "ALARM": lambda: TimeoutError("raised by a signal handler (simulated)"),
    "KBD": lambda: KeyboardInterrupt("simulated"),
    "EXIT": lambda: SystemExit(3),
    "ABORT": lambda: SimAbort("simulated"),
}
IO_ERRORS = ["EIO", "EIO", "EIO", "ESTALE", "ENOMEM", "EINTR", "EAGAIN", "ETIMEDOUT", "ECONNRESET", "EACCES", "EOFERROR", "ZLIB",
             "CLOSED", "NOMEM", "INDEX", "KEY", "STRUCT", "ASSERT", "UNSUPPORTED", "RUNTIME", "TYPE", "ATTRIBUTE", "UNICODE", "NOTIMPL", "CUSTOM", "PML", "NONE"]
ASYNC_ERRORS = ["KBD", "KBD", "NOMEM", "NOMEM", "NOMEM", "ABORT", "EXIT", "ALARM", "CUSTOM"]
MAX_CALLS = 3000000


class Disk(object):
    """Contents of one file, the armed faults, and what happened"""

    def __init__(self, data, short=None):
        self.data = data
        self.calls = {"read": 0, "seek": 0, "tell": 0}
        self.op_calls = {"read": 0, "seek": 0, "tell": 0, "any": 0}
        self.armed = []  # [op, nth, left, err, half]
        self.fired = []  # names of the fault kinds that fired during the current operation
        self.injected = []  # the exception objects raised during the current operation
        self.soft = []  # raised, but usually dealt with by the stream itself
        self.bad = []  # [lo, hi, err] unreadable ranges
        self.closed = False
        self.closes = 0
        self.writes = 0
        self.short = short  # {"seed", "p", "mode"}
        self.short_rng = random.Random("short/%s" % short["seed"]) if short else None
        self.shorts = 0
        self.buffered = False  # the stream over it repeats interrupted reads and believes a failed call did not move
        self.hook = None  # called at every stream call (thread switch point)
        self.total = {}
        self.delivered = 0  # bytes handed out

    # -- faults
    def arm(self, faults):
        self.op_calls = {"read": 0, "seek": 0, "tell": 0, "any": 0}
        self.fired, self.injected, self.soft = [], [], []
        # (buffered streams repeat an interrupted call for ever, so interruptions end)
        self.armed = [[f["op"], f["nth"], min(3, f.get("ttl", 1)) if f["err"] == "EINTR" else f.get("ttl", 1), f["err"], f.get("half", 0)] for f in faults or ()]

    def disarm(self):
        self.armed = []

    def _fire(self, err):
        self.fired.append(err)
        self.total[err] = self.total.get(err, 0) + 1
        if err == "NONE":
            return None
        e = ERRORS[err]()
        self.injected.append(e)
        raise e

    def _check(self, op):
        """Returns the fault that hits this call, or None"""
        if self.hook is not None:
            self.hook()
        self.calls[op] += 1
        k, ka = self.op_calls[op], self.op_calls["any"]
        self.op_calls[op] += 1
        self.op_calls["any"] += 1
        if ka > MAX_CALLS + 4 * len(getattr(self.data, "bytes", self.data)):
            raise SimHang("more than %d stream calls in one operation on a file of %d bytes" % (ka, len(self.data)))
        for f in self.armed:
            at = ka if f[0] == "any" else k
            if f[0] in (op, "any") and f[1] <= at < f[1] + f[2]:
                if f[3] == "NONE" and op != "read":
                    continue
                return f
        return None

    # -- the actual file operations; `state` holds the position
    def read(self, state, n):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        f = self._check("read")
        pos = state["pos"]
        size = len(self.data)
        if n is None or n < 0:
            n = max(0, size - pos)
            limit = False
        else:
            limit = True
        if f is not None:
            if f[4] and f[3] not in ("NONE", "EINTR") and not self.buffered:
                state["pos"] = min(size, pos + n // 2) if pos < size else pos
            if f[3] == "EINTR" and self.buffered:
                # the buffered stream repeats the call: for its user nothing happened
                self.total["EINTR-retried"] = self.total.get("EINTR-retried", 0) + 1
                self.soft.append(ERRORS["EINTR"]())
                raise self.soft[-1]
            self._fire(f[3])
            return None
        out = self.data[pos:pos + n]
        for lo, hi, err in self.bad:
            if pos < hi and lo < pos + len(out):
                if lo > pos and limit and self.short:
                    out = out[:lo - pos]
                else:
                    self._fire(err)
        if limit and self.short and len(out) > 1:
            r = self.short_rng
            if r.random() < self.short["p"]:
                mode = self.short["mode"]
                m = 1 if mode == "one" else r.randint(1, len(out)) if mode == "any" else max(1, len(out) - 1) if mode == "last" \
                    else max(1, min(len(out), self.short.get("page", 16) - pos % self.short.get("page", 16)))
                if m < len(out):
                    self.shorts += 1
                    self.total["short-read"] = self.total.get("short-read", 0) + 1
                    out = out[:m]
        state["pos"] = pos + len(out)
        self.delivered += len(out)
        return out

    def seek(self, state, off, whence=0):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        f = self._check("seek")
        new = off if whence == 0 else state["pos"] + off if whence == 1 else len(self.data) + off
        if f is not None:
            if f[4] and not self.buffered:
                state["pos"] = max(0, new)
            self._fire(f[3])
        if new < 0:
            raise OSError(22, "Invalid argument")
        state["pos"] = new
        return new

    def tell(self, state):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        f = self._check("tell")
        if f is not None:
            self._fire(f[3])
        return state["pos"]


class DuckStream(object):
    """The least a stream offers: read, seek, tell (and close)"""

    def __init__(self, disk):
        self._disk = disk
        self._state = {"pos": 0}

    def read(self, size=-1):
        return self._disk.read(self._state, size)

    def seek(self, offset, whence=0):
        return self._disk.seek(self._state, offset, whence)

    def tell(self):
        return self._disk.tell(self._state)

    def close(self):
        self._disk.closes += 1
        self._disk.closed = True

    def write(self, data):
        self._disk.writes += 1
        raise io.UnsupportedOperation("write")

    truncate = write


class RawStream(io.RawIOBase):
    """An unbuffered file"""

    def __init__(self, disk):
        self._disk = disk
        self._state = {"pos": 0}

    def readable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, b):
        data = self._disk.read(self._state, len(b))
        if data is None:
            return None
        b[:len(data)] = data
        return len(data)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        return self._disk.read(self._state, size)

    def readall(self):
        out = b""
        while True:
            part = self._disk.read(self._state, 4096)
            if part is None and not out:
                return None
            if not part:
                return out
            out += part

    def seek(self, offset, whence=0):
        return self._disk.seek(self._state, offset, whence)

    def tell(self):
        return self._disk.tell(self._state)

    def close(self):
        if not self.closed:
            self._disk.closes += 1
            self._disk.closed = True
        super(RawStream, self).close()

    def __del__(self):  # going away is not closing: the default would count as a call of close()
        pass

    def write(self, data):
        self._disk.writes += 1
        raise io.UnsupportedOperation("write")

    def truncate(self, size=None):
        self._disk.writes += 1
        raise io.UnsupportedOperation("truncate")


def make_stream(kind, disk, bufsize=64):
    if kind == "duck":
        return DuckStream(disk)
    if kind == "raw":
        return RawStream(disk)
    if kind == "buffered":
        disk.buffered = True
        return io.BufferedReader(RawStream(disk), max(1, bufsize))
    if kind == "bytesio":
        return io.BytesIO(disk.data)
    raise KeyError(kind)


class NoSeekRaw(RawStream):
    """A pipe being read"""

    def seekable(self):
        return False

    def seek(self, offset, whence=0):
        raise io.UnsupportedOperation("underlying stream is not seekable")

    def tell(self):
        raise io.UnsupportedOperation("underlying stream is not seekable")


class ReadOnlyDuck(object):
    """Only read()"""

    def __init__(self, disk):
        self._disk = disk
        self._state = {"pos": 0}

    def read(self, size=-1):
        return self._disk.read(self._state, size)


# ------------------------------------------------------------------------------------------------ being written
class SinkDisk(object):
    """Contents of a file being written, the armed faults, and the log of the physical writes"""

    def __init__(self, pre=b"", capacity=None, max_write=None):
        self.pre = bytes(pre)
        self.content = bytearray(pre)
        self.capacity = capacity  # a full disk: no byte beyond it can be stored
        self.max_write = max_write  # the device accepts at most so many bytes at once
        self.log = []  # [offset, bytes]
        self.armed, self.fired, self.injected, self.soft = [], [], [], []
        self.calls = {"write": 0, "seek": 0, "tell": 0, "read": 0, "truncate": 0}
        self.closed, self.closes = False, 0
        self.hook = None

    def arm(self, faults):
        self.fired, self.injected, self.soft = [], [], []
        self.calls = dict.fromkeys(self.calls, 0)
        self.armed = [[f["op"], f["nth"], f.get("ttl", 1), f["err"], f.get("accept", 0.0)] for f in faults or ()]

    def disarm(self):
        self.armed = []

    def _raise(self, err):
        self.fired.append(err)
        e = ERRORS[err]()
        self.injected.append(e)
        raise e

    def check(self, op):
        if self.hook is not None:
            self.hook()
        k = self.calls[op]
        self.calls[op] += 1
        if sum(self.calls.values()) > MAX_CALLS:
            raise SimHang("more than %d stream calls in one operation" % MAX_CALLS)
        for f in self.armed:
            if f[0] == op and f[1] <= k < f[1] + f[2]:
                return f
        return None

    def store(self, at, data):
        if not data:
            return
        if at > len(self.content):
            self.content.extend(b"\0" * (at - len(self.content)))
        self.content[at:at + len(data)] = data
        self.log.append([at, bytes(data)])

    def write(self, at, data):
        """Returns the number of bytes stored (None: would block), or raises"""
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        data = bytes(data)
        f = self.check("write")
        if f is not None:
            n = min(len(data), int(len(data) * f[4]))
            if f[3] == "NONE":
                self.fired.append("NONE")
                return None
            if f[3] == "SHORT":
                n = max(0, min(n, len(data) - 1))
                self.store(at, data[:n])
                self.fired.append("SHORT")
                return n
            if f[3] == "EINTR":
                n = 0
            self.store(at, data[:n])
            self._raise(f[3])
        if self.max_write and len(data) > self.max_write:
            data = data[:self.max_write]
            self.fired.append("SHORT")
        if self.capacity is not None and at + len(data) > self.capacity:
            room = max(0, self.capacity - at)
            if room == 0:
                self._raise("ENOSPC")
            self.store(at, data[:room])
            self.fired.append("SHORT-FULL")
            return room
        self.store(at, data)
        return len(data)


class SinkDuck(object):
    """Only write(), at the end"""

    def __init__(self, disk, pos=None):
        self._disk = disk

    def write(self, data):
        return self._disk.write(len(self._disk.content), data)


class SinkRaw(io.RawIOBase):
    append = False

    def __init__(self, disk, pos=0):
        self._disk = disk
        self._pos = pos

    def writable(self):
        return True

    def readable(self):
        return True

    def seekable(self):
        return True

    def write(self, data):
        at = len(self._disk.content) if self.append else self._pos
        n = self._disk.write(at, data)
        if n:
            self._pos = at + n
        return n

    def readinto(self, b):
        f = self._disk.check("read")
        if f is not None and f[3] not in ("SHORT", "NONE"):
            self._disk._raise(f[3])
        data = bytes(self._disk.content[self._pos:self._pos + len(b)])
        b[:len(data)] = data
        self._pos += len(data)
        return len(data)

    def seek(self, offset, whence=0):
        if self._disk.closed:
            raise ValueError("I/O operation on closed file.")
        f = self._disk.check("seek")
        if f is not None and f[3] not in ("SHORT", "NONE"):
            self._disk._raise(f[3])
        new = offset if whence == 0 else self._pos + offset if whence == 1 else len(self._disk.content) + offset
        if new < 0:
            raise OSError(22, "Invalid argument")
        self._pos = new
        return new

    def tell(self):
        if self._disk.closed:
            raise ValueError("I/O operation on closed file.")
        f = self._disk.check("tell")
        if f is not None and f[3] not in ("SHORT", "NONE"):
            self._disk._raise(f[3])
        return self._pos

    def truncate(self, size=None):
        self._disk.check("truncate")
        size = self._pos if size is None else size
        if size < len(self._disk.content):
            self._disk.log.append([size, None])
        del self._disk.content[size:]
        return size

    def close(self):
        if not self.closed:
            self._disk.closes += 1
            self._disk.closed = True
        super(SinkRaw, self).close()

    def __del__(self):
        pass


class SinkAppend(SinkRaw):
    append = True


class SinkPipe(SinkRaw):
    append = True

    def readable(self):
        return False

    def seekable(self):
        return False

    def seek(self, offset, whence=0):
        raise io.UnsupportedOperation("underlying stream is not seekable")

    def tell(self):
        raise io.UnsupportedOperation("underlying stream is not seekable")

    def truncate(self, size=None):
        raise io.UnsupportedOperation("truncate")


SINK_KINDS = ["duck", "raw", "append", "pipe", "buffered", "bufpipe", "random", "bytesio"]


def make_sink(kind, disk, pos=0, bufsize=64):
    """A stream over `disk` positioned at `pos` (the end, where there is no position)"""
    if kind == "duck":
        return SinkDuck(disk)
    if kind == "raw":
        return SinkRaw(disk, pos)
    if kind == "append":
        return SinkAppend(disk, pos)
    if kind == "pipe":
        return SinkPipe(disk)
    if kind == "buffered":
        return io.BufferedWriter(SinkRaw(disk, pos), max(1, bufsize))
    if kind == "bufpipe":
        return io.BufferedWriter(SinkPipe(disk), max(1, bufsize))
    if kind == "random":
        return io.BufferedRandom(SinkRaw(disk, pos), max(1, bufsize))
    if kind == "bytesio":
        b = io.BytesIO(disk.pre)
        b.seek(pos)
        return b
    raise KeyError(kind)
