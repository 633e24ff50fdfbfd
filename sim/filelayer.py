"""The file layer seen by code that opens a path: `open` of the simulated path gives a stream over the simulated disk.

A real file with the same contents exists at the path, so code that reaches the file in some other way (a descriptor, a
memory map) works too, only without simulated faults.
"""
import builtins
import errno
import io
import os

from .simdisk import RawStream


class PathRaw(RawStream):
    def __init__(self, disk, layer, name):
        super(PathRaw, self).__init__(disk)
        self._layer = layer
        self.name = name
        self.mode = "rb"

    def fileno(self):
        return self._layer.real_fd()


class FileLayer(object):
    def __init__(self, path, disk, bufsize, hold, open_error=None):
        self.path, self.disk, self.bufsize, self.hold, self.open_error = path, disk, bufsize, hold, open_error
        self.handles, self.opens, self.modes = [], 0, []
        self._fd = None

    def real_fd(self):
        if self._fd is None:
            self._fd = os.open(self.path, os.O_RDONLY)
        return self._fd

    def _open(self, file, mode="r", buffering=-1, *a, **kw):
        try:
            mine = not isinstance(file, int) and os.fsdecode(file) == self.path
        except TypeError:
            mine = False
        if not mine:
            return self._real(file, mode, buffering, *a, **kw)
        self.opens += 1
        self.modes.append(mode)
        if self.open_error:
            raise OSError(self.open_error, os.strerror(self.open_error) + " (simulated)", self.path)
        if "b" not in mode or "w" in mode or "a" in mode or "x" in mode:
            return self._real(file, mode, buffering, *a, **kw)
        raw = PathRaw(self.disk, self, self.path)
        if buffering == 0:
            f = raw
        else:
            # the constructor asks for the position and ignores errors doing so: no fault may be spent there
            self.disk.buffered = True
            saved, self.disk.armed = self.disk.armed, []
            f = io.BufferedReader(raw, self.bufsize if buffering == -1 else buffering)
            self.disk.armed = saved
            self.disk.op_calls = dict.fromkeys(self.disk.op_calls, 0)
        if self.hold:
            self.handles.append(f)
        return f

    def __enter__(self):
        self._real = io.open
        self._saved = (builtins.open, io.open)
        builtins.open = io.open = self._open
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self._saved
        if self._fd is not None:
            os.close(self._fd)
            self._fd = None
        return False

    def leaked_descriptors(self):
        """Real descriptors of the file that are still open"""
        out = []
        for fd in os.listdir("/proc/self/fd"):
            try:
                if os.readlink("/proc/self/fd/" + fd) == os.path.realpath(self.path):
                    out.append(int(fd))
            except OSError:
                pass
        return out


OPEN_ERRORS = {"ENOENT": errno.ENOENT, "EMFILE": errno.EMFILE, "EACCES": errno.EACCES, "EISDIR": errno.EISDIR, "EIO": errno.EIO}
