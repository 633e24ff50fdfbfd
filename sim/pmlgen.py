"""Independent encoder of PML captures with a ground-truth model.

A log is described by a small JSON value (seeds); `build` turns it into the bytes of the file, and into the model: what the
file records, as plain tuples.  Nothing here imports the code under test: the encoder is written from the documented
layout, and the constant tables are a committed snapshot (spec.json).

log = {"seed": int, "is64": bool, "layout": int, "procs": [seed...], "events": [[kind, seed]...], "opts": {...}}
Dropping items of "procs"/"events" gives a smaller log (used by the minimiser).
"""
import json
import os
import random
from struct import pack

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec.json")) as _f:
    SPEC = json.load(_f)


def _i(table):
    return {int(k): v for k, v in SPEC[table].items()}


PROC_OPS, REG_OPS, FS_OPS = _i("Process"), _i("Registry"), _i("File_System")
PROF_OPS, NET_OPS = _i("Profiling"), _i("Network")
FSSUB = {k: {int(a): b for a, b in v.items()} for k, v in SPEC["FsSub"].items()}
ERRORS, REGTYPES, KEYINFO, VALINFO = _i("errors"), _i("RegTypes"), _i("RegKeyInfo"), _i("RegValInfo")
SETINFO, REGDISP, FSDISP, FSOPEN = _i("RegSetInfo"), _i("RegDisp"), _i("FsDisp"), _i("FsOpen")
FILEINFO, PAGEPROT, SYNC, PRIORITY, IOCTL = _i("FileInfo"), _i("PageProt"), _i("SyncType"), _i("Priority"), _i("Ioctl")
CLASSES = {v: int(k) for k, v in SPEC["EventClass"].items()}

IOCTL_READ = {"FSCTL_OFFLOAD_READ", "FSCTL_GET_REPARSE_POINT", "FSCTL_READ_RAW_ENCRYPTED"}
IOCTL_WRITE = {"FSCTL_OFFLOAD_WRITE", "FSCTL_MOVE_FILE", "FSCTL_DELETE_REPARSE_POINT", "FSCTL_WRITE_RAW_ENCRYPTED",
               "FSCTL_PIPE_TRANSCEIVE", "FSCTL_PIPE_INTERNAL_TRANSCEIVE"}
IOCTL_WMETA = {"FSCTL_SET_COMPRESSION", "FSCTL_WRITE_PROPERTY_DATA", "FSCTL_SET_OBJECT_ID", "FSCTL_DELETE_OBJECT_ID",
               "FSCTL_SET_REPARSE_POINT", "FSCTL_SET_SPARSE", "FSCTL_SET_ENCRYPTION", "FSCTL_CREATE_USN_JOURNAL",
               "FSCTL_WRITE_USN_CLOSE_RECORD", "FSCTL_EXTEND_VOLUME", "FSCTL_DELETE_USN_JOURNAL"}
IOCTL_RMETA = {"FSCTL_QUERY_RETRIEVAL_POINTERS", "FSCTL_GET_COMPRESSION", "FSCTL_QUERY_FAT_BPB",
               "FSCTL_FILESYSTEM_GET_STATISTICS", "FSCTL_GET_NTFS_VOLUME_DATA", "FSCTL_GET_NTFS_FILE_RECORD",
               "FSCTL_GET_VOLUME_BITMAP", "FSCTL_GET_RETRIEVAL_POINTERS", "FSCTL_IS_VOLUME_DIRTY",
               "FSCTL_READ_PROPERTY_DATA", "FSCTL_FIND_FILES_BY_SID", "FSCTL_GET_OBJECT_ID", "FSCTL_READ_USN_JOURNAL",
               "FSCTL_SET_OBJECT_ID_EXTENDED", "FSCTL_CREATE_OR_GET_OBJECT_ID", "FSCTL_READ_FILE_USN_DATA",
               "FSCTL_QUERY_USN_JOURNAL"}


def mask_string(mask, table, sep):
    out = []
    for bits, text in table:
        if mask & bits == bits:
            out.append(text)
            mask = mask & ~bits
    return sep.join(out)


def access_string(mask, mapping, table):
    for bit, add in zip((0x80000000, 0x40000000, 0x20000000, 0x10000000), mapping):
        if mask & bit:
            mask |= add
    return mask_string(mask, table, ", ") or "None 0x{:x}".format(mask)


# ------------------------------------------------------------------------------------------------ random values
WORDS = ["C:\\Windows", "System32", "HKLM\\Software", "Local Settings", "data", "svc", "x", "Microsoft", "\u05d0\u05d1",
         "\u00e9t\u00e9", "\u4f60\u597d", "\U0001f600", "Run", "a b", "50%", "q,r", "log.txt", "{0}", "\u0130", ";n", "\u0100", "b\u0100", "\u0a00", "\ufffdq",
         "\ufeffw", "\t", "v\xa0", "\u2028", "\x01\x7f", " ", "\x85"]


def text(rng, maxwords=4, ascii_only=False, nonempty=False):
    n = rng.randint(1 if nonempty else 0, maxwords)
    s = "\\".join(rng.choice(WORDS) for _ in range(n))
    if rng.random() < 0.3:
        s += "".join(chr(rng.randint(33, 126)) for _ in range(rng.randint(0, 12)))
    if nonempty and not s:
        s = "z"
    if ascii_only:
        s = "".join(c if ord(c) < 128 else "?" for c in s)
    return s


def u16(s):
    """(Names on Windows need not be valid UTF-16: replacement characters of the texts stand for lone surrogates)"""
    return s.replace("\ufffd", "\ud83d").encode("utf-16le", "surrogatepass")


class DetailString(object):
    """A string in an event's details: info field and bytes"""

    def __init__(self, rng, s):
        is_ascii = all(ord(c) < 128 for c in s) and rng.random() < 0.5
        self.text = s
        if is_ascii:
            self.raw = s.encode("ascii")
            self.info = pack("<H", 0x8000 | len(s))
        else:
            self.raw = u16(s)
            if rng.random() < 0.15:
                # ends at its null character, bytes after it are not a part of the string
                self.raw += b"\0\0" + bytes(rng.randrange(1, 256) for _ in range(2 * rng.randint(0, 3)))
            self.info = pack("<H", len(self.raw) // 2)


def dstr(rng, **kw):
    if rng.random() < 0.01:
        return DetailString(rng, "long\\" * rng.randint(300, 6500))
    return DetailString(rng, text(rng, **kw))


def junk(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def sid(rng):
    n = rng.randint(0, 5)
    subs = [rng.randrange(1 << 32) for _ in range(n)]
    auth = rng.choice([5, 16, 1, 1 << 33])
    raw = bytes([1, n]) + pack(">Q", auth)[2:] + b"".join(pack("<L", v) for v in subs)
    s = "S-1-{}".format(auth) + "".join("-{}".format(v) for v in subs)
    r = rng.random()
    if r < 0.1:
        return bytes([2]) + raw[1:], ""
    if r < 0.2 and n:
        return raw[:-4], ""
    return raw, s


def filetime(rng):
    return rng.choice([rng.randrange(119600064000000000, 157766016000000000), rng.randrange(131000000000000000, 134000000000000000),
                       116444736000000000 + rng.randrange(10 ** 13)])


def u32v(rng):
    return rng.choice([0, 1, 2, rng.randrange(1 << 8), rng.randrange(1 << 16), rng.randrange(1 << 32), 0xffffffff])


def access(rng):
    return rng.choice([0x80000000, 0x2000000, 0x20019, 0xf003f, 0x1f01ff, 1 << rng.randrange(32), rng.randrange(1, 1 << 32), 0x300,
                       rng.choice([0x12019f, 0x120089, 0x3, 0x800, 0x400])])


class Rec(object):
    """One event: the encoded variable parts, and what they record"""
    __slots__ = ("cls", "op", "d", "x", "on", "off", "links")

    def __init__(self, cls, op, d, x, on, off=None, links=()):
        self.links = links  # positions in x of the offsets that chain its structures
        self.cls, self.op, self.d, self.x = cls, op, d, x
        self.on = on  # (operation, category, path, [(detail, value)])
        self.off = off if off is not None else (on[0], "", on[2], [])


def pick(rng, table):
    return rng.choice(sorted(table))


# ------------------------------------------------------------------------------------------------ process events
def ev_process(rng, ctx):
    op = pick(rng, PROC_OPS)
    name = PROC_OPS[op]
    path, det = "", []
    if name in ("Process_Defined", "Process_Create"):
        p, c = dstr(rng), dstr(rng)
        pid = u32v(rng)
        a, b = rng.choice([(0, 0), (28, 12), (rng.randrange(40), rng.randrange(40))])
        d = junk(rng, 4) + pack("<I", pid) + junk(rng, 0x24) + bytes([a, b]) + p.info + c.info + junk(rng, 2 + a + b) + p.raw + c.raw
        path, det = p.text, [("PID", pid), ("Command line", c.text)]
    elif name in ("Process_Exit", "Process_Statistics"):
        st = u32v(rng)
        v = [rng.choice([rng.randrange(1 << 20), rng.randrange(1 << 40), rng.randrange(1 << 64)]) for _ in range(6)]
        d = pack("<IQQQQQQ", st, *v)
        det = [("Exit Status", st), ("User Time", v[1]), ("Kernel Time", v[0]), ("Private Bytes", v[4]),
               ("Peak Private Bytes", v[5]), ("Working Set", v[2]), ("Peak Working Set", v[3])]
    elif name == "Thread_Create":
        t = u32v(rng)
        d, det = pack("<I", t), [("Thread ID", t)]
    elif name == "Thread_Exit":
        k, u = rng.randrange(1 << 40), rng.randrange(1 << 40)
        d = junk(rng, 4) + pack("<QQ", k, u)
        det = [("Thread ID", ctx["tid"]), ("User Time", u), ("Kernel Time", k)]
    elif name == "Load_Image":
        p = dstr(rng)
        base = rng.randrange(1 << (64 if ctx["is64"] else 32))
        size = u32v(rng)
        d = pack("<Q" if ctx["is64"] else "<I", base) + pack("<I", size) + p.info + junk(rng, 2) + p.raw
        path, det = p.text, [("Image Base", base), ("Image Size", size)]
    elif name == "Process_Start":
        c, w = dstr(rng), dstr(rng)
        parent = u32v(rng)
        env = [rng.choice(["", "", "=", "=C:=", "PATH=", "Path=", "a=", "_="]) + text(rng, nonempty=True) for _ in range(rng.choice([0, 1, 2, 3, 4, 9]))]
        if len(env) > 1 and rng.random() < 0.3:
            env[-1] = env[0]
        raw = b"".join(u16(e) + b"\0\0" for e in env)
        if env and rng.random() < 0.8:
            raw += b"\0\0"
        d = pack("<I", parent) + c.info + w.info + pack("<I", len(raw) // 2) + c.raw + w.raw + raw
        det = [("Parent PID", parent), ("Command line", c.text), ("Current directory", w.text), ("Environment", env)]
    else:
        d = junk(rng, rng.randint(0, 12))
    if rng.random() < 0.2:
        d += junk(rng, rng.randint(1, 8))
    val = (name, "", path, det)
    return Rec("Process", op, d, None, val, val)


# ------------------------------------------------------------------------------------------------ registry events
def reg_data(rng, tname, at_end):
    """bytes, stored length, value of registry data of the type (in the data's own buffer until `at_end`)"""
    if tname == "REG_DWORD":
        if rng.random() < 0.1:
            return b"\1\2", 2, None if not at_end else ""
        v = u32v(rng)
        return pack("<I", v), 4, v
    if tname == "REG_QWORD":
        v = rng.randrange(1 << 64)
        return pack("<Q", v), 8, v
    if tname in ("REG_SZ", "REG_EXPAND_SZ"):
        s = text(rng)
        if rng.random() < 0.1:
            s += "\r\nline two"
        raw = u16(s)
        if s == "" or not at_end or rng.random() < 0.7:
            raw += b"\0\0"
            if rng.random() < 0.1:
                raw += junk(rng, 2 * rng.randint(1, 6))
        return raw, len(raw), s
    if tname == "REG_BINARY":
        raw = junk(rng, rng.randint(1, 24) if rng.random() < 0.97 else rng.choice([255, 256, 257, 1000, 4097, 9000]))
        if rng.random() < 0.25:
            run = rng.choice([b"\0", b"\0", b"\xff", b" "]) * rng.choice([1, 2, 4, 8, 30])
            raw = rng.choice([raw + run, raw + run, run + raw, run])
        return raw, len(raw), raw
    if tname == "REG_MULTI_SZ":
        ss = [text(rng, nonempty=True) for _ in range(rng.choice([1, 2, 3, 4, 4, 12]))]
        raw = b"".join(u16(s) + b"\0\0" for s in ss)
        x = rng.random()
        if x < 0.7:
            raw += b"\0\0"
            if x < 0.12:
                raw += junk(rng, 2 * rng.randint(1, 6))
        elif x < 0.82:
            raw = raw[:-2]
        return raw, len(raw), ss
    raw = junk(rng, rng.randint(1, 9))
    return raw, len(raw), ""


def ev_registry(rng, ctx):
    op = pick(rng, REG_OPS)
    name = REG_OPS[op]
    p = dstr(rng)
    det, cat, x = [], "", None
    if name in ("RegLoadKey", "RegRenameKey"):
        n = dstr(rng)
        d = p.info + n.info + p.raw + n.raw
        if name == "RegLoadKey":
            det = [("Hive Path", n.text)]
        else:
            cat, det = "Write", [("New Name", n.text)]
    elif name in ("RegOpenKey", "RegCreateKey"):
        acc = 0 if rng.random() < 0.1 else access(rng)
        d = p.info + junk(rng, 2) + pack("<I", acc) + p.raw
        cat = "Read"
        granted, disp = access(rng), rng.choice([1, 2, 1, 2, 0, 7])
        if rng.random() < 0.7:
            x = pack("<II", granted, disp)
        if acc:
            s = access_string(acc, SPEC["RegMap"], SPEC["RegAccess"])
            det.append(("Desired Access", s))
            if x is not None:
                if s == "Maximum Allowed":
                    det.append(("Granted Access", access_string(granted, SPEC["RegMap"], SPEC["RegAccess"])))
                if disp in REGDISP:
                    det.append(("Disposition", REGDISP[disp]))
                    if disp == 1:
                        cat = "Write"
    elif name in ("RegQueryKey", "RegEnumKey"):
        cls, length, index = pick(rng, KEYINFO), u32v(rng), u32v(rng)
        d = p.info + junk(rng, 2) + pack("<I", length) + (pack("<I", index) if name == "RegEnumKey" else b"") + pack("<I", cls) + p.raw
        cat = "Read"
        det.append(("Index", index) if name == "RegEnumKey" else ("Query", KEYINFO[cls]))
        if rng.random() < 0.2:
            det.append(("Length", length))
        else:
            k, ft = KEYINFO[cls], filetime(rng)
            v = [u32v(rng) for _ in range(10)]
            nm = text(rng)
            nraw = u16(nm) + (b"\0\0" if rng.random() < 0.3 else b"")
            if k == "Name":
                x, more = pack("<I", len(nraw)) + nraw, [("Name", nm)]
            elif k == "HandleTags":
                x, more = pack("<I", v[0]), [("HandleTags", v[0])]
            elif k == "Flags":
                x, more = pack("<I", v[0]), [("UserFlags", v[0])]
            elif k == "Cached":
                x = pack("<QIIIIII", ft, *v[:6])
                more = [("LastWriteTime", ft)] + list(zip(["TitleIndex", "SubKeys", "MaxNameLen", "Values", "MaxValueNameLen", "MaxValueDataLen"], v))
            elif k == "Basic":
                x = pack("<QII", ft, v[0], len(nraw)) + nraw
                more = [("LastWriteTime", ft), ("TitleIndex", v[0]), ("Name", nm)]
            elif k == "Full":
                x = pack("<QIIIIIIIII", ft, *v[:9])
                more = [("LastWriteTime", ft)] + list(zip(["TitleIndex", "ClassOffset", "ClassLength", "SubKeys", "MaxNameLen",
                                                           "MaxClassLen", "Values", "MaxValueNameLen", "MaxValueDataLen"], v))
            elif k == "Node":
                x = pack("<QIIII", ft, v[0], v[1], v[2], len(nraw)) + nraw
                more = [("LastWriteTime", ft), ("TitleIndex", v[0]), ("ClassOffset", v[1]), ("ClassLength", v[2]), ("Name", nm)]
            else:
                x, more = junk(rng, 4), []
            det += more
    elif name in ("RegQueryValue", "RegEnumValue"):
        cls, length, index = pick(rng, VALINFO), u32v(rng), u32v(rng)
        if rng.random() < 0.6:
            cls = rng.choice([1, 2])
        d = p.info + junk(rng, 2) + pack("<I", length) + (pack("<I", index) if name == "RegEnumValue" else b"") + pack("<I", cls) + p.raw
        cat = "Read"
        if name == "RegEnumValue":
            det.append(("Index", index))
        if rng.random() < 0.2:
            det.append(("Length", length))
        else:
            t = pick(rng, REGTYPES) if rng.random() < 0.9 else rng.choice([12, 99, 0xffff0001])
            tn = REGTYPES.get(t, "<Unknown: {}>".format(t))
            raw, ln, val = reg_data(rng, tn, True)
            if rng.random() < 0.1:
                raw, ln, val = b"", 0, None
            nm = text(rng)
            if VALINFO[cls] == "KeyValueFullInformation":
                nraw = u16(nm)
                gap = rng.choice([0, 0, 2, 4])
                x = junk(rng, 4) + pack("<IIII", t, 20 + len(nraw) + gap, ln, len(nraw)) + nraw + junk(rng, gap) + raw
                det += [("Name", nm), ("Type", tn), ("Length", ln)]
            elif VALINFO[cls] == "KeyValuePartialInformation":
                x = junk(rng, 4) + pack("<II", t, ln) + raw
                det += [("Type", tn), ("Length", ln)]
            else:
                x = junk(rng, 4) + pack("<I", t) + junk(rng, 4)
                det += [("Type", tn)]
                ln = 0
            if ln > 0:
                det.append(("Data", val))
    elif name == "RegSetInfoKey":
        cls = rng.choice([0, 1, 5, 0, 1, 2, 77])
        cn = SETINFO.get(cls, "<Unknown: {}>".format(cls))
        ft, v = filetime(rng), u32v(rng)
        length = rng.choice([0, 4, 8])
        d = p.info + junk(rng, 2) + pack("<I", cls) + junk(rng, 4) + pack("<H", length) + junk(rng, 2) + p.raw
        cat, det = "Write Metadata", [("KeySetInformationClass", cn), ("Length", length)]
        if length:
            if cls == 0:
                d += pack("<Q", ft)
                det.append(("LastWriteTime", ft))
            elif cls == 1:
                d += pack("<I", v)
                det.append(("Wow64Flags", v))
            else:
                d += junk(rng, 8)
    elif name == "RegSetValue":
        t = pick(rng, REGTYPES) if rng.random() < 0.9 else rng.choice([12, 99])
        tn = REGTYPES.get(t, "<Unknown: {}>".format(t))
        raw, ln, val = reg_data(rng, tn, True)
        length, dlen = ln, ln
        r = rng.random()
        if r < 0.1:
            dlen = 0
        elif r < 0.2:
            length = ln + rng.randint(1, 100)
        d = p.info + junk(rng, 2) + pack("<III", t, length, dlen) + p.raw + raw
        cat, det = "Write", [("Type", tn), ("Length", length)]
        if dlen and tn in REGTYPES.values():
            det.append(("Data", val))
    else:
        d = p.info + p.raw
        cat = {"RegQueryMultipleValueKey": "Read", "RegSetKeySecurity": "Write Metadata", "RegQueryKeySecurity": "Read Metadata",
               "RegDeleteKey": "Write", "RegDeleteValue": "Write"}.get(name, "")
        if rng.random() < 0.2:
            x = junk(rng, rng.randint(0, 9))
    return Rec("Registry", op, d, x, (name, cat, p.text, det))


# ------------------------------------------------------------------------------------------------ file system events
DIRCLASSES = {1: "dir", 2: "full", 3: "both", 12: "names", 37: "idboth", 38: "idfull"}


def dir_entries(rng, cls, names, links):
    out = b""
    # the capture can end before the entry that the last one points to
    last = 0 if rng.random() < 0.9 else rng.choice([0x2000, 0x10000, 0x7fffffff, 0xffffff00])
    for i, nm in enumerate(names):
        kind = DIRCLASSES[cls]
        raw = u16(nm)
        e = pack("<I", rng.randrange(100))
        if kind == "names":
            e += pack("<I", len(raw)) + raw
        else:
            e += pack("<QQQQQQII", *[rng.randrange(1 << 30) for _ in range(7)] + [len(raw)])
            if kind != "dir":
                e += pack("<I", rng.randrange(99))
            if kind == "idfull":
                e += junk(rng, 8)
            elif kind in ("both", "idboth"):
                e += bytes([rng.randrange(24), 0]) + junk(rng, 24)
                if kind == "idboth":
                    e += junk(rng, 10)
            e += raw
        links.append(len(out))
        size = 4 + len(e)
        pad = -size % 8
        out += pack("<I", size + pad if i < len(names) - 1 else last) + e + (b"\0" * pad if i < len(names) - 1 else b"")
    return out


def ev_fs(rng, ctx):
    is64 = ctx["is64"]
    interesting = [20, 23, 24, 33, 34, 32, 26, 19, 25]
    op = rng.choice(interesting) if rng.random() < 0.75 else pick(rng, FS_OPS)
    name = FS_OPS[op]
    sub = 0
    if name in FSSUB and rng.random() < 0.9:
        sub = pick(rng, FSSUB[name]) if rng.random() < 0.93 else 0xfe
        if name == "SetInformationFile" and rng.random() < 0.6:
            sub = 0xd
        if name == "QueryInformationFile" and rng.random() < 0.4:
            sub = rng.choice([0x37, 0x3b])
    elif rng.random() < 0.1:
        sub = rng.randrange(256)
    opname = name
    if sub and name in FSSUB:
        opname = FSSUB[name].get(sub, name + " <Unknown>")
    p = dstr(rng, nonempty=(opname == "QueryDirectory"))
    if opname == "QueryDirectory" and not p.text:
        p = DetailString(rng, "C:\\")
    blk = bytearray(junk(rng, 60 if is64 else 40))

    def put(off, fmt, *v):
        r = pack(fmt, *v)
        blk[off:off + len(r)] = r

    tail, cat, det, x, links = b"", "", [], None, []
    path = p.text
    if opname == "CreateFile":
        acc, disp, opts = access(rng), rng.choice([0, 1, 2, 3, 4, 5, 1, 9]), rng.choice([rng.randrange(1 << 24), 0x60, 0])
        attrs, share, alloc = rng.choice([0, 0x80, rng.randrange(1 << 16)]), rng.choice([0, 7, rng.randrange(8)]), u32v(rng)
        b = 0x14 if is64 else 0x10
        put(b, "<I", disp << 24 | opts)
        put(b + (8 if is64 else 4), "<HH", attrs, share)
        put(0x34 if is64 else 0x24, "<I", alloc)
        sraw, stext = sid(rng) if rng.random() < 0.3 else (b"", None)
        tail = pack("<I", acc) + bytes([len(sraw)]) + junk(rng, 3) + sraw
        dn = FSDISP.get(disp, "<unknown>")
        det = [("Desired Access", access_string(acc, SPEC["FsMap"], SPEC["FsAccess"])), ("Disposition", dn),
               ("Options", mask_string(opts, SPEC["CreateOptions"], ", ")),
               ("Attributes", mask_string(attrs, SPEC["CreateAttributes"], "") if attrs else "n/a"),
               ("ShareMode", mask_string(share, SPEC["ShareMode"], ", ") if share else "None"),
               ("AllocationSize", alloc if disp in (0, 2, 3, 5) else "n/a")]
        if sraw:
            det.append(("Impersonating", stext))
        res = None
        if rng.random() < 0.7:
            res = rng.choice([0, 1, 2, 3, 4, 5, 8])
            x = pack("<I", res)
            det.append(("OpenResult", FSOPEN.get(res, "<unknown>")))
        if res in (0, 2, 3):
            cat = "Write"
        elif res in (1, 4, 5) or dn in ("Open", "<unknown>"):
            cat = ""
        else:
            cat = "Write"
    elif opname in ("ReadFile", "WriteFile"):
        cat = "Read" if opname == "ReadFile" else "Write"
        prio = rng.choice([0, 0, 1, 3, 5, 6, 7])
        fl = rng.choice([0, 0x43, 0x10, 0x400001, rng.randrange(256)])
        word = fl | prio << 0x11
        length, off = u32v(rng), rng.choice([0, 4096, rng.randrange(1 << 40), -rng.randrange(1 << 40), -1])
        put(4, "<I", word)
        put(0xc, "<I", length)
        put(0x1c if is64 else 0x14, "<q", off)
        if rng.random() < 0.6:
            length = u32v(rng)
            x = pack("<I", length)
        det = [("Offset", off), ("Length", length)]
        io = word & 0xe000ff
        if io:
            det.append(("I/O Flags", mask_string(io, SPEC["IoFlags"], ", ")))
        pr = word >> 0x11 & 7
        if pr:
            det.append(("Priority", PRIORITY.get(pr, "0x{:x}".format(pr))))
    elif opname in ("FileSystemControl", "DeviceIoControl"):
        special = [606820, 623208, 1155064, 1138688, 1163287, 1171455]
        code = rng.choice(special) if rng.random() < 0.45 else (pick(rng, IOCTL) if rng.random() < 0.8 else rng.randrange(1 << 32))
        cn = IOCTL.get(code) or "0x{:x} (Device:0x{:x} Function:{} Method: {})".format(code, code >> 16, code >> 2 & 0xfff, code & 3)
        wl, rl = u32v(rng), u32v(rng)
        put(8, "<II", wl, rl)
        put(0x1c if is64 else 0x14, "<I", code)
        det = [("Control", cn)]
        cat = ("Read" if cn in IOCTL_READ else "Write" if cn in IOCTL_WRITE else "Write Metadata" if cn in IOCTL_WMETA
               else "Read Metadata" if cn in IOCTL_RMETA else "")
        if opname == "FileSystemControl":
            off, ln = rng.choice([0, -1, rng.randrange(1 << 40)]), rng.choice([0, 1234567, rng.randrange(1 << 64)])
            if cn in ("FSCTL_OFFLOAD_READ", "FSCTL_OFFLOAD_WRITE"):
                tail = pack("<qQ", off, ln)
                det += [("Offset", off), ("Length", ln)]
            elif cn == "FSCTL_PIPE_INTERNAL_WRITE":
                det.append(("Length", wl))
            elif cn == "FSCTL_PIPE_INTERNAL_READ":
                det.append(("Length", rl))
            elif cn in ("FSCTL_PIPE_TRANSCEIVE", "FSCTL_PIPE_INTERNAL_TRANSCEIVE"):
                det += [("WriteLength", wl), ("ReadLength", rl)]
    elif opname == "QueryDirectory":
        cat = "Read Metadata"
        f = dstr(rng) if rng.random() < 0.5 else DetailString(rng, "")
        tail = f.info + f.raw
        cls = rng.choice(sorted(DIRCLASSES)) if rng.random() < 0.85 else pick(rng, FILEINFO)
        put(0x1c if is64 else 0x14, "<I", cls)
        if f.text:
            path += ("" if path[-1] == "\\" else "\\") + f.text
            det.append(("Filter", f.text))
        det.append(("FileInformationClass", FILEINFO[cls]))
        if rng.random() < 0.85:
            if cls in DIRCLASSES:
                names = [text(rng, 2) for _ in range(rng.choice([1, 2, 3, 5, 12, 12, 40]))]
                x = dir_entries(rng, cls, names, links)
                first = 1 if f.text else 0
                det += [(str(first + i), nm) for i, nm in enumerate(names)]
            else:
                x = junk(rng, 12)
    elif opname == "NotifyChangeDirectory":
        cat = "Read Metadata"
        fl = rng.choice([0x17, rng.randrange(1 << 12), 0])
        put(0x14 if is64 else 0x10, "<I", fl)
        det = [("Filter", mask_string(fl, SPEC["NotifyFlags"], ", "))]
    elif opname == "CreateFileMapping":
        st, pp = rng.choice([0, 1, 1, 5]), rng.choice([0x2, 0x4, 0x8, 0x10, 0x20, 0x40, 0x202, 0x240, 0x200, 0, 0x6])
        put(0xc, "<II", st, pp)
        det = [("SyncType", SYNC.get(st, "Unknown: {:#x}".format(st)))]
        for bit in (2, 4, 8, 0x10, 0x20, 0x40):
            if pp & bit:
                det.append(("PageProtection", PAGEPROT[bit] + ("|PAGE_NOCACHE" if pp & 0x200 else "")))
                break
    elif opname == "SetDispositionInformationFile":
        de = rng.choice([0, 1, 1])
        tail = bytes([de]) + junk(rng, 3)
        det = [("Delete", "True" if de else "False")]
        cat = "Write" if de else ""
    elif opname in ("QueryIdInformation", "QueryRemoteProtocolInformation"):
        cat = "Read Metadata"
    if x is None and rng.random() < 0.1 and opname in (name, name + " <Unknown>") and name not in (
            "CreateFile", "ReadFile", "WriteFile", "FileSystemControl", "DeviceIoControl", "CreateFileMapping"):
        x = junk(rng, rng.randint(0, 9))
    d = bytes([sub]) + junk(rng, 3) + bytes(blk) + p.info + junk(rng, 2) + p.raw + tail
    if rng.random() < 0.2:
        d += junk(rng, rng.randint(1, 6))
    return Rec("File_System", op, d, x, (opname, cat, path, det), (opname, "", p.text, []), links)


# ------------------------------------------------------------------------------------------------ network / profiling
def ev_network(rng, ctx):
    op = pick(rng, NET_OPS)
    fl = rng.randrange(8) | (rng.choice([0, 0x10, 0x8000]))
    tcp = bool(fl & 4)

    def end(bit):
        v4 = bool(fl & bit)
        ip, port = rng.choice(ctx["ips"]), rng.choice(ctx["portnums"])
        return ip, port, host_text(ctx["hosts"], ip, v4) + ":" + ctx["ports"].get((port, tcp), str(port))

    s, t = end(1), end(2)
    length = u32v(rng)
    det = [("Length", length)]
    keys = ["startime", "endtime", "seqnum", "connid", "mss", "\u05d0", "rcvwin"]
    rng.shuffle(keys)
    n = rng.randint(0, 4)
    items = []
    for i in range(n):
        items += [keys[i], text(rng, 2, nonempty=True)]
        det.append((items[-2], items[-1]))
    if rng.random() < 0.1:
        items.append("odd")
    raw = b"".join(u16(i) + b"\0\0" for i in items)
    if rng.random() < 0.6:
        raw += b"\0\0"
        if items and rng.random() < 0.2:
            raw += junk(rng, 4)
    d = pack("<H", fl) + junk(rng, 2) + pack("<I", length) + s[0] + t[0] + pack("<HH", s[1], t[1]) + raw
    val = (("TCP " if tcp else "UDP ") + NET_OPS[op], "", s[2] + " -> " + t[2], det)
    return Rec("Network", op, d, None, val, val)


def host_text(hosts, ip, v4):
    if hosts.get(ip):
        return hosts[ip]
    if v4:
        return ".".join(str(b) for b in ip[:4])
    return ":".join("{:x}".format(ip[i] << 8 | ip[i + 1]) for i in range(0, 16, 2))


def ev_profiling(rng, ctx):
    op = pick(rng, PROF_OPS)
    val = (PROF_OPS[op], "", "", [])
    return Rec("Profiling", op, junk(rng, rng.randint(0, 20)), junk(rng, 3) if rng.random() < 0.1 else None, val, val)


KINDS = {"P": ev_process, "R": ev_registry, "F": ev_fs, "N": ev_network, "G": ev_profiling}

# ------------------------------------------------------------------------------------------------ whole files
HEADER_SIZE = 0x3a8
OSES = {(6, 0): "Windows Vista", (6, 1): "Windows 7", (6, 2): "Windows 8", (6, 3): "Windows 8.1", (10, 0): "Windows 10"}


class Image(object):
    """data: the bytes; the rest is the model and where things are (for placing faults)"""


def gen_log(rng, nev=None, big=False, kinds=None, layout=None):
    """A random log description"""
    if nev is None:
        nev = rng.choice([0, 1, 2, 3, 5, 8, 8, 12, 12, 16, 20])
    mix = kinds or rng.choice(["PRFNG", "RF", "F", "R", "N", "P", "RFRFRFPN", "PRFNG", "PRFNG"])
    return {"seed": rng.randrange(1 << 30), "is64": rng.random() < 0.5,
            "layout": (rng.choice([0, 0, 0, rng.randrange(1, 1 << 16)]) if layout is None else layout),
            "procs": [rng.randrange(1 << 30) for _ in range(rng.choice([1, 1, 2, 3, 5]))],
            "events": [[rng.choice(mix), rng.randrange(1 << 30)] for _ in range(nev)],
            "bigstr": bool(big)}


def enlarge(rng, log, tile=0.0, huge=0.0, top=15000):
    """Now and then a log with many events (copies of its events at other times), or with an unusually large part"""
    x = rng.random()
    if x < tile and log["events"]:
        del log["events"][rng.choice([1, 2, 3, 5]):]
        lo, hi = 60, top
        if top >= 9000 and rng.random() < 0.04:
            lo, hi = 65000, 140000
        img = build(log)
        size = sum(b - a for regs in img.ev_regions for a, b in regs)
        cap = 25000000 if hi > 20000 else 4000000
        log["tile"] = max(2, min(int(lo * (hi / lo) ** rng.random()) // len(log["events"]), cap // max(1, size)))
    elif x < tile + huge:
        log["huge"] = rng.choice(HUGE)
        if log["huge"] == "procs":
            log["procs"] = [rng.randrange(1 << 30) for _ in range(rng.choice([120, 260, 400]))]
    return log


HUGE = ["stack", "env", "extra", "dir", "details", "hosts", "ports", "strings", "modules", "procs"]


def huge_event(rng, what, ctx):
    """An event of which one part is unusually large"""
    p = dstr(rng, nonempty=True)
    if what == "env":
        env = ["V%d=" % i + rng.choice(["x", "\u05d0", "ab;"]) * rng.choice([10, 900, 3000]) for i in range(rng.choice([8, 25, 60]))]
        raw = b"".join(u16(e) + b"\0\0" for e in env) + b"\0\0"
        c, w = dstr(rng), dstr(rng)
        op = next(k for k, v in PROC_OPS.items() if v == "Process_Start")
        d = pack("<I", 7) + c.info + w.info + pack("<I", len(raw) // 2) + c.raw + w.raw + raw
        val = ("Process_Start", "", "", [("Parent PID", 7), ("Command line", c.text), ("Current directory", w.text), ("Environment", env)])
        return Rec("Process", op, d, None, val, val)
    if what == "extra":
        op = next(k for k, v in REG_OPS.items() if v == "RegQueryValue")
        raw = bytes(rng.randrange(256) for _ in range(64)) * rng.choice([520, 1023])
        x = junk(rng, 4) + pack("<II", 3, len(raw)) + raw
        d = p.info + junk(rng, 2) + pack("<II", 9, 2) + p.raw
        return Rec("Registry", op, d, x, ("RegQueryValue", "Read", p.text, [("Type", "REG_BINARY"), ("Length", len(raw)), ("Data", raw)]))
    if what == "dir":
        op = next(k for k, v in FS_OPS.items() if v == "DirectoryControl")
        sub = next(k for k, v in FSSUB["DirectoryControl"].items() if v == "QueryDirectory")
        cls, names, links = rng.choice(sorted(DIRCLASSES)), ["n%d" % i for i in range(rng.choice([130, 300]))], []
        if DIRCLASSES[cls] == "names" or rng.random() < 0.3:
            cls = next(c for c in sorted(DIRCLASSES) if DIRCLASSES[c] == "names")
            names = ["n%d" % i for i in range(rng.choice([300, 1100, 2500]))]
        x = dir_entries(rng, cls, names, links)
        blk = bytearray(junk(rng, 60 if ctx["is64"] else 40))
        at = 0x1c if ctx["is64"] else 0x14
        blk[at:at + 4] = pack("<I", cls)
        f = DetailString(rng, "")
        d = bytes([sub]) + junk(rng, 3) + bytes(blk) + p.info + junk(rng, 2) + p.raw + f.info + f.raw
        return Rec("File_System", op, d, x, ("QueryDirectory", "Read Metadata", p.text, [("FileInformationClass", FILEINFO[cls])] +
                                             [(str(i), nm) for i, nm in enumerate(names)]), ("QueryDirectory", "", p.text, []), links)
    # bytes after everything that is decoded
    op = next(k for k, v in PROC_OPS.items() if v == "Thread_Create")
    d = pack("<I", 5) + b"\xa5" * rng.choice([65532, 65533, 70000, 131072, 300000])
    val = ("Thread_Create", "", "", [("Thread ID", 5)])
    return Rec("Process", op, d, None, val, val)


def build(log):
    img = Image()
    base = random.Random("log/%d" % log["seed"])
    is64 = bool(log["is64"])
    pv, pvs = ("<Q", 8) if is64 else ("<I", 4)
    layout = log["layout"]
    lrng = random.Random("layout/%d/%d" % (log["seed"], layout))

    # strings
    strings = []

    def st(s):
        if s in strings and base.random() < 0.9:
            return strings.index(s)
        strings.append(s)
        return len(strings) - 1

    st("")
    huge = log.get("huge")
    if log.get("bigstr"):
        st("B" * 70000)
    if huge == "strings":
        strings.extend("s%d" % i for i in range(log["seed"] % 3000))
        strings.append("long" * 12000)
    # processes
    procs, proc_raw, proc_keys, proc_model = [], [], [], []
    used = set()
    for k, ps in enumerate(log["procs"]):
        r = random.Random("proc/%d" % ps)
        key = r.choice([k, k + 3, r.randrange(1 << 20), r.randrange(1 << 32)])
        while key in used:
            key = (key + 1) & 0xffffffff
        used.add(key)
        v = dict(pid=u32v(r), ppid=u32v(r), auth=r.randrange(1 << 64), session=r.randrange(5), start=filetime(r), end=r.choice([0, filetime(r)]),
                 virt=r.choice([0, 1, 0xffffffff]), p64=r.choice([0, 1, 1]))
        names = [text(r) for _ in range(8)]
        mods = []
        for _ in range(r.choice([0, 0, 1, 2, 4]) if huge != "modules" else 300):
            mods.append((r.randrange(1 << (8 * pvs)), u32v(r), text(r), text(r, 1), text(r, 1), text(r, 1), u32v(r)))
        raw = pack("<III", key, v["pid"], v["ppid"]) + junk(r, 4) + pack("<QI", v["auth"], v["session"]) + junk(r, 4)
        raw += pack("<QQII", v["start"], v["end"], v["virt"], v["p64"])
        raw += pack("<8I", *[st(s) for s in names]) + pack("<II", r.randrange(9), r.randrange(9)) + junk(r, pvs)
        raw += pack("<I", len(mods))
        for b, size, path, ver, comp, desc, ts in mods:
            raw += junk(r, pvs) + pack(pv, b) + pack("<IIIII", size, st(path), st(ver), st(comp), st(desc)) + pack("<I", ts) + junk(r, 0x18)
        proc_raw.append(raw)
        proc_keys.append(key)
        # Process attributes, in the order of `PROC_FIELDS`
        proc_model.append((v["pid"], v["ppid"], v["auth"], v["session"], v["virt"], bool(v["p64"])) + tuple(names) +
                          (v["start"], v["end"], [(b, s, pa, ve, co, de, ts) for b, s, pa, ve, co, de, ts in mods]))

    # hosts and ports
    r = random.Random("net/%d" % log["seed"])
    ips = [bytes([r.randrange(256) for _ in range(4)]) + b"\0" * 12 for _ in range(3)] + [junk(r, 16) for _ in range(3)] + \
          [b"\x20\x01" + b"\0" * 13 + b"\x01", b"\0" * 16]
    hosts = {ip: r.choice([text(r, 2), "host%d.local" % i, ""]) for i, ip in enumerate(ips) if r.random() < 0.5}
    if huge == "hosts":
        hosts.update((b"\xfd" + pack("<I", i) + b"\0" * 11, "h%d." % i + "x" * 250) for i in range(100 + log["seed"] % 300))
    portnums = [80, 443, 53, r.randrange(65536), 0]
    ports = {(p, t): r.choice(["http", "name%d" % p, text(r, 1), ""]) for p in portnums for t in (False, True) if r.random() < 0.4}
    if huge == "ports":
        ports.update(((p, t), "p%d" % p) for p in range(100, 1500) for t in (False, True) if (p, t) not in ports)
    hp = pack("<I", len(hosts))
    for ip, h in hosts.items():
        raw = u16(h) + (b"\0\0" if r.random() < 0.6 else b"")
        hp += ip + pack("<I", len(raw)) + raw
    hp += pack("<I", len(ports))
    for (p, t), nm in ports.items():
        raw = u16(nm) + (b"\0\0" if r.random() < 0.6 else b"")
        hp += pack("<HH", p, r.choice([1, 7]) if t else 0) + pack("<I", len(raw)) + raw

    # events
    evs = []
    for i, (kind, es) in enumerate(log["events"]):
        r = random.Random("ev/%s/%d" % (kind, es))
        pi = r.randrange(1 << 20) % len(proc_keys)
        tid = u32v(r)
        ctx = {"is64": is64, "tid": tid, "hosts": hosts, "ports": ports, "ips": ips, "portnums": portnums}
        large = huge in ("stack", "env", "extra", "dir", "details") and i == log["seed"] % len(log["events"])
        rec = KINDS[kind](r, ctx) if not large or huge == "stack" else huge_event(r, huge, ctx)
        depth = r.choice([0, 0, 1, 3, 8, 8, 40]) if r.random() < 0.98 else r.choice([128, 255, 256, 257, 600])
        if large and huge == "stack":
            depth = r.choice([8191, 8192, 9000, 20000])
        stack = [r.choice([r.randrange(1 << (8 * pvs)), 0]) for _ in range(depth)]
        dur, date = r.choice([0, 1, r.randrange(1 << 24), r.randrange(1 << 40)]), filetime(r)
        result = r.choice([0, 0, 0, 0x103, 0xc0000034, 0x80000005, u32v(r)])
        body = b"".join(pack(pv, a) for a in stack) + rec.d
        head = pack("<IIIHHIQQIHHI", proc_keys[pi], tid, CLASSES[rec.cls], rec.op, r.randrange(1 << 16), r.randrange(1 << 32), dur, date,
                    result, depth, r.randrange(1 << 16), len(rec.d))
        model = dict(proc=pi, tid=tid, cls=rec.cls, dur=dur, date=date, result=result, stack=stack, on=rec.on, off=rec.off)
        evs.append([head, body, rec.x, model, r.random(), r.random(), rec.links])

    # place everything
    tile = log.get("tile") or 1
    one = len(evs)
    n = one * tile
    sections = ["events", "offsets", "procs", "strings", "icons"]
    if layout:
        while True:
            lrng.shuffle(sections)
            if sections.index("offsets") < sections.index("procs"):
                break
    regions = {}
    out = bytearray(HEADER_SIZE)
    ev_off = [0] * one
    ev_regions = [[] for _ in range(one)]
    order = list(range(one))
    if layout & 1:
        order.sort(key=lambda i: evs[i][4])
    for sec in sections:
        if layout and lrng.random() < 0.3:
            out += junk(lrng, lrng.randint(1, 20))
        start = len(out)
        regions[sec] = start
        if sec == "events":
            if n == 0:
                out += b"\0" * 8
            pool = []
            for i in order:
                head, body, x, model, _, pl, _ = evs[i]
                if layout & 2 and lrng.random() < 0.2:
                    out += junk(lrng, lrng.randint(1, 9))
                ev_off[i] = len(out)
                own = 0x34 + len(body)
                out += head + b"\0\0\0\0" + body
                ev_regions[i].append((ev_off[i], ev_off[i] + own))
                if x is not None:
                    if layout & 4 and pl < 0.6:
                        pool.append(i)  # extra details away from the event, after all events
                        continue
                    gap = junk(lrng, lrng.randint(1, 7)) if layout & 8 and lrng.random() < 0.3 else b""
                    out += gap
                    out[ev_off[i] + 0x30:ev_off[i] + 0x34] = pack("<I", len(out) - ev_off[i])
                    ev_regions[i].append((len(out), len(out) + 2 + len(x)))
                    out += pack("<H", len(x)) + x
            if layout & 16:
                lrng.shuffle(pool)
            for i in pool:
                x = evs[i][2]
                out[ev_off[i] + 0x30:ev_off[i] + 0x34] = pack("<I", len(out) - ev_off[i])
                ev_regions[i].append((len(out), len(out) + 2 + len(x)))
                out += pack("<H", len(x)) + x
            if tile > 1:
                # copies of all of it, with later dates; everything inside is relative
                block = bytearray(out[start:])
                size = len(block)
                for c in range(1, tile):
                    for i in range(one):
                        at = ev_off[i] - start + 28
                        block[at:at + 8] = pack("<Q", evs[i][3]["date"] + c)
                    out += block
                ev_off = [o + c * size for c in range(tile) for o in ev_off]
                ev_regions = [[(a + c * size, b + c * size) for a, b in rs] for c in range(tile) for rs in ev_regions]
        elif sec == "offsets":
            out += b"\0" * (5 * n) if n else b"\0" * 5
        elif sec == "procs":
            m = len(proc_raw)
            porder = list(range(m))
            offs, pos = [0] * m, 4 + 8 * m
            body = b""
            if layout & 32:
                lrng.shuffle(porder)
            for i in porder:
                offs[i] = pos + len(body)
                body += proc_raw[i]
            out += pack("<I", m) + b"".join(pack("<I", k) for k in proc_keys) + b"".join(pack("<I", o) for o in offs) + body
        elif sec == "strings":
            m = len(strings)
            sorder = list(range(m))
            if layout & 64:
                lrng.shuffle(sorder)
            offs, body = [0] * m, b""
            for i in sorder:
                offs[i] = 4 + 4 * m + len(body)
                raw = u16(strings[i]) + (b"\0\0" if not strings[i] or (i * 7 + log["seed"]) % 5 else b"")
                body += pack("<I", len(raw)) + raw
            out += pack("<I", m) + b"".join(pack("<I", o) for o in offs) + body
        elif sec == "icons":
            out += pack("<I", 0)
        regions[sec + "_end"] = len(out)
    regions["hosts"] = len(out)
    out += hp
    regions["hosts_end"] = len(out)
    if layout & 128:
        out += junk(lrng, 9)
    o = regions["offsets"]
    orng = random.Random("flags/%d" % log["seed"])
    for i in range(n):
        out[o + 5 * i:o + 5 * i + 5] = pack("<I", ev_off[i]) + bytes([orng.randrange(256)])

    # header
    r = random.Random("hdr/%d" % log["seed"])
    major, minor = r.choice(sorted(OSES))
    name, root, sp = text(r, 1)[:15], r.choice(["C:\\Windows", text(r)]), r.choice(["", "", "Service Pack 1", "SP2"])
    build_no, plat, cpus, ram = r.randrange(1 << 16), r.randrange(5), r.randrange(1, 129), r.randrange(1 << 38)
    if r.random() < 0.1:
        name = "ABCDEFGHIJKLMNOP"
    hdr = b"PML_" + pack("<II", 9, 1 if is64 else 0)
    hdr += u16(name).ljust(0x20, b"\0") + u16(root).ljust(0x208, b"\0") + pack("<I", n) + junk(r, 8)
    hdr += pack("<QQQQQ", regions["events"], regions["offsets"], regions["procs"], regions["strings"], regions["icons"])
    hdr += junk(r, 12) + pack("<IIII", major, minor, build_no, plat) + u16(sp).ljust(0x32, b"\0") + junk(r, 0xd6)
    hdr += pack("<IQQQ", cpus, ram, HEADER_SIZE, regions["hosts"])
    assert len(hdr) == HEADER_SIZE, len(hdr)
    out[:HEADER_SIZE] = hdr

    img.data = bytes(out)
    img.log = log
    img.n = n
    img.is64 = is64
    img.regions = regions
    img.ev_regions = ev_regions
    img.ev_off = ev_off
    img.procs = proc_model
    img.nstrings = len(strings)
    img.proc_keys = proc_keys
    img.events = [e[3] for e in evs] if tile == 1 else [dict(e[3], date=e[3]["date"] + c) for c in range(tile) for e in evs]
    img.ev_links = [[ev_regions[i][1][0] + 2 + p for p in e[6]] if len(ev_regions[i]) > 1 else [] for i, e in enumerate(evs * tile)]
    osname = OSES[(major, minor)] + (", " + sp if sp else "") + " (build {}.{})".format(build_no, plat)
    img.sysd = {"Computer Name": name, "Operating System": osname, "System Root": root, "Logical Processors": cpus,
                "Memory (RAM)": "{} GB".format((ram / 1073741824.0) // 0.01 / 100), "System Type": "64-bit" if is64 else "32-bit"}
    if log.get("gap"):
        spread(img, *log["gap"])
    return img


class Sparse(object):
    """Bytes with a hole of zeros in them that takes no memory"""

    def __init__(self, data, at, size):
        self.bytes, self.at, self.size = data, at, size

    def __len__(self):
        return len(self.bytes) + self.size

    def __getitem__(self, s):
        a, b, step = s.indices(len(self))
        if step != 1 or b - a > 1 << 26:
            raise MemoryError("%d bytes of a sparse file read at once" % (b - a))
        out = self.bytes[a:min(b, self.at)] if a < self.at else b""
        out += b"\0" * (min(b, self.at + self.size) - max(a, self.at))
        return out + (self.bytes[max(a, self.at + self.size) - self.size:b - self.size] if b > self.at + self.size else b"")


def spread(img, pick, size):
    """Moves a part of the file `size` bytes further on: large files, without their contents"""
    reg = img.regions
    # every thing that an absolute offset, or the offset of extra details, leads to; the index and what follows up to the processes is read at once
    marks = {reg[s] for s in ("events", "offsets", "procs", "strings", "icons", "hosts")} | {a for rs in img.ev_regions for a, _ in rs}
    marks = sorted(m for m in marks if not reg["offsets"] < m <= reg["procs"])
    g = marks[pick % len(marks)]
    top = max([a for rs in img.ev_regions for a, _ in rs] or [0])
    if top >= g:
        # offsets of events have four bytes
        size = min(size, (1 << 32) - 1 - top)
    mv = lambda x: x + size if x >= g else x
    out = bytearray(img.data)
    for at, sec in ((0x240, "events"), (0x248, "offsets"), (0x250, "procs"), (0x258, "strings"), (0x260, "icons"), (0x3a0, "hosts")):
        out[at:at + 8] = pack("<Q", mv(reg[sec]))
    for i, rs in enumerate(img.ev_regions):
        at = reg["offsets"] + 5 * i
        out[at:at + 4] = pack("<I", mv(img.ev_off[i]))
        if len(rs) > 1:
            out[rs[0][0] + 0x30:rs[0][0] + 0x34] = pack("<I", mv(rs[1][0]) - mv(rs[0][0]))
    img.ev_links = [[mv(p) for p in ps] for ps in img.ev_links]
    img.ev_regions = [[(mv(a), mv(a) + b - a) for a, b in rs] for rs in img.ev_regions]
    img.ev_off = [mv(o) for o in img.ev_off]
    img.regions = {k: mv(v) if not k.endswith("_end") else mv(reg[k[:-4]]) + v - reg[k[:-4]] for k, v in reg.items()}
    img.data = Sparse(bytes(out), g, size)


GAPS = [1 << 16, 1 << 24, (1 << 31) - 4000, 1 << 31, (1 << 32) - 8192, 1 << 32, (1 << 32) + 77777, 1 << 33, 1 << 41, 1 << 53, 1 << 62]


def expected(img, i, stack=True, details=True):
    """What reading event i returns, as a tuple (compare with observe.snap_event)"""
    m = img.events[i]
    op, cat, path, det = m["on"] if details else m["off"]
    return (img.procs[m["proc"]], m["tid"], m["cls"], op, m["dur"], m["date"], m["result"], m["stack"] if stack else [], cat, path, det)


# ------------------------------------------------------------------------------------------------ columns (csv form)
def _civil(days):
    """days since 1970-01-01 -> (year, month, day); integer arithmetic, no time library"""
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    return (y + (mp >= 10), mp + 3 if mp < 10 else mp - 9, doy - (153 * mp + 2) // 5 + 1)


def when(ft, day, ns):
    secs, frac = divmod(ft, 10 ** 7)
    days, s = divmod(secs - 11644473600, 86400)
    y, mo, d = _civil(days)
    h, mi, se = s // 3600, s // 60 % 60, s % 60
    t = "{}:{:02d}:{:02d}".format(h % 12 or 12, mi, se) + (".{:07d}".format(frac) if ns else "") + (" AM" if h < 12 else " PM")
    return ("{}/{}/{} ".format(mo, d, y) if day else "") + t


def dur_text(v):
    return "{}.{:07d}".format(*divmod(v, 10 ** 7))


def csv_details(ev):
    cls, op, det = ev[2], ev[3], list(ev[10])
    if not det:
        return ""
    d = dict(det)

    def rep(k, f):
        for i, (a, v) in enumerate(det):
            if a == k:
                det[i] = (a, f(v))

    def drop(k):
        det[:] = [(a, v) for a, v in det if a != k]

    if op == "Load_Image":
        rep("Image Base", "0x{:x}".format)
        rep("Image Size", "0x{:x}".format)
    elif op == "Thread_Exit":
        rep("User Time", dur_text)
        rep("Kernel Time", dur_text)
    elif op == "Process_Start":
        rep("Environment", lambda e: "\n;\t" + "\n;\t".join(e))
    elif cls == "Registry":
        for k in ("Length", "SubKeys", "Values", "Index"):
            rep(k, "{:,}".format)
        for k in ("HandleTags", "UserFlags", "Wow64Flags"):
            rep(k, "0x{:x}".format)
        for k in ("TitleIndex", "MaxNameLen", "MaxValueNameLen", "MaxValueDataLen", "ClassOffset", "ClassLength", "MaxClassLen"):
            drop(k)
        if op == "RegSetInfoKey":
            rep("LastWriteTime", lambda v: when(v, True, False))
        else:
            drop("LastWriteTime")
        if "Data" in d:
            t = d.get("Type")
            if t == "REG_BINARY":
                rep("Data", lambda b: " ".join("{:02X}".format(c) for c in b))
            elif t == "REG_QWORD":
                rep("Data", lambda v: "")
            elif t == "REG_MULTI_SZ":
                rep("Data", ", ".join)
            elif isinstance(d["Data"], str):
                rep("Data", lambda s: s.replace("\r\n", "\n;"))
        if op == "RegQueryValue" or (op == "RegQueryKey" and d.get("Query") == "Name"):
            drop("Name")
    elif cls == "File_System":
        for k in ("AllocationSize", "Offset", "Length"):
            rep(k, lambda v: "{:,}".format(v) if isinstance(v, int) else v)
    return ", ".join("{}: {}".format(k, v) for k, v in det)


def expected_csv(ev, first=None):
    """The column dictionary of an event given as `expected` tuple"""
    p, tid, cls, op, dur, date, result, stack, cat, path, det = ev
    (pid, ppid, auth, session, virt, p64, integ, user, pname, image, cmd, company, version, descr, start, end, mods) = p
    err = ERRORS.get(result, "0x{:X}".format(result))
    first = first or date
    rel = date - first
    c = {
        "DATE_AND_TIME": when(date, True, False), "PROCESS_NAME": pname, "PID": str(pid),
        "OPERATION": "<Unknown>" if "<Unknown>" in op else op.replace("_", " ") if cls == "Process" else op,
        "RESULT": err, "DETAIL": csv_details(ev), "SEQUENCE": "n/a", "COMPANY": company, "DESCRIPTION": descr, "COMMAND_LINE": cmd,
        "USER": user, "IMAGE_PATH": image, "SESSION": str(session), "PATH": path, "TID": str(tid),
        "RELATIVE_TIME": "{:02d}:{:02d}:{:02d}.{:07d}".format(rel // 10 ** 7 // 3600, rel // 10 ** 7 // 60 % 60, rel // 10 ** 7 % 60, rel % 10 ** 7),
        "DURATION": dur_text(dur) if err else "", "TIME_OF_DAY": when(date, False, True), "VERSION": version,
        "EVENT_CLASS": cls.replace("_", " "), "AUTHENTICATION_ID": "{:08x}:{:08x}".format(auth >> 32, auth & 0xffffffff),
        "VIRTUALIZED": {0: "False", 1: "True"}.get(virt, "n/a"), "INTEGRITY": integ, "CATEGORY": cat, "PARENT_PID": str(ppid),
        "ARCHITECTURE": "64-bit" if p64 else "32-bit", "COMPLETION_TIME": when(date + dur, False, True) if err else "",
    }
    return {SPEC["ColumnName"][k]: v for k, v in c.items()}
