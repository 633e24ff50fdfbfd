"""Scenario generators of the log-reading properties: rng -> JSON scenario."""
import copy
import re

from . import pmlgen
from .simdisk import ASYNC_ERRORS, IO_ERRORS

KINDS = ["duck", "raw", "buffered", "bytesio"]


def base(rng, prop, nev=None, tile=0.0, huge=0.0, top=15000, **kw):
    return {"prop": prop, "log": pmlgen.enlarge(rng, pmlgen.gen_log(rng, nev=nev, **kw), tile, huge, top), "stream": gen_stream(rng), "ops": []}


def size(s):
    """Number of events"""
    return len(s["log"]["events"]) * s["log"].get("tile", 1)


def gen_stream(rng, kinds=KINDS, short=0.3):
    s = {"kind": rng.choice(kinds), "buf": rng.choice([1, 2, 7, 16, 64, 512, 4096, 8192])}
    if rng.random() < short and s["kind"] != "bytesio":
        s["short"] = gen_short(rng)
    return s


def gen_short(rng):
    return {"seed": rng.randrange(1 << 30), "p": rng.choice([0.01, 0.1, 0.5, 1.0]), "mode": rng.choice(["one", "any", "any", "last", "page"]),
            "page": rng.choice([2, 3, 8, 16, 512])}


def nev_of(rng, lo=0, hi=16):
    return rng.choice([n for n in (0, 1, 2, 3, 4, 6, 8, 10, 12, 16, 24) if lo <= n <= hi])


def index(rng, n):
    if n and rng.random() < 0.8:
        return rng.randrange(n)
    return rng.choice([-1, 0, -n, n - 1, n, -n - 1, n + 3, -n - 7, 1 << 31, -(1 << 40), rng.randrange(-n - 2, n + 3)])


def near(rng, n):
    """An index next to a round number, a power of two, or what was read last"""
    b = rng.choice([1 << rng.randrange(4, 18), 1000 * rng.randrange(1, 16), 13107, 8192 // 5 * rng.randrange(1, 9), n, n // 2])
    return max(0, min(n - 1, b + rng.choice([-2, -1, 0, 1])))


def sl(rng, n):
    if n > 60:
        a, k = rng.randrange(n), rng.choice([1, 2, 5, 1024])
        return rng.choice([[a, min(n, a + 5 * k), k], [a, max(0, a - 5 * k), -k], [None, None, rng.choice([-1, 1]) * (n // rng.choice([3, 8]))],
                           [-5, None, None], [n - 3, n + 9, None], [None, 4, None]])

    def v():
        return rng.choice([None, None, 0, 1, -1, n, -n, n + 5, rng.randrange(-n - 3, n + 4)])
    return [v(), v(), rng.choice([None, None, 1, -1, 2, 3, -2, 0 if rng.random() < 0.1 else 1])]


def foreign(rng, size):
    if rng.random() < 0.2:
        return {"o": "seek", "whence": 2}
    return {"o": "seek", "p": rng.randrange(1 << 20), "n": rng.choice([0, 0, 1, 5, 100])}


def fault(rng, err=None, deep=False):
    return {"op": rng.choice(["read", "read", "any", "seek", "tell"]),
            "nth": rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 12]) if not deep else int(rng.random() ** 2 * rng.choice([5, 50, 400])),
            "ttl": rng.choice([1, 1, 1, 2, 5, 1000000]), "err": err or rng.choice(IO_ERRORS), "half": int(rng.random() < 0.2)}


def opts(rng, p=0.25):
    return {"stack": int(rng.random() > p), "det": int(rng.random() > p), "how": rng.randrange(3)}


def open_op(rng, r=0, p=0.25):
    """Opening; usually followed by a look at length, processes and system details (not when "quiet")"""
    op = dict({"o": "open", "r": r}, **opts(rng, p))
    if rng.random() < 0.4:
        op["quiet"] = 1
    return op


def read_op(rng, n, r=0):
    """A fault-free reading step"""
    x = rng.random()
    if x < 0.5:
        return {"o": "get", "r": r, "i": index(rng, n)}
    if x < 0.62:
        return {"o": "slice", "r": r, "s": sl(rng, n)}
    if x < 0.72:
        return {"o": "next", "r": r, "it": rng.choice([0, 0, 1])}
    if x < 0.8:
        return {"o": "procs", "r": r}
    if x < 0.86:
        return {"o": "sysd", "r": r}
    if x < 0.9:
        return {"o": "len", "r": r}
    if x < 0.96:
        return {"o": "csv", "r": r, "i": index(rng, n), "first": rng.choice([None, None, 129067776000000000])}
    if x < 0.98:
        return {"o": "rev", "r": r}
    return {"o": "badidx", "r": r, "v": rng.choice(["str", "float", "none", "tuple", "bytes"])}


def injection(rng):
    """An asynchronous exception: at a point of the execution, or at one of the distinct lines it passes"""
    inj = {"frac": rng.random(), "err": rng.choice(ASYNC_ERRORS)}
    if rng.random() < 0.6:
        inj["site"] = rng.random()
        inj["own"] = int(rng.random() < 0.8)
    return inj


# ------------------------------------------------------------------------------------------------ R01
def gen_R01(rng, tier):
    s = base(rng, "R01", tile=0.03, huge=0.02)
    n = size(s)
    big = n > 60
    s["ops"].append(open_op(rng))
    steps = rng.choice([4, 10, 20, 40])
    errs = rng.random() < 0.35
    seq = rng.random() < 0.15
    pos = 0
    for _ in range(steps):
        if rng.random() < 0.25:
            s["ops"].append(foreign(rng, 0))
        op = read_op(rng, n)
        if op["o"] == "rev" and n > 2000:
            op = {"o": "slice", "r": 0, "s": sl(rng, n)}
        if big and rng.random() < 0.3:
            op = {"o": "get", "r": 0, "i": near(rng, n)}
        if seq and op["o"] == "get" and n:
            # runs of neighbours, forwards and backwards, with repeats
            pos += rng.choice([1, 1, 1, 0, -1])
            op["i"] = pos % n
        if errs and op["o"] not in ("rev",) and rng.random() < 0.2:
            op["faults"] = [fault(rng)]
        s["ops"].append(op)
        if rng.random() < 0.15:
            s["ops"].append(copy.deepcopy({k: v for k, v in op.items() if k != "faults"}))
    if n:
        for i in rng.sample(range(n), min(n, 4)):
            s["ops"].append({"o": "get", "r": 0, "i": i})
    spoil(rng, s, 0.15)
    sparse(rng, s, 0.04)
    return s


# ------------------------------------------------------------------------------------------------ R02
def gen_R02(rng, tier):
    s = base(rng, "R02", nev=rng.choice([0, 1, 2, 3, 5, 8, 12]), tile=0.01, huge=0.01, top=9000)
    n = size(s)
    big = n > 60
    s["ops"].append(open_op(rng))
    errs = rng.random() < 0.6
    k = 0
    while k < n + 3 and len(s["ops"]) < 60:
        x = rng.random()
        if x < 0.55:
            op = {"o": "next", "r": 0, "it": rng.choice([0, 0, 1, 2]), "dunder": int(rng.random() < 0.2)}
            if rng.random() < 0.15:
                op["dflt"] = 1
            k += 1
        elif x < 0.75:
            m = rng.choice([1, 2, 3, n + 1 if rng.random() < 0.2 else 2])
            op = {"o": "for", "r": 0, "k": m if not big else rng.choice([300, 1000, 2000, n // 3])}
            k += op["k"]
        elif x < 0.85:
            op = {"o": "get", "r": 0, "i": index(rng, n)}
        else:
            op = rng.choice([foreign(rng, 0), {"o": "len", "r": 0}, {"o": "procs", "r": 0}, {"o": "slice", "r": 0, "s": sl(rng, n)}])
        if errs and op["o"] in ("next", "for", "get", "slice") and rng.random() < 0.3:
            op["faults"] = [fault(rng)]
        s["ops"].append(op)
    for _ in range(rng.randint(1, 3)):
        s["ops"].append({"o": "for", "r": 0, "k": n + 5})
        if rng.random() < 0.4:
            s["ops"][-1]["via"] = rng.choice(["list", "tuple", "star", "comp", "enum"])
    for _ in range(rng.randint(1, 3)):
        s["ops"].append({"o": "next", "r": 0, "it": rng.choice([0, 1, 2])})
    if rng.random() < 0.3:
        s["ops"].append({"o": "get", "r": 0, "i": index(rng, n)})
        s["ops"].append({"o": "next", "r": 0})
    sparse(rng, s, 0.04)
    return s


# ------------------------------------------------------------------------------------------------ R03
def gen_R03(rng, tier):
    big = rng.random() < 0.02
    s = base(rng, "R03", nev=nev_of(rng, 1, 12), big=big, tile=0.01 if not big else 0, huge=0.04 if not big else 0, top=4000)
    s["stream"] = gen_stream(rng, ["duck", "raw", "raw", "buffered"], short=1.0)
    n = size(s)
    s["ops"].append(open_op(rng))
    for _ in range(rng.choice([3, 8, 16])):
        s["ops"].append(read_op(rng, n))
    s["ops"].append({"o": "for", "r": 0, "k": n + 2})
    s["ops"].append({"o": "for", "r": 0, "k": 1})
    if rng.random() < 0.4:
        s["ops"].append({"o": "readall"})
    if rng.random() < 0.3:
        s["ops"].append({"o": "readpath", "path": "str", "buf": rng.choice([1, 3, 64, 8192])})
    spoil(rng, s, 0.2)
    sparse(rng, s, 0.06)
    return s


# ------------------------------------------------------------------------------------------------ R04
def gen_R04(rng, tier):
    s = base(rng, "R04", nev=nev_of(rng, 1, 12), tile=0.01, huge=0.01, top=4000)
    s["stream"] = gen_stream(rng, ["duck", "duck", "raw", "buffered"], short=0.25)
    n = size(s)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        op = open_op(rng)
        op["faults"] = [fault(rng, deep=True)]
        s["ops"].append(op)
    s["ops"].append(open_op(rng))
    for _ in range(rng.choice([3, 8, 16, 30])):
        x = rng.random()
        if x < 0.1:
            s["ops"].append({"o": "bad", "c": rng.choice([rng.random(), {"ev": rng.randrange(n), "o": rng.random()},
                                                          {"ev": rng.randrange(n), "o": rng.random(), "reg": 1}]),
                             "n": rng.choice([1, 16, 512]), "err": rng.choice([e for e in IO_ERRORS if e not in ("NONE", "EINTR")])})
        elif x < 0.2:
            s["ops"].append({"o": "heal"})
        else:
            op = rng.choice([read_op(rng, n), {"o": "get", "r": 0, "i": rng.randrange(n)}, {"o": "next", "r": 0}, {"o": "for", "r": 0, "k": rng.randint(1, 4)}])
            if rng.random() < 0.1:
                op = {"o": rng.choice(["procs", "procs", "sysd"]), "r": 0}
            if op["o"] == "rev":
                op = {"o": "get", "r": 0, "i": rng.randrange(n)}
            retry = copy.deepcopy(op)
            if rng.random() < 0.65:
                op["faults"] = [fault(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
            s["ops"].append(op)
            if op.get("faults") and rng.random() < 0.5 and op["o"] not in ("next", "for"):
                s["ops"].append(retry)
    s["ops"].append({"o": "heal"})
    for i in rng.sample(range(n), min(n, 3)):
        s["ops"].append({"o": "get", "r": 0, "i": i})
    s["ops"].append({"o": "for", "r": 0, "k": n + 1})
    if rng.random() < 0.3:
        s["ops"].append({"o": "readall", "faults": [fault(rng, deep=True)]})
    sparse(rng, s, 0.03)
    return s


# ------------------------------------------------------------------------------------------------ R05
HDR_FIELDS = {"events": 0x240, "offsets": 0x248, "procs": 0x250, "strings": 0x258, "icons": 0x260, "header_size": 0x398, "hosts": 0x3a0}


def unfinished(rng, s):
    """The header of a capture whose writer did not get to finish it"""
    x = rng.random()
    if x < 0.45:
        f = rng.sample(sorted(HDR_FIELDS), rng.choice([1, 1, 2, 3, 7]))
        s["header"] = [[HDR_FIELDS[k], "00" * 8] for k in f]
        s["why"] = "never written: " + ",".join(sorted(f))
    elif x < 0.75:
        # stored in words, in order; the rest is still zero
        w = rng.choice([4, 8, 8, 16, 512])
        cutoff = rng.randrange(4, 0x3a4)  # the last four bytes are zero in any file that is not huge
        cutoff -= cutoff % w
        s["header"] = [[cutoff, "00" * (0x3a8 - cutoff)]] if cutoff else [[0, "00" * 0x3a8]]
        if cutoff == 4:
            s["header"] = [[0x234, "00" * (0x3a8 - 0x234)]]
        s["why"] = "only the first 0x%x bytes of the header are stored" % cutoff
        if cutoff < 0x240 and cutoff > 0 and cutoff != 4:
            if cutoff < 8:
                s["header"] = [[0, "00" * 0x3a8]]
                s["why"] = "no header stored"
    elif x < 0.9:
        s["header"] = [[0, rng.choice(["00000000", "504d4c00", "0d0a0d0a", "506d6c5f"])]]
        s["why"] = "no signature"
    else:
        s["header"] = [[0x398, rng.choice(["a803000001000000", "a703000000000000", "0000000000000000", "ffffffffffffffff"])]]
        s["why"] = "wrong header size"
    s["expect_open"] = "PMLError"


def gen_R05(rng, tier):
    s = base(rng, "R05", nev=nev_of(rng, 1, 10), tile=0.005, huge=0.01, top=2000)
    n = size(s)
    x = rng.random()
    if x < 0.25:
        unfinished(rng, s)
        s["stream"] = gen_stream(rng, short=0.2)
        s["ops"] = [rng.choice([open_op(rng), {"o": "readall"}, {"o": "readpath", "path": "str"}]) for _ in range(2)]
        return s

    def where():
        y = rng.random()
        if y < 0.3:
            return {"ev": rng.randrange(n), "o": rng.random(), "reg": rng.choice([0, 0, 1])}
        if y < 0.75:
            return {"sec": rng.choice(["events", "offsets", "procs", "strings", "hosts", "hosts"]), "o": rng.random()}
        if y < 0.85:
            return {"sec": "hosts", "o": 1.0 - rng.random() ** 3 * 0.4}
        return rng.random()
    if x < 0.65:
        s["cut"] = where() if rng.random() < 0.93 else rng.randrange(0x3b0)
        s["stream"] = gen_stream(rng, short=0.2)
        if rng.random() < 0.5:
            s["ops"] = [{"o": "readall"}, {"o": "readpath", "path": "str"}]
        s["ops"].append(open_op(rng))
    else:
        s["stream"] = gen_stream(rng, ["duck", "raw", "buffered"], short=0.2)
        s["ops"].append(open_op(rng))
        for _ in range(rng.randrange(3)):
            s["ops"].append(read_op(rng, n))
        s["ops"].append({"o": "trunc", "c": where()})
    for _ in range(rng.choice([2, 6, 10])):
        op = read_op(rng, n)
        s["ops"].append(op if op["o"] != "rev" else {"o": "get", "r": 0, "i": rng.randrange(n)})
        if rng.random() < 0.08 and s["stream"]["kind"] != "bytesio":
            s["ops"].append({"o": "trunc", "c": where()})
    s["ops"].append({"o": "for", "r": 0, "k": n + 1})
    for _ in range(min(n, 20)):
        s["ops"].append({"o": "for", "r": 0, "k": n + 1})
    if rng.random() < 0.5:
        s["ops"].append({"o": "readall"})
    return s


# ------------------------------------------------------------------------------------------------ R06
PATTERNS = ["ffffffff", "00000000", "ffffff7f", "00000080", "ffff", "0000", "0080", "ff7f", "ff", "80", "01", "ffffffffffffffff",
            "feffffff", "10000000", "00010000"]


def dam(rng, n, shared=False):
    if not shared and rng.random() < 0.12:
        a = rng.randrange(40)
        return {"ev": rng.randrange(n), "link": a, "to": rng.choice([a, max(0, a - 1), a // 2, 0, a + 1, a + 2])}
    d = {"o": rng.randrange(1 << 16)}
    x = rng.random()
    if x < 0.4:
        d["x"], d["xor"] = "%02x" % (1 << rng.randrange(8)), 1
    elif x < 0.6:
        d["x"] = "".join("%02x" % rng.randrange(256) for _ in range(rng.choice([1, 2, 4, 8, 32])))
    else:
        d["x"] = rng.choice(PATTERNS)
    if shared:
        if rng.random() < 0.5:
            d["lo"] = 0
            d["o"] = rng.choice([0x4, 0x8, 0x234, 0x240, 0x248, 0x250, 0x258, 0x260, 0x398, 0x3a0]) + rng.choice([0, 0, 1, 3, 4])
        else:
            d["sec"] = rng.choice(["procs", "strings", "hosts", "offsets"])
    else:
        d["ev"] = rng.randrange(n)
        d["reg"] = rng.choice([0, 0, 0, 1])
        d["idx"] = int(rng.random() < 0.1)
        if rng.random() < 0.5:
            # a field of the fixed part: operation, sizes, depth, offsets, process...
            d["reg"] = 0
            d["o"] = rng.choice([0, 8, 0xc, 0x28, 0x2c, 0x2c, 0x30, 0x30, 0x1c, 0x34, 0x36, 0x38])
    return d


def damage(rng, s, n, shared):
    s["damage"] = [dam(rng, n, shared) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    img = None
    for d in s["damage"]:
        if "sec" in d:
            img = img or pmlgen.build(s["log"])
            sec = d.pop("sec")
            lo, hi = img.regions[sec], img.regions[sec + "_end"]
            d["lo"] = lo
            span = min(hi - lo, rng.choice([4, 16, 200, 10000]))
            d["o"] = rng.randrange(max(1, span))


def narrow(rng, s):
    """Bytes beyond ASCII in places where the log has texts of single bytes"""
    img = pmlgen.build(s["log"])
    out = []
    for i in range(min(img.n, 60)):
        for r, (lo, hi) in enumerate(img.ev_regions[i]):
            out += [(i, r, m.start(), m.end()) for m in re.finditer(rb"[ -~]{4,}", img.data[lo:hi])]
    for i, r, a, b in rng.sample(out, min(len(out), rng.randint(1, 3))):
        s.setdefault("damage", []).append({"ev": i, "reg": r, "o": rng.randrange(a, b - 2),
                                           "x": rng.choice(["c3a9", "e4", "d7a9", "e4bda0", "80"])})


def spoil(rng, s, p):
    """Sometimes the log is damaged: nobody can say what it records, but whatever the library makes of it must not depend on anything else"""
    n = size(s)
    if rng.random() >= p or not n or s["log"].get("huge") or n > 60:
        return
    x = rng.random()
    if x < 0.35:
        narrow(rng, s)
    else:
        damage(rng, s, n, x > 0.7)
    for _ in range(rng.choice([1, 2, 3])):
        op = {"o": "digest", "stack": int(rng.random() < 0.8), "det": int(rng.random() < 0.8), "seed": rng.randrange(1 << 20)}
        s["ops"].insert(rng.randint(0, len(s["ops"])), op)


def sparse(rng, s, p):
    """Sometimes a part of the log is gigabytes further on (the hole takes no memory)"""
    if rng.random() >= p or s["log"].get("tile") or s.get("damage") or any(op["o"] in ("digest", "readpath") or "inj" in op for op in s["ops"]):
        return
    s["log"]["gap"] = [rng.randrange(1 << 20), rng.choice(pmlgen.GAPS)]
    if s["stream"]["kind"] == "bytesio":
        s["stream"]["kind"] = "duck"
    for op in s["ops"]:
        if op["o"] == "seek" and "p" in op and rng.random() < 0.5:
            op["p"] = rng.randrange(1 << 34)


def temper(s):
    """Large logs are not read byte by byte (that only takes time)"""
    for t in s.get("threads", [s]):
        if t.get("log", {}).get("tile") and "short" in t.get("stream", {}):
            t["stream"]["short"].update(p=min(0.1, t["stream"]["short"]["p"]), mode="any")
        if "log" in t and size(t) > 20000:
            # ... nor more than twice, nor in tiny pieces, nor line by line
            t["stream"]["buf"] = max(512, t["stream"].get("buf", 512))
            whole = 0
            for op in list(t["ops"]):
                op.pop("inj", None)
                if "buf" in op:
                    op["buf"] = max(512, op["buf"])
                if op["o"] in ("readall", "readpath", "digest") or op.get("k", 0) > 10000 or (op["o"] in ("slice", "rev") and len(range(size(t))[slice(*op.get("s", [None]))]) > 10000):
                    whole += 1
                    if whole > 2:
                        t["ops"].remove(op)
    return s


def gen_R06(rng, tier):
    s = base(rng, "R06", nev=nev_of(rng, 2, 12), tile=0.005, huge=0.01, top=2000)
    n = size(s)
    shared = rng.random() < 0.35
    s["stream"] = gen_stream(rng, ["duck", "duck", "raw", "bytesio", "buffered"], short=0)
    if rng.random() < 0.3 and n < 60 and not s["log"].get("huge"):
        s["budget"] = 1
    damage(rng, s, n, shared)
    late = not shared and rng.random() < 0.2 and s["stream"]["kind"] != "bytesio"
    s["ops"].append(open_op(rng))
    if late:
        # the bytes rot while the reader is open
        dl, s["damage"] = s["damage"], []
        for d in dl:
            s["ops"].append(read_op(rng, n))
            s["ops"].append({"o": "damage", "d": d})
        target = [d["ev"] for d in dl]
    else:
        target = [d["ev"] for d in s["damage"] if "ev" in d]
    for _ in range(rng.choice([3, 8, 16])):
        s["ops"].append(read_op(rng, n))
        if target and rng.random() < 0.5:
            t = rng.choice(target)
            s["ops"].append({"o": "get", "r": 0, "i": t})
            s["ops"].append(rng.choice([{"o": "get", "r": 0, "i": (t + 1) % n}, {"o": "get", "r": 0, "i": t - 1}, {"o": "procs", "r": 0}]))
    s["ops"] = [o if o["o"] != "rev" else {"o": "sysd", "r": 0} for o in s["ops"]]
    for _ in range(3 if shared else min(n + 1, 40)):
        s["ops"].append({"o": "for", "r": 0, "k": n + 1})
    if rng.random() < 0.3:
        s["ops"].append({"o": "readall"})
    return s


# ------------------------------------------------------------------------------------------------ R07
def gen_R07(rng, tier):
    s = base(rng, "R07", nev=nev_of(rng, 0, 12), tile=0.01, huge=0.01, top=9000)
    n = size(s)
    s["stream"] = gen_stream(rng, ["duck", "raw", "buffered"], short=0.3)
    x = rng.random()
    if x < 0.3 and n:
        s["damage"] = [dam(rng, n) for _ in range(rng.choice([1, 1, 2]))]
    elif x < 0.4:
        s["cut"] = rng.random()
    elif x < 0.45:
        unfinished(rng, s)
    for _ in range(rng.choice([1, 2, 4])):
        path = rng.random() < 0.65
        op = {"o": "readpath", "path": rng.choice(["str", "str", "bytes", "path"]), "buf": rng.choice([1, 16, 64, 512, 8192])} if path else {"o": "readall"}
        y = rng.random()
        if y < 0.5:
            op["faults"] = [fault(rng, deep=True, err=rng.choice(IO_ERRORS + ["KBD", "ABORT"]))]
        elif y < 0.65 and "damage" not in s and "cut" not in s and "header" not in s:
            op["inj"] = injection(rng)
        elif y < 0.72 and path and "damage" not in s and "cut" not in s and "header" not in s:
            if rng.random() < 0.5:
                op["missing"] = 1
            else:
                op["open_error"] = rng.choice(["ENOENT", "EMFILE", "EACCES", "EISDIR", "EIO"])
        if path and rng.random() < 0.2:
            op["name"] = rng.choice(["a b.PML", "\u05d0\u4f60.pml", "noext", "read"])
        s["ops"].append(op)
    return s


# ------------------------------------------------------------------------------------------------ R08
ZONES = ["UTC", "America/New_York", "Europe/London", "Asia/Kathmandu", "Pacific/Apia", "Australia/Lord_Howe", "Asia/Jerusalem",
         "America/Sao_Paulo", "Europe/Berlin", "Africa/Casablanca", "XST-13:45", "YST+11", "UTC0", "America/St_Johns"]
LOCALES = ["C", "C.UTF-8", "de_DE.UTF-8", "zh_CN.UTF-8", "fa_IR.UTF-8", "th_TH.UTF-8", "tr_TR.UTF-8", "POSIX", "tr_TR.ISO-8859-9", "zh_CN.GB18030"]


def env_op(rng):
    x = rng.random()
    if x < 0.4:
        return {"o": "tz", "tz": rng.choice(ZONES)}
    if x < 0.7:
        return {"o": "locale", "loc": rng.choice(LOCALES)}
    if x < 0.9:
        return {"o": "clock", "t": rng.choice([0, 1, 946684800, 1710054000, 1699164000, 1720000000, 4102444800, rng.randrange(1 << 32)])}
    if x < 0.95:
        return {"o": "cwd", "dir": rng.choice(["/", "/tmp", "/usr"])}
    return {"o": "environ", "env": rng.choice([{"LANG": "de_DE.UTF-8"}, {"LC_ALL": "fa_IR.UTF-8"}, {"PYTHONIOENCODING": "latin-1"}, {"HOME": "/nonexistent"}])}


def gen_R08(rng, tier):
    s = base(rng, "R08", nev=nev_of(rng, 1, 10))
    s["stream"] = gen_stream(rng, short=0.1)
    n = size(s)
    for _ in range(rng.randrange(3)):
        s["ops"].append(env_op(rng))
    s["ops"].append(open_op(rng, p=0.1))
    for _ in range(rng.choice([4, 10, 20])):
        if rng.random() < 0.4:
            s["ops"].append(env_op(rng))
        x = rng.random()
        i = rng.randrange(n)
        if x < 0.35:
            s["ops"].append({"o": "csv", "r": 0, "i": i, "first": rng.choice([None, None, 119600064000000000])})
        elif x < 0.7:
            s["ops"].append({"o": "date", "r": 0, "i": i, "utc": int(rng.random() < 0.4), "default": rng.randrange(2)})
        elif x < 0.8:
            s["ops"].append({"o": "get", "r": 0, "i": i, "hold": 1})
        elif x < 0.85:
            s["ops"].append({"o": "heldcsv", "h": rng.randrange(8), "first": rng.choice([None, 119600064000000000]), "times": 1})
        elif x < 0.92:
            s["ops"].append({"o": "helddate", "h": rng.randrange(8), "order": rng.randrange(2), "both": rng.randrange(2)})
        else:
            s["ops"].append(read_op(rng, n))
    spoil(rng, s, 0.25)
    return s


# ------------------------------------------------------------------------------------------------ R09
def gen_R09(rng, tier):
    if rng.random() < 0.12:
        return hammer(rng)
    k = rng.choice([2, 2, 2, 3, 4])
    mixes = rng.choice([["PRFNG"], ["F"], ["R"], ["N"], ["P"], ["RF", "FN"], ["PRFNG"]])
    threads = []
    for t in range(k):
        s = base(rng, "R09", nev=rng.choice([1, 2, 3, 5, 8]), kinds=rng.choice(mixes))
        s["log"]["is64"] = bool(t % 2) if rng.random() < 0.6 else s["log"]["is64"]
        s["stream"] = gen_stream(rng, ["duck", "raw", "buffered"], short=0.3)
        n = size(s)
        s["ops"].append(open_op(rng))
        fl = rng.random() < 0.35
        for _ in range(rng.choice([2, 4, 8])):
            op = rng.choice([read_op(rng, n), {"o": "get", "r": 0, "i": rng.randrange(n)}, {"o": "csv", "r": 0, "i": rng.randrange(n), "first": None}, {"o": "for", "r": 0, "k": 2}])
            if fl and op["o"] in ("get", "slice", "next", "for") and rng.random() < 0.4:
                op["faults"] = [fault(rng, err=rng.choice(IO_ERRORS + ["KBD", "ABORT"]))]
            s["ops"].append(op)
        s["ops"].append({"o": "for", "r": 0, "k": n + 1})
        if rng.random() < 0.3:
            s["ops"].append({"o": "readall"})
        spoil(rng, s, 0.15)
        threads.append(s)
    return {"prop": "R09", "threads": threads, "sched": schedule(rng), "fresh": int(rng.random() < 0.3)}


def schedule(rng, hot=0.3):
    """How the threads switch: anywhere with some probability, or mostly at a few places of the code"""
    s = {"seed": rng.randrange(1 << 30), "p": rng.choice([0.002, 0.01, 0.03, 0.1, 0.3]), "instr": int(rng.random() < 0.12)}
    if rng.random() < hot:
        s["p"] = rng.choice([0.0, 0.0002, 0.001])
        s["hot"] = [rng.randrange(1 << 30), rng.choice([0.03, 0.1, 0.2]), rng.choice([0.1, 0.3, 0.7])]
        if rng.random() < 0.6:
            s["hot"].append(rng.choice([30, 300, 3000, 30000]))
    return s


def hammer(rng):
    """Threads that read many events of the same operation, over and over"""
    kind = rng.choice("RRFFPN")
    pool = pmlgen.gen_log(rng, nev=rng.choice([60, 250]), kinds=kind)
    names = [e["on"][0] for e in pmlgen.build(pool).events]
    name = rng.choice(names if rng.random() < 0.4 else sorted(set(names)))
    same = [e for e, n in zip(pool["events"], names) if n == name]
    threads = []
    sched = schedule(rng, 0.7)
    for _ in range(rng.choice([2, 2, 3])):
        s = base(rng, "R09", nev=1, kinds=kind)
        # (switching at every bytecode costs a lot)
        s["log"]["events"] = [list(rng.choice(same)) for _ in range(rng.choice([6, 20, 40]) if not sched["instr"] else 6)]
        s["stream"] = gen_stream(rng, ["duck", "raw", "buffered"], short=0.1)
        n = size(s)
        s["ops"].append({"o": "open", "r": 0, "stack": 1, "det": 1, "how": 0, "quiet": 1})
        s["ops"].append({"o": "for", "r": 0, "k": n + 1})
        for _ in range(rng.choice([1, 3]) if not sched["instr"] else 1):
            s["ops"].append({"o": rng.choice(["slice", "slice", "rev"]), "r": 0, "s": [None, None, rng.choice([1, -1])]})
            if s["ops"][-1]["o"] == "rev":
                s["ops"][-1].pop("s")
            s["ops"].append({"o": "csv", "r": 0, "i": rng.randrange(n), "first": None})
        threads.append(s)
    return {"prop": "R09", "threads": threads, "sched": sched, "fresh": int(rng.random() < 0.6)}


# ------------------------------------------------------------------------------------------------ R10
def gen_R10(rng, tier):
    s = base(rng, "R10", nev=nev_of(rng, 1, 10), kinds=rng.choice(["PRFNG", "PR", "RF", "P", "R", "PRFNG"]), tile=0.005, huge=0.01, top=3000)
    s["stream"] = gen_stream(rng, short=0.1)
    n = size(s)
    p = rng.choice([0.0, 0.1, 0.5])
    s["ops"].append(open_op(rng, p=p))
    if rng.random() < 0.3:
        s["ops"].append(open_op(rng, r=1, p=p))
    hot = [rng.randrange(n) for _ in range(2)]
    for _ in range(rng.choice([6, 12, 25])):
        r = rng.choice([0, 0, 0, 1])
        x = rng.random()
        if x < 0.4:
            s["ops"].append({"o": "get", "r": r, "i": rng.choice(hot) if rng.random() < 0.4 else rng.randrange(n), "hold": 1})
        elif x < 0.47:
            s["ops"].append({"o": "slice", "r": r, "s": sl(rng, n), "hold": 1})
        elif x < 0.52:
            s["ops"].append({"o": "next", "r": r, "hold": 1})
        elif x < 0.57:
            s["ops"].append({"o": rng.choice(["procs", "sysd"]), "r": r, "hold": 1})
        elif x < 0.77:
            s["ops"].append({"o": "mutate", "h": rng.randrange(20), "how": rng.randrange(40)})
        elif x < 0.92:
            s["ops"].append({"o": "heldcsv", "h": rng.randrange(20), "first": rng.choice([None, 119600064000000000]), "times": rng.choice([1, 2, 3])})
        elif x < 0.95:
            s["ops"].append({"o": "get", "r": r, "i": rng.randrange(n), "faults": [fault(rng)]})
        elif x < 0.96:
            s["ops"].append({"o": "copy", "h": rng.randrange(20), "how": rng.choice(["deepcopy", "pickle"])})
        elif x < 0.99:
            s["ops"].append({"o": "same", "h": rng.randrange(20), "how": rng.randrange(20)})
        else:
            s["ops"].append({"o": "verify"})
    s["ops"] += [{"o": "same", "h": rng.randrange(20), "how": rng.randrange(20)} for _ in range(2)]
    end = rng.random()
    if end < 0.4:
        s["ops"].append({"o": "close", "how": rng.choice(["close", "drop"])})
    elif end < 0.6 and s["stream"]["kind"] != "bytesio":
        s["ops"].append({"o": "trunc", "c": 0})
    if rng.random() < 0.5:
        s["ops"].append({"o": "drop", "r": 0})
    for _ in range(rng.choice([1, 4])):
        s["ops"].append({"o": "heldcsv", "h": rng.randrange(20), "first": None, "times": 2})
    if rng.random() < 0.4:
        s["ops"].append({"o": "copy", "h": rng.randrange(20), "how": rng.choice(["deepcopy", "pickle"])})
    s["ops"] += [{"o": "procs", "r": 0}, {"o": "sysd", "r": 0}, {"o": "get", "r": 0, "i": 0}, {"o": "verify"}]
    return s


# ------------------------------------------------------------------------------------------------ R11
def gen_R11(rng, tier):
    s = base(rng, "R11", nev=nev_of(rng, 1, 10))
    s["stream"] = gen_stream(rng, short=0.1)
    n = size(s)
    for _ in range(rng.choice([0, 0, 1, 2])):
        op = open_op(rng)
        op["inj"] = injection(rng)
        s["ops"].append(op)
    s["ops"].append(open_op(rng))
    for _ in range(rng.choice([4, 10, 16])):
        op = rng.choice([read_op(rng, n), {"o": "get", "r": 0, "i": rng.randrange(n)}, {"o": "next", "r": 0}, {"o": "for", "r": 0, "k": rng.randint(1, 3)}])
        if op["o"] == "rev" or op["o"] == "badidx" or rng.random() < 0.05:
            op = {"o": rng.choice(["procs", "sysd"]), "r": 0}
        if rng.random() < 0.65:
            if rng.random() < 0.8:
                op["inj"] = injection(rng)
            else:
                op["faults"] = [fault(rng, err=rng.choice(ASYNC_ERRORS))]
        s["ops"].append(op)
    if rng.random() < 0.25:
        s["ops"].append({"o": "readall", "inj": injection(rng)})
    for i in rng.sample(range(n), min(n, 3)):
        s["ops"].append({"o": "get", "r": 0, "i": i})
    s["ops"] += [{"o": "procs", "r": 0}, {"o": "sysd", "r": 0}, {"o": "for", "r": 0, "k": n + 1}, {"o": "next", "r": 0}]
    return s


# ------------------------------------------------------------------------------------------------ R12
def gen_R12(rng, tier):
    s = base(rng, "R12", nev=nev_of(rng, 1, 10), tile=0.01, huge=0.01, top=3000)
    s["stream"] = gen_stream(rng, short=0.2)
    n = size(s)
    k = rng.choice([2, 2, 3, 4])
    combos = [(1, 1), (0, 1), (1, 0), (0, 0)]
    rng.shuffle(combos)
    opened = 0
    errs = rng.random() < 0.3
    for _ in range(rng.choice([8, 16, 30])):
        if opened < k and (opened == 0 or rng.random() < 0.3):
            st, de = combos[opened % 4]
            s["ops"].append({"o": "open", "r": opened, "stack": st, "det": de, "how": rng.randrange(3)})
            opened += 1
            continue
        r = rng.randrange(opened)
        op = rng.choice([read_op(rng, n, r), {"o": "get", "r": r, "i": rng.randrange(n)}, {"o": "next", "r": r}, {"o": "for", "r": r, "k": 2}])
        if op["o"] == "rev":
            op = {"o": "get", "r": r, "i": rng.randrange(n)}
        if errs and rng.random() < 0.2:
            op["faults"] = [fault(rng)]
        s["ops"].append(op)
        if rng.random() < 0.15 and op["o"] == "get":
            for q in range(opened):
                s["ops"].append({"o": "get", "r": q, "i": op["i"]})
    for r in range(opened):
        s["ops"].append({"o": "for", "r": r, "k": n + 1})
    if rng.random() < 0.2:
        s["ops"].append({"o": "readall"})
        s["ops"].append({"o": "get", "r": 0, "i": 0})
    spoil(rng, s, 0.15)
    sparse(rng, s, 0.04)
    return s


# ------------------------------------------------------------------------------------------------ R13
def gen_R13(rng, tier):
    s = base(rng, "R13", nev=rng.choice([1, 2, 3, 6, 10]), layout=0)  # (the tables follow the events, as Process Monitor writes them)
    vast = rng.random() < 0.04
    s["log"]["tile"] = (130000 if vast else rng.choice([1500, 4000, 9000])) // len(s["log"]["events"])
    if not vast and rng.random() < 0.12:  # large tables, which no event needs as a whole
        s["log"]["huge"] = rng.choice(["hosts", "ports", "strings", "modules", "modules", "procs"])
        s["log"]["tile"] = min(s["log"]["tile"], 500)
        if s["log"]["huge"] == "procs":
            s["log"]["procs"] = [rng.randrange(1 << 30) for _ in range(rng.choice([120, 260, 400]))]
    s["stream"] = gen_stream(rng, ["duck", "duck", "raw", "buffered"], short=0.1)
    if "short" in s["stream"]:
        s["stream"]["short"].update(p=0.1, mode="any")
    n = size(s)
    s["budget"] = 2
    s["ops"].append(dict(open_op(rng), o="costopen"))
    errs, soaks = rng.random() < 0.5, 0 if vast else 2
    for _ in range(3 if vast else rng.choice([4, 8, 16])):
        x = rng.random()
        if x < 0.7 or soaks == 0:
            op = {"o": "cost", "r": 0, "i": rng.choice([near(rng, n), rng.randrange(n), n - 1, 0])}
            if rng.random() < 0.6:
                op["via"] = rng.choice(["next", "next", "next", "neg", "neg", "slice", "slice2"])
            if errs and rng.random() < 0.3:
                op["faults"] = [fault(rng)]
        elif x < 0.8:
            op = rng.choice([{"o": "len", "r": 0}, {"o": "procs", "r": 0}, {"o": "slice", "r": 0, "s": sl(rng, n)}, foreign(rng, 0)])
        else:
            soaks -= 1
            how = rng.choice(["get", "get", "next", "iter", "slice", "csv", "misc", "open", "all"])
            op = {"o": "soak", "r": 0, "how": how, "seed": rng.randrange(1 << 20), "k": {"open": 12, "all": 1, "misc": 300}.get(how, rng.choice([300, 900]))}
            if how in ("get", "slice", "next") and rng.random() < 0.12:
                op["k"] = 30000
            if rng.random() < 0.4 and how not in ("open", "all"):
                op["err"] = rng.choice(["EIO", "EIO", "NOMEM", "CLOSED", "STRUCT"])
        s["ops"].append(op)
    s["ops"] += [{"o": "cost", "r": 0, "i": rng.randrange(n)}, {"o": "procs", "r": 0}]
    return s


GENERATORS = {k[4:]: v for k, v in list(globals().items()) if k.startswith("gen_R") and len(k) == 7}
