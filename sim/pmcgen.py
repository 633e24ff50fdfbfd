"""Independent encoder of PMC configurations and the model of their values.

A configuration is a JSON list of options [name, kind, value]:
  u32 int | cols [int] | map [int] | str text | cstr text | font [13 ints, text] | rules [[column, relation, action, text]] | bytes hex
Nothing here imports the code under test.
"""
import json
import os
import random
from struct import pack

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec.json")) as _f:
    SPEC = json.load(_f)
COLUMNS = sorted(int(k) if k.lstrip("-").isdigit() else int(v) for k, v in SPEC["Column"].items())
ARCH = [int(k) if k.isdigit() else int(v) for k, v in SPEC["Column"].items() if "ARCHITECTURE" in (k, v)][0]

KIND_OF = {"Columns": "cols", "ColumnCount": "u32", "ColumnMap": "map", "DbgHelpPath": "str", "Logfile": "str",
           "HighlightFG": "u32", "HighlightBG": "u32", "LogFont": "font", "BoookmarkFont": "font", "AdvancedMode": "u32",
           "Autoscroll": "u32", "HistoryDepth": "u32", "Profiling": "u32", "DestructiveFilter": "u32", "AlwaysOnTop": "u32",
           "ResolveAddresses": "u32", "SourcePath": "cstr", "SymbolPath": "cstr", "FilterRules": "rules", "HighlightRules": "rules"}
FONT_FIELDS = ["height", "width", "escapement", "orientation", "weight", "italic", "underline", "strikeout", "char_set",
               "out_precision", "clip_precision", "quality", "pitch_and_family", "face_name"]


# ------------------------------------------------------------------------------------------------ encoder
def u16(s):
    return s.encode("utf-16-le")


def cstring(s):
    return u16(s) + b"\0\0" if s else b""


def int_value(column, text):
    if text.isdigit():
        return int(text)
    if column == ARCH:
        return 32 if "32" in text else 64
    return 0


def encode_rule(r):
    column, relation, action, text = r
    v = cstring(text)
    return pack("<IIBI", column, relation, action, len(v)) + v + pack("<II", int_value(column, text), 0)


def raw(v):
    """The bytes of a scenario's value: as hex, or as [length, hex of what is repeated]"""
    if isinstance(v, str):
        return bytes.fromhex(v)
    piece = bytes.fromhex(v[1])
    return (piece * (v[0] // max(1, len(piece)) + 1))[:v[0]]


def encode_value(kind, v):
    if kind == "u32":
        return pack("<I", v)
    if kind == "cols":
        return b"".join(pack("<H", x) for x in v)
    if kind == "map":
        return b"".join(pack("<I", x) for x in v)
    if kind == "str":
        return u16(v)
    if kind == "cstr":
        return cstring(v)
    if kind == "font":
        return pack("<5I8B", *v[:13]) + u16(v[13]).ljust(64, b"\0")
    if kind == "rules":
        return pack("<BI", 1, len(v)) + b"".join(encode_rule(r) for r in v)
    if kind == "bytes":
        return raw(v)
    raise KeyError(kind)


def encode_option(o):
    name, kind, value = o
    n, d = cstring(name), encode_value(kind, value)
    return pack("<IIII", 16 + len(n) + len(d), 16, 16 + len(n), len(d)) + n + d


def encode(cfg):
    return b"".join(encode_option(o) for o in cfg)


def boundaries(cfg):
    out, p = [0], 0
    for o in cfg:
        p += len(encode_option(o))
        out.append(p)
    return out


# ------------------------------------------------------------------------------------------------ values
def canon_value(kind, v):
    if kind in ("cols", "map"):
        return [kind] + list(v)
    if kind == "rules":
        return ["rules"] + [list(r) for r in v]
    if kind == "font":
        return ["font"] + list(v)
    if kind == "cstr":
        return ["str", v]
    if kind == "bytes":
        return ["bytes", raw(v).hex()]
    return [kind, v]


def canon(cfg):
    """[[name, canonical value]] as `snap` shows a loaded configuration"""
    return [[n, canon_value(k, v)] for n, k, v in cfg]


def snap_value(name, v):
    """What the library holds for an option, as a canonical value"""
    kind = KIND_OF.get(name, "bytes")
    if kind == "u32":
        if isinstance(v, bool) or not isinstance(v, int):
            raise TypeError("%s is a %s" % (name, type(v).__name__))
        return ["u32", int(v)]
    if kind == "cols":
        if not isinstance(v, (list, tuple)):
            raise TypeError("%s is a %s" % (name, type(v).__name__))
        return ["cols"] + [int(x) for x in v]
    if kind == "map":
        if not isinstance(v, (list, tuple)):
            raise TypeError("%s is a %s" % (name, type(v).__name__))
        return ["map"] + [snap_enum(x, "Column") for x in v]
    if kind in ("str", "cstr"):
        if not isinstance(v, str):
            raise TypeError("%s is a %s" % (name, type(v).__name__))
        return ["str", str(v)]
    if kind == "font":
        f = [getattr(v, a) for a in FONT_FIELDS]
        return ["font"] + [int(x) for x in f[:13]] + [str(f[13])]
    if kind == "rules":
        if not isinstance(v, (list, tuple)):
            raise TypeError("%s is a %s" % (name, type(v).__name__))
        return ["rules"] + [[snap_enum(r.column, "Column"), snap_enum(r.relation, "RuleRelation"), snap_enum(r.action, "RuleAction"),
                             r.value] for r in v]
    if not isinstance(v, (bytes, bytearray)):
        raise TypeError("%s is a %s" % (name, type(v).__name__))
    return ["bytes", bytes(v).hex()]


def snap_enum(x, cls):
    import procmon_parser
    if not isinstance(x, getattr(procmon_parser, cls)):
        raise TypeError("%r is not a %s" % (x, cls))
    return int(x)


def snap(mapping):
    return [[n, snap_value(n, v)] for n, v in mapping.items()]


def make_value(kind, v):
    """The object a user of the library puts into a configuration"""
    import procmon_parser
    from procmon_parser.configuration import Font
    if kind in ("u32", "str", "cstr"):
        return v
    if kind == "cols":
        return list(v)
    if kind == "map":
        return [procmon_parser.Column(x) for x in v]
    if kind == "font":
        return Font(*v)
    if kind == "rules":
        return [procmon_parser.Rule(procmon_parser.Column(c), procmon_parser.RuleRelation(r), t, procmon_parser.RuleAction(a))
                for c, r, a, t in v]
    return raw(v)


def make(cfg, mapping=dict, alt=False):
    """alt: with values of other types that serve as well"""
    out = mapping()
    for n, k, v in cfg:
        v = out[n] = make_value(k, v)
        if alt:
            out[n] = tuple(v) if isinstance(v, list) else bytearray(v) if isinstance(v, bytes) else v
    return out


# ------------------------------------------------------------------------------------------------ generator
ALPHABET = "abcXYZ019 \\:.*;_-%\"'\u05d0\u4f60\u00e9\U0001f600\uffff\u0100\u0a0a\u0d00"


# what text code may strip, split at, or take for a mark of its own
ODD = "\ufeff\ufffe\t\n\r\x01\x1a\x1f\x7f\x85\xa0\u200f\u2028\u3000 \"'/"


def text(rng, lo=0, hi=24):
    s = "".join(rng.choice(ALPHABET) for _ in range(rng.randint(lo, hi)))
    if s and rng.random() < 0.2:
        c = rng.choice(ODD)
        how = rng.choice([1, 1, 2, 2, 3, 4])
        s = (c if how & 1 else "") + s[1 if how & 1 and len(s) > 1 else 0:] + (c if how & 2 else "")
        i = len(s) // 2
        s = s[:i] + c + s[i + 1:] if how == 4 else s
    return s[:hi]


def data(rng):
    """Binary data: of any kind, with runs of equal bytes at its ends"""
    d = rng.choice([b"", b"\0", bytes.fromhex("10000000"), rng.randbytes(rng.choice([1, 3, 16, 40])), encode_option(["Autoscroll", "u32", 1]),
                    u16(text(rng, 1, 12)), b"abc", b"a,b\r\n"])
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        run = rng.choice([b"\0", b"\0", b"\0", b"\xff", b" ", b"\n"]) * rng.choice([1, 2, 4, 7, 8, 16, 60])
        d = rng.choice([d + run, d + run, run + d])
    return d.hex()


def gen_value(rng, kind):
    if kind == "u32":
        return rng.choice([0, 1, 2, 0x10, 0xff, 0x10000, 0xffffffff, rng.randrange(1 << 32)])
    if kind == "cols":
        return [rng.choice([0, 1, 100, 0xffff, rng.randrange(1 << 16)]) for _ in range(rng.choice([0, 1, 2, 5, 27]))]
    if kind == "map":
        return [rng.choice(COLUMNS) for _ in range(rng.choice([0, 1, 2, 5, 27]))]
    if kind in ("str", "cstr"):
        return rng.choice(["", "C:\\Windows\\help.dll", text(rng), text(rng, 1, 80), "\\\\srv\\share\\" + text(rng)])
    if kind == "font":
        return [rng.choice([0, 8, 0xfffffff5, rng.randrange(1 << 32)]) for _ in range(5)] + [rng.choice([0, 1, 255, rng.randrange(256)]) for _ in range(8)] \
            + [rng.choice(["", "MS Shell Dlg", text(rng, 1, 15), "x" * 32, "y" * 31])]
    if kind == "rules":
        return [gen_rule(rng) for _ in range(rng.choice([0, 1, 2, 3, 8]))]
    return data(rng)


def gen_rule(rng):
    return [rng.choice(COLUMNS), rng.randrange(8), rng.randrange(2),
            rng.choice(["", "1337", "0", "4294967295", "007", "00", "-1", "0x1f", "\u0663", "32-bit", "64-bit", "Procmon.exe", text(rng), text(rng, 1, 40)])]


def gen_config(rng, size=None):
    size = rng.choice([0, 1, 2, 3, 4, 6, 8, 12, 20, 24]) if size is None else size
    names = list(KIND_OF)
    rng.shuffle(names)
    out, seen = [], set()
    for _ in range(size):
        if rng.random() < 0.2 or not names:
            name = rng.choice(["Custom", "FilterRules2", "columns", "x", "", text(rng, 1, 12)])
        else:
            name = names.pop()
        if name in seen:
            continue
        seen.add(name)
        kind = KIND_OF.get(name, "bytes")
        out.append([name, kind, gen_value(rng, kind)])
    return out


def enlarge(rng, cfg, hi=80000):
    """One thing about the configuration becomes large; `hi` bounds its size in bytes (roughly)"""
    cfg = [list(o) for o in cfg]
    n = min(rng.choice([130, 260, 300, 4100, 5000, 33000, 66000, 70000]), hi)
    how = rng.choice(["options", "rules", "rule-text", "cols", "map", "str", "str", "bytes", "bytes", "name"])

    def put(name, value):
        kind = KIND_OF.get(name, "bytes")
        for o in cfg:
            if o[0] == name:
                o[1], o[2] = kind, value
                return
        cfg.insert(rng.randrange(len(cfg) + 1), [name, kind, value])

    def long_text(chars):
        piece = text(rng, 40, 60)
        return (piece * (chars // len(piece) + 1))[:chars]
    if how == "options":
        have = {o[0] for o in cfg}
        cfg += [["c%d" % i, "bytes", rng.choice(["", "00", "10000000"])] for i in range(rng.choice([40, 130, 300])) if "c%d" % i not in have]
    elif how == "rules":
        put(rng.choice(["FilterRules", "HighlightRules"]), [[rng.choice(COLUMNS), rng.randrange(8), rng.randrange(2), rng.choice(["", "7", "a%d" % i])]
                                                            for i in range(rng.choice([20, 40, 130, 260, 300]))])
    elif how == "rule-text":
        put(rng.choice(["FilterRules", "HighlightRules"]), [gen_rule(rng), gen_rule(rng)[:3] + [long_text(n // 2)], gen_rule(rng)])
    elif how == "cols":
        put("Columns", [rng.randrange(1 << 16) for _ in range(n // 2)])
    elif how == "map":
        put("ColumnMap", [rng.choice(COLUMNS) for _ in range(n // 4)])
    elif how == "str":
        put(rng.choice(["DbgHelpPath", "Logfile", "SourcePath", "SymbolPath"]), long_text(n // 2))
    elif how == "bytes":
        put(rng.choice(["Custom", "x"]), rng.randbytes(n + rng.randrange(3)).hex())
    else:
        name = long_text(min(n, 5000) // 2)
        put("".join(c for c in name if c != "\0"), rng.choice(["", "00", "10000000"]))
    return cfg


def giant(rng, cfg):
    """An option of megabytes"""
    cfg = [list(o) for o in cfg if o[0] != "Custom"]
    n = rng.choice([1 << 20, 1 << 20, 2 << 20, 3000000, 5 << 20]) + rng.choice([-70, -40, -1, 0, 1, 2, 1000])
    cfg.insert(rng.randrange(len(cfg) + 1), ["Custom", "bytes", [n, rng.randbytes(rng.choice([3, 251, 1021])).hex()]])
    return cfg
