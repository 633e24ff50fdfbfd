"""Scenario generators of the configuration properties: rng -> JSON scenario."""
from . import pmcgen
from .gen_pml import dam, gen_short, injection, schedule
from .simdisk import ASYNC_ERRORS, IO_ERRORS, SINK_KINDS

READ_ERRORS = [e for e in IO_ERRORS if e != "NONE"]
WRITE_ERRORS = ["EIO", "EIO", "ENOSPC", "ENOSPC", "ESTALE", "EINTR", "EAGAIN", "ETIMEDOUT", "ECONNRESET", "EACCES", "NOMEM", "CLOSED",
                "RUNTIME", "KEY", "INDEX", "STRUCT", "ASSERT", "SHORT", "SHORT", "NONE"]
READ_KINDS = ["duck", "readonly", "raw", "buffered", "bytesio", "pipe", "bufpipe"]


def read_stream(rng, kinds=READ_KINDS):
    s = {"kind": rng.choice(kinds), "buf": rng.choice([1, 2, 7, 64, 512, 8192])}
    if rng.random() < 0.5 and s["kind"] != "bytesio":
        s["short"] = gen_short(rng)
    return s


def read_fault(rng, extra=()):
    return {"op": rng.choice(["read", "read", "read", "any"]), "nth": rng.choice([0, 0, 0, 1, 2, 3, 5, 8, 20]),
            "ttl": rng.choice([1, 1, 2, 1000000]), "err": rng.choice(READ_ERRORS + list(extra)), "half": int(rng.random() < 0.3)}


def sink(rng, kinds=SINK_KINDS, full=0.2, small=0.15):
    s = {"kind": rng.choice(kinds), "buf": rng.choice([1, 7, 64, 512, 8192])}
    if rng.random() < 0.6:
        s["pre"] = rng.randbytes(rng.choice([0, 1, 10, 100, 3000])).hex()
        s["pos"] = rng.choice([0, len(s["pre"]) // 2, rng.randrange(len(s["pre"]) // 2 + 1), len(s["pre"]) // 2 + 3])
    if rng.random() < full:
        s["capacity"] = int(rng.random() ** 2 * rng.choice([20, 200, 2000]))
    if rng.random() < small:
        s["max_write"] = rng.choice([1, 3, 16, 100, 512])
    return s


def write_fault(rng, extra=()):
    return {"op": rng.choice(["write", "write", "write", "write", "seek", "tell"]), "nth": rng.choice([0, 0, 0, 0, 1, 2, 3, 7]), "ttl": rng.choice([1, 1, 2, 1000]),
            "err": rng.choice(WRITE_ERRORS + list(extra)), "accept": rng.choice([0.0, 0.0, rng.random(), 0.99])}


# ------------------------------------------------------------------------------------------------
def gen_C01(rng, tier):
    cfgs = [pmcgen.gen_config(rng) for _ in range(rng.choice([1, 1, 2]))]
    ops = []
    for _ in range(rng.choice([2, 4, 8])):
        c = rng.randrange(len(cfgs))
        op = {"o": "load", "c": c, "stream": read_stream(rng)}
        if rng.random() < 0.3:
            op["prefix"] = rng.choice([rng.randbytes(rng.choice([1, 7, 100])).hex(), pmcgen.encode(pmcgen.gen_config(rng, 2)).hex()])
        x = rng.random()
        if x < 0.35:
            op["faults"] = [read_fault(rng, ("KBD", "ABORT"))]
        elif x < 0.65:
            op["cut"] = rng.choice([rng.random(), {"opt": rng.randrange(30), "f": rng.random()}, {"opt": rng.randrange(30), "f": 0.0},
                                    {"opt": rng.randrange(30), "f": 0.0, "d": rng.choice([1, 2, 4, 8, 15, 16, 17, -1 if False else 3])}])
        elif x < 0.85 and cfgs[c]:
            op["invalid"] = {"opt": rng.randrange(30), "how": rng.choice(["enum", "enum", "enum", "size", "size", "header", "const", "zero"]), "el": rng.randrange(1000)}
            special = [i for i, o in enumerate(cfgs[c]) if o[1] in ("map", "rules") and o[2]]
            if op["invalid"]["how"] in ("enum", "const") and special:
                op["invalid"]["opt"] = rng.choice(special)
        elif x < 0.93 and cfgs[c]:
            op["damage"], op["same"] = damages(rng, cfgs[c]), 1
            if rng.random() < 0.2:
                op["faults"] = [read_fault(rng)]
        elif rng.random() < 0.2:
            op["api"] = "loads"
        ops.append(op)
    ops.append({"o": "load", "c": 0, "stream": read_stream(rng)})
    return {"prop": "C01", "configs": cfgs, "ops": ops}


def gen_C02(rng, tier):
    cfgs = [pmcgen.gen_config(rng) for _ in range(rng.choice([1, 2]))]
    ops = []
    for _ in range(rng.choice([2, 4, 8])):
        op = {"o": "dump", "c": rng.randrange(len(cfgs)), "sink": sink(rng), "ordered": rng.randrange(2)}
        if rng.random() < 0.5:
            op["faults"] = [write_fault(rng, ("KBD", "ABORT"))]
        ops.append(op)
    ops.append({"o": "dump", "c": 0, "sink": sink(rng, full=0, small=0)})
    if rng.random() < 0.3:
        ops.append({"o": "dumps", "c": 0})
    return {"prop": "C02", "configs": cfgs, "ops": ops}


def gen_C03(rng, tier):
    cfgs = [pmcgen.gen_config(rng, rng.choice([1, 2, 3, 5, 8, 12, 24])) for _ in range(rng.choice([1, 2]))]
    ops = []
    for i, c in enumerate(cfgs):
        op = {"o": "crashdump", "c": i, "sink": {"kind": rng.choice(["raw", "append", "buffered", "random", "duck", "pipe", "bufpipe"]), "buf": rng.choice([1, 16, 64, 512, 8192])},
              "points": {"f": sorted(round(rng.random(), 4) for _ in range(16)), "d": sorted(rng.sample([-9, -2, -1, 1, 3, 4, 8, 15, 16, 17, 18, 20, 24, 40], 4))}}
        if rng.random() < 0.15:
            op["sink"]["max_write"] = rng.choice([1, 16, 100])
        if rng.random() < 0.1:
            op["points"]["all"] = 1
        if rng.random() < 0.25:
            op["faults"] = [write_fault(rng)]
        ops.append(op)
    return {"prop": "C03", "configs": cfgs, "ops": ops}


def edit(rng, h):
    x = rng.random()
    if x < 0.4:
        name = rng.choice(list(pmcgen.KIND_OF) + ["Custom", "x"])
        kind = pmcgen.KIND_OF.get(name, "bytes")
        return {"o": "edit", "h": h, "how": "set", "value": [name, kind, pmcgen.gen_value(rng, kind)]}
    op = {"o": "edit", "h": h, "how": "inplace" if x < 0.8 else rng.choice(["del", "move", "del", "clear" if rng.random() < 0.2 else "move"]),
          "i": rng.randrange(40)}
    if op["how"] == "inplace":
        op["value"] = {"k": rng.randrange(4), "col": rng.randrange(1 << 16), "map": rng.choice(pmcgen.COLUMNS), "rule": pmcgen.gen_rule(rng)}
    return op


def gen_C04(rng, tier):
    mutable = rng.random() < 0.5
    cfgs = []
    for _ in range(rng.choice([1, 2, 3])):
        c = pmcgen.gen_config(rng)
        if mutable:
            have = [o[0] for o in c]
            for n in ("Columns", "ColumnMap", "FilterRules", "LogFont"):
                if n not in have and rng.random() < 0.7:
                    c.append([n, pmcgen.KIND_OF[n], pmcgen.gen_value(rng, pmcgen.KIND_OF[n])])
        cfgs.append(c)
    ops = [{"o": "new", "h": 0, "c": 0}, {"o": "fsave", "h": 0, "f": 0, "sink": {"kind": "raw"}}]
    for _ in range(rng.choice([6, 12, 25])):
        x = rng.random()
        h, f = rng.randrange(3), rng.randrange(2)
        if x < 0.05:
            ops.append({"o": "new", "h": h, "c": rng.randrange(3), "ordered": rng.randrange(2)})
        elif x < 0.3:
            op = {"o": "fload", "h": h, "f": f, "stream": read_stream(rng)}
            if rng.random() < 0.2:
                op["api"] = "loads"
            elif rng.random() < 0.25:
                op["faults"] = [read_fault(rng, ("KBD",))]
            ops.append(op)
            if rng.random() < 0.3:
                ops.append(dict(op, h=(h + 1) % 3))
        elif x < 0.65:
            ops.append(edit(rng, h))
        elif x < 0.9:
            op = {"o": "fsave", "h": h, "f": f, "sink": {"kind": rng.choice(["raw", "raw", "buffered", "duck", "random", "bytesio", "append"]), "buf": rng.choice([1, 64, 8192])},
                  "again": int(rng.random() < 0.3)}
            if rng.random() < 0.25:
                op["faults"] = [write_fault(rng, ("KBD",))]
            elif rng.random() < 0.15:
                op["sink"]["capacity"] = rng.choice([0, 10, 100, 500, 3000])
            ops.append(op)
        elif x < 0.95:
            ops.append({"o": "fcrash", "h": h, "f": f, "at": round(rng.random(), 4), "sink": {"kind": rng.choice(["raw", "buffered", "pipe"]), "buf": 64}})
            ops.append({"o": "fload", "h": h, "f": f, "stream": read_stream(rng)})
        else:
            ops.append({"o": rng.choice(["restart", "verify"])})
    for f in (0, 1):
        ops.append({"o": "fload", "h": f, "f": f, "stream": read_stream(rng)})
    return {"prop": "C04", "configs": cfgs, "ops": ops}


def gen_C05(rng, tier):
    threads = []
    flavour = rng.choice(["any", "any", "rules", "arrays", "strings"])
    for _ in range(rng.choice([2, 2, 3, 4])):
        c = pmcgen.gen_config(rng, rng.choice([1, 2, 3, 5]))
        names = {"rules": ["FilterRules", "HighlightRules"], "arrays": ["Columns", "ColumnMap"], "strings": ["Logfile", "SymbolPath", "SourcePath"]}.get(flavour)
        if names:
            c = [[n, pmcgen.KIND_OF[n], pmcgen.gen_value(rng, pmcgen.KIND_OF[n])] for n in rng.sample(names, rng.randint(1, len(names)))] + c[:1]
            c = list({o[0]: o for o in c}.values())
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            x = rng.random()
            if x < 0.4:
                op = {"o": "load", "c": 0, "stream": read_stream(rng)}
                if rng.random() < 0.15:
                    op["faults"] = [read_fault(rng, ("KBD", "ABORT"))]
                elif rng.random() < 0.2:
                    op["cut"] = {"opt": rng.randrange(30), "f": rng.random()}
                elif rng.random() < 0.1:
                    op["invalid"] = {"opt": rng.randrange(30), "how": rng.choice(["enum", "size", "header", "zero"]), "el": rng.randrange(1000)}
                elif c and rng.random() < 0.15:
                    op["damage"], op["same"] = damages(rng, c), 1
            elif x < 0.8:
                op = {"o": "dump", "c": 0, "sink": sink(rng, full=0.05, small=0.1)}
                if rng.random() < 0.15:
                    op["faults"] = [write_fault(rng, ("KBD", "ABORT"))]
            elif x < 0.9:
                op = {"o": "baddump", "c": 0, "sink": sink(rng), "bad": [gen_bad(rng)]}
            else:
                op = {"o": "dumps", "c": 0}
            ops.append(op)
        threads.append({"prop": "C05", "configs": [c], "ops": ops})
    s = schedule(rng)
    s["instr"] = s["instr"] and int(rng.random() < 0.7)
    return {"prop": "C05", "threads": threads, "sched": s, "fresh": int(rng.random() < 0.4)}


def gen_C06(rng, tier):
    cfgs = [pmcgen.gen_config(rng, rng.choice([1, 2, 3, 5])) for _ in range(rng.choice([1, 2]))]
    ops = []
    for _ in range(rng.choice([3, 6, 10])):
        c = rng.randrange(len(cfgs))
        inj = injection(rng)
        op = rng.choice([{"o": "load", "c": c, "stream": read_stream(rng)}, {"o": "load", "c": c, "api": "loads"},
                         {"o": "dump", "c": c, "sink": sink(rng, full=0, small=0)}, {"o": "dumps", "c": c}])
        if rng.random() < 0.8:
            op["inj"] = inj
        elif op["o"] == "load" and "stream" in op:
            op["faults"] = [dict(read_fault(rng), err=rng.choice(ASYNC_ERRORS))]
        elif op["o"] == "dump":
            op["faults"] = [dict(write_fault(rng), err=rng.choice(ASYNC_ERRORS), op="write")]
        ops.append(op)
        if rng.random() < 0.4:
            ops.append({k: v for k, v in op.items() if k not in ("inj", "faults")})
    ops += [{"o": "load", "c": 0, "stream": {"kind": "bytesio"}}, {"o": "dumps", "c": 0}]
    return {"prop": "C06", "configs": cfgs, "ops": ops}


def damages(rng, cfg):
    ds = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        d = dam(rng, 1, True)
        d.pop("lo", None), d.pop("sec", None)
        if rng.random() < 0.8:
            d["opt"] = rng.randrange(30)
            if rng.random() < 0.6:
                # sizes in the record header, or right after the name
                d["o"] = rng.choice([0, 0, 4, 8, 8, 12, 12, 3, 7, 11, 15])
                if cfg and rng.random() < 0.4:
                    o = cfg[d["opt"] % len(cfg)]
                    d["o"] = 16 + len(pmcgen.cstring(o[0])) + rng.choice([0, 1, 2, 4, 14, 15, 18, 22])
        ds.append(d)
    return ds


def gen_C07(rng, tier):
    cfgs = [pmcgen.gen_config(rng, rng.choice([1, 2, 4, 8, 20])) for _ in range(rng.choice([1, 2]))]
    ops = []
    for _ in range(rng.choice([2, 4, 8])):
        c = rng.randrange(len(cfgs))
        op = {"o": "load", "c": c, "stream": read_stream(rng, ["bytesio", "raw", "duck", "buffered"])}
        if rng.random() < 0.3:
            op["api"] = "loads"
        op["damage"] = damages(rng, cfgs[c])
        ops.append(op)
    ops.append({"o": "load", "c": 0, "stream": read_stream(rng, ["bytesio", "raw", "duck"])})
    return {"prop": "C07", "configs": cfgs, "ops": ops, "budget": 1}


def gen_bad(rng):
    return {"kind": rng.choice(["u32", "cols", "map", "str", "cstr", "font", "rules", "rules", "bytes", "name"]), "v": rng.randrange(100), "n": rng.randrange(8), "at": rng.randrange(40)}


def gen_C08(rng, tier):
    cfgs = [pmcgen.gen_config(rng, rng.choice([0, 1, 2, 4, 8, 20])) for _ in range(rng.choice([1, 2]))]
    ops = []
    for _ in range(rng.choice([2, 4, 6])):
        op = {"o": "baddump", "c": rng.randrange(len(cfgs)), "sink": sink(rng, full=0.1, small=0.1), "bad": [gen_bad(rng) for _ in range(rng.choice([1, 1, 1, 2]))],
              "ordered": rng.randrange(2), "dumps": rng.randrange(2)}
        if rng.random() < 0.15:
            op["faults"] = [write_fault(rng)]
        ops.append(op)
        if rng.random() < 0.3:
            ops.append({"o": "dump", "c": rng.randrange(len(cfgs)), "sink": sink(rng, full=0, small=0)})
    return {"prop": "C08", "configs": cfgs, "ops": ops}


def enlarged(gen, share, hi):
    """A part of the scenarios is about configurations that are larger than usual"""
    def make(rng, tier):
        big = rng.random() < share * (3 if tier == "thorough" else 1)
        scn = gen(rng, tier)
        if big:
            for t in scn.get("threads") or [scn]:
                i = rng.randrange(len(t["configs"]))
                t["configs"][i] = pmcgen.enlarge(rng, t["configs"][i], hi)
                for op in t["ops"]:
                    op.get("points", {}).pop("all", None)
        return scn
    return make


gen_C01, gen_C02, gen_C03 = enlarged(gen_C01, 0.03, 80000), enlarged(gen_C02, 0.03, 80000), enlarged(gen_C03, 0.03, 40000)
gen_C04, gen_C05, gen_C06 = enlarged(gen_C04, 0.03, 80000), enlarged(gen_C05, 0.01, 700), enlarged(gen_C06, 0.01, 700)
gen_C07, gen_C08 = enlarged(gen_C07, 0.03, 80000), enlarged(gen_C08, 0.03, 80000)


def with_types(gen):
    """Configurations whose lists are tuples and whose bytes are byte arrays"""
    def make(rng, tier):
        scn = gen(rng, tier)
        for t in scn.get("threads") or [scn]:
            if rng.random() < 0.2:
                for op in t["ops"]:
                    if op["o"] in ("new", "dump", "dumps", "baddump") and rng.random() < 0.7:
                        op["alt"] = 1
        return scn
    return make


gen_C02, gen_C04, gen_C05, gen_C06, gen_C08 = (with_types(g) for g in (gen_C02, gen_C04, gen_C05, gen_C06, gen_C08))


def with_giants(gen, share):
    def make(rng, tier):
        big = rng.random() < share
        scn = gen(rng, tier)
        if big:
            i = rng.randrange(len(scn["configs"]))
            scn["configs"][i] = pmcgen.giant(rng, scn["configs"][i])
            for op in scn["ops"]:
                op.get("points", {}).pop("all", None)
                for f in op.get("faults", ()):  # (every try of a write is recorded)
                    f["ttl"] = min(f.get("ttl", 1), 5)
                if op.get("stream", {}).pop("short", None) is not None:  # not byte by byte
                    op["stream"]["short"] = {"seed": rng.randrange(1 << 30), "p": 1.0, "mode": "page", "page": rng.choice([4096, 65536, 100000])}
                op.get("sink", {}).pop("max_write", None)
        return scn
    return make


gen_C01, gen_C02, gen_C04, gen_C08 = with_giants(gen_C01, 0.003), with_giants(gen_C02, 0.003), with_giants(gen_C04, 0.002), with_giants(gen_C08, 0.002)
GENERATORS = {k[4:]: v for k, v in list(globals().items()) if k.startswith("gen_C") and len(k) == 7}
