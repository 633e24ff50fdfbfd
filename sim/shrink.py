"""Minimises a violating scenario: drops items of every list in it, optional parts, and makes numbers small, as long as the
same class of violation remains."""
import copy
import json
import time

LISTS = {"ops", "events", "procs", "faults", "damage", "header", "threads", "configs", "switches", "bad", "f", "d"}
OPTIONAL = {"faults", "inj", "short", "damage", "cut", "hold", "prefix", "buf", "open_error", "name", "capacity", "max_write", "pre", "pos",
            "invalid", "half", "budget", "ordered", "again", "dumps", "api", "first", "how", "it", "dunder", "default", "header", "page", "huge", "tile", "via", "dflt", "quiet", "same", "fresh", "alt"}


def paths(x, want, at=()):
    out = []
    if isinstance(x, dict):
        for k in x:
            if want(k, x[k]):
                out.append(at + (k,))
            out += paths(x[k], want, at + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            out += paths(v, want, at + (i,))
    return out


def get(x, p):
    for k in p:
        x = x[k]
    return x


def put(x, p, v):
    y = copy.deepcopy(x)
    z = y
    for k in p[:-1]:
        z = z[k]
    z[p[-1]] = v
    return y


def drop(x, p):
    y = copy.deepcopy(x)
    z = y
    for k in p[:-1]:
        z = z[k]
    del z[p[-1]]
    return y


class Shrinker(object):
    def __init__(self, test, seconds, tries):
        """test(scenario) -> the scenario as executed if it still fails the same way, else None"""
        self.test, self.deadline, self.left, self.kept, self.tried = test, time.monotonic() + seconds, tries, 0, 0
        self.seen = set()

    def over(self):
        return self.left <= 0 or time.monotonic() > self.deadline

    def attempt(self, cand):
        key = json.dumps(cand, sort_keys=True)
        if key in self.seen or self.over():
            return None
        self.seen.add(key)
        self.left -= 1
        self.tried += 1
        r = self.test(cand)
        if r is not None:
            self.kept += 1
        return r

    def ddmin(self, scn, path):
        items = get(scn, path)
        n = 2
        if items:
            r = self.attempt(put(scn, path, []))
            if r is not None:
                return r
        while len(get(scn, path)) > 1 and not self.over():
            items = get(scn, path)
            size = max(1, len(items) // n)
            for a in range(0, len(items), size):
                r = self.attempt(put(scn, path, items[:a] + items[a + size:]))
                if r is not None:
                    scn = r
                    n = max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return scn

    def round(self, scn):
        before = json.dumps(scn, sort_keys=True)
        for p in paths(scn, lambda k, v: k in LISTS and isinstance(v, list) and k not in ("configs",)):
            if self.over():
                break
            try:
                get(scn, p)
            except (KeyError, IndexError, TypeError):
                continue
            scn = self.ddmin(scn, p)
        for p in paths(scn, lambda k, v: k == "configs"):
            try:
                for i in range(len(get(scn, p))):
                    scn = self.ddmin(scn, p + (i,))
            except (KeyError, IndexError, TypeError):
                continue
        for p in paths(scn, lambda k, v: k in OPTIONAL):
            try:
                get(scn, p)
            except (KeyError, IndexError, TypeError):
                continue
            r = self.attempt(drop(scn, p))
            if r is not None:
                scn = r
        for p in paths(scn, lambda k, v: isinstance(v, int) and not isinstance(v, bool) and k in ("nth", "ttl", "i", "k", "n", "p", "o", "h", "layout", "tile")):
            try:
                v = get(scn, p)
            except (KeyError, IndexError, TypeError):
                continue
            for w in (0, 1, 2, v // 2, v - 1):
                if 0 <= w < v:
                    r = self.attempt(put(scn, p, w))
                    if r is not None:
                        scn = r
                        break
        for p in paths(scn, lambda k, v: k == "kind" and v in ("raw", "buffered", "bufpipe", "random", "append", "pipe", "readonly")):
            try:
                get(scn, p)
            except (KeyError, IndexError, TypeError):
                continue
            r = self.attempt(put(scn, p, "duck"))
            if r is not None:
                scn = r
        return scn, json.dumps(scn, sort_keys=True) != before

    def run(self, scn):
        changed = True
        while changed and not self.over():
            scn, changed = self.round(scn)
        return scn

    def shrink_list(self, items, test):
        """ddmin over a plain list (the scenarios executed before the violating one)"""
        n = 2
        while items and not self.over():
            size = max(1, len(items) // n)
            for a in range(0, len(items), size):
                cand = items[:a] + items[a + size:]
                self.left -= 1
                if test(cand):
                    items, n = cand, max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items
