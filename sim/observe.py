"""Turns what the library returned into plain values that can be compared with the model and printed."""


def snap_process(p):
    return (p.pid, p.parent_pid, p.authentication_id, p.session, p.virtualized, p.is_process_64bit, p.integrity, p.user,
            p.process_name, p.image_path, p.command_line, p.company, p.version, p.description, p.start_time, p.end_time,
            [(m.base_address, m.size, m.path, m.version, m.company, m.description, m.timestamp) for m in p.modules])


def snap_event(e):
    return (snap_process(e.process), e.tid, e.event_class.name, e.operation, e.duration, e.date_filetime, e.result,
            list(e.stacktrace), e.category, e.path, list(e.details.items()))


FIELDS = ("process", "tid", "class", "operation", "duration", "date", "result", "stacktrace", "category", "path", "details")


def diff(exp, got):
    """A short text saying where two snapshots differ"""
    if isinstance(exp, tuple) and isinstance(got, tuple) and len(exp) == len(got) == len(FIELDS):
        for name, a, b in zip(FIELDS, exp, got):
            if a != b:
                return "%s: expected %s got %s" % (name, short(a), short(b))
    if isinstance(exp, list) and isinstance(got, list):
        if len(exp) != len(got):
            return "expected %d items, got %d" % (len(exp), len(got))
        for i, (a, b) in enumerate(zip(exp, got)):
            if a != b:
                return "item %d: %s" % (i, diff(a, b))
    if isinstance(exp, dict) and isinstance(got, dict):
        for k in list(exp) + list(got):
            if exp.get(k, "<missing>") != got.get(k, "<missing>"):
                return "%s: expected %s got %s" % (k, short(exp.get(k, "<missing>")), short(got.get(k, "<missing>")))
    return "expected %s got %s" % (short(exp), short(got))


def short(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)
