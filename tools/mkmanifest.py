"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
TOP = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PY = "/opt/venv/bin/python -B check.py run "
NOTES = {
    "R01": "seeded histories of indexed reads, slices, metadata calls, iteration and foreign seeks, compared with an independent model of the file",
    "R02": "seeded interleavings of several iterators and indexed reads with read errors, compared with a list cursor model",
    "R03": "seeded chunkings of raw, buffered and in-memory streams, compared with the model of the file",
    "R04": "seeded transient and sticky faults at any stream call, results and error causes compared with the model, then retried",
    "R05": "seeded cuts (before opening and while open) and unfinished headers; every outcome must be an error or the recorded data",
    "R06": "seeded corruption (stored or between reads), line and memory budgets derived from the file size",
    "R07": "seeded faults, cuts, damage and interrupts through a simulated file layer which records open/close/write",
    "R08": "seeded switches of time zone, locale, clock, hash seed and directory between operations; real C library locales and zones",
    "R09": "one thread runs at a time; a seeded scheduler switches at any line or bytecode of the library",
    "R10": "seeded histories of reading, exporting, mutation, closing and faults; every earlier result is compared again later",
    "R11": "asynchronous exceptions raised at seeded executed lines of the library, then the reader is compared with the model",
    "R12": "seeded interleavings of two to four readers with different options over one stream",
    "R13": "seeded histories over logs of thousands of events with injected failures; stream bytes, executed lines and retained memory compared with the size of the event",
    "C01": "seeded read faults, chunkings and cuts of generated configurations, compared with an independent encoder",
    "C02": "seeded sinks, positions and write faults, bytes compared with an independent encoder",
    "C03": "every crash point of seeded saves is loaded and compared with the saved prefix",
    "C04": "seeded sessions over a simulated file store with faulted and crashed saves, compared with an ordered-map model",
    "C05": "one thread runs at a time; a seeded scheduler switches at any line or bytecode of library and format engine",
    "C06": "asynchronous exceptions at seeded executed lines of library and format engine, outcome and later use compared with the model",
    "C07": "seeded corruption with line and memory budgets derived from the data size, leading options compared with the model",
    "C08": "seeded unserialisable options at any position over all sink kinds and repaired retries",
}
REASONS = {
    "N01": "a pure function of the file's bytes: no schedule, fault, clock or history can change its outcome, so simulation adds nothing over plain input sampling (histories and faults around it are C01-C04)",
    "N02": "a pure function of one event, and its oracle (the original tool) is not available here; independence from environment and history is R08 and R10",
    "N03": "a pure function of one event's bytes; its oracle is the original tool",
    "N04": "a pure function of the table's bytes; behaviour under chunking, faults and damage is R03-R06",
    "N05": "a pure function of one integer, over constant tables",
    "N06": "a pure function of two objects",
    "N07": "a pure function of constructor arguments",
    "N08": "a pure function of an address and the two tables",
    "N09": "a pure function of a time value; independence from the environment is R08",
    "N10": "a pure function of the header; behaviour under faults and histories is R01, R04, R05",
}
checks, na = [], []
for line in open(os.path.join(TOP, "properties.jsonl")):
    i = json.loads(line)["id"]
    if i in REASONS:
        na.append({"property": i, "reason": REASONS[i]})
    else:
        checks.append({"property": i, "quick_cmd": PY + i, "thorough_cmd": PY + i + " --tier thorough",
                       "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": NOTES[i]})
with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import construct, six, dateutil\"", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
