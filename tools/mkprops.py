"""Writes /verif/properties.jsonl (run once; the committed file is what counts)."""
import json, os
F = "procmon_parser/"
INIT, LOGS, SLF, SH, SLD, CONSTS = (F + x for x in ("__init__.py", "logs.py", "stream_logs_format.py", "stream_helper.py",
                                            "stream_logs_detail_format.py", "consts.py"))
CF, CH, CFG = F + "configuration_format.py", F + "construct_helper.py", F + "configuration.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


TESTS = ("The tests read two fixed captures from an undisturbed buffered file, front to back (random access is used for a "
         "handful of indices)")

prop("R01", "Random access is independent of access history and stream position",
     "Asking an open log reader for an event by index (negative and out-of-range indices behaving as for a list), for a slice, "
     "for its length, for the processes or for the system details always returns what the file records for it, in full. "
     "It does not depend on which events were read before and in what order, on reads that failed in between, or on where "
     "the caller or another user of the stream left the stream positioned.",
     ["histories", "inputs"],
     "all sequences of indexed reads, slices, metadata calls, iteration steps and foreign seeks/reads of the stream, over all well formed logs "
     "(every event kind, 32 and 64 bit, any section order, shared and out-of-order extra detail data)",
     TESTS + "; a stale position, a cache keyed wrongly or a result that depends on the previous event only shows for particular access orders and event kinds.",
     [SLF, LOGS, INIT], [("absolute seek before every event read; offsets array indexed like a list", SLF + ":PMLStreamReader.get_event_at_offset, " + LOGS + ":PMLStructReader.__getitem__"),
                         ("extra detail data located relative to the event, position restored", SLF + ":read_event")],
     [("stream position", "shared mutable cursor of the caller's file object", SLF + ":PMLStreamReader._stream")],
     ["returned events, lists and exceptions"])

prop("R02", "Iterating a log yields every event exactly once, in order, and then ends",
     "Iterating over a log reader yields the recorded events exactly once each, in recorded order, no matter how calls from several consumers of the "
     "same iterator and indexed reads interleave, and then ends and stays ended. A step that fails with an error gives up exactly "
     "the one event it was for: the following step yields the next event, none is skipped, repeated or reported as the end.",
     ["histories", "fault_sequences"],
     "all interleavings of iteration steps, nested iterators, indexed reads, metadata calls and injected read errors over all well formed logs, including empty ones",
     TESTS + " with no error and a single consumer; exactly-once needs every interleaving and failure position.",
     [INIT, LOGS, SLF], [("cursor advanced once per step before the read", INIT + ":ProcmonLogsReader.__next__"),
                         ("explicit iterator over the counted events", LOGS + ":PMLStructReader.__iter__")],
     [("iteration cursor", "index of the next event", INIT + ":ProcmonLogsReader._current_event_index")], ["values yielded by next()"])

prop("R03", "How the stream chunks its reads never changes what is decoded",
     "A log read through any byte stream that honours the reading contract - raw streams that return fewer bytes than asked at any call, "
     "buffered streams of any buffer size, in-memory streams - gives exactly the same header data, processes, events and end of iteration. A short read is never "
     "mistaken for the end of a string, of a table or of the file.",
     ["schedules", "inputs"],
     "all chunkings (every read may deliver any positive number of the requested bytes) x stream kinds x well formed logs",
     "The tests only use a buffered local file, where a short read never happens before the end of the file.",
     [SH, SLF], [("reads are repeated until the requested size arrived", SH + ":ExactStream.read"),
                 ("every structure is read through that stream", SLF + ":PMLStreamReader.__init__, read_event")],
     (), ["all public reads"])

prop("R04", "A failing read or seek surfaces as an error and leaves the reader usable",
     "When a read, seek or position query of the underlying stream fails - at any call, during opening or during any later operation - the operation in progress fails with that "
     "error, itself or as the cause of the raised one; it never returns a partial or altered result and never reports the end of the log. "
     "Once the fault is gone the same operation on the same reader succeeds and returns the recorded data.",
     ["fault_sequences", "histories"],
     "all positions of transient and sticky I/O errors (OSError kinds, interrupts, timeouts, decompression, end-of-file and closed-file errors, allocation failure) in all operation histories",
     "No test injects an I/O error.",
     [SLF, SH, INIT, SLD], [("stream exceptions propagate, no state is kept between events", SLF + ":read_event, PMLStreamReader.get_event_at_offset"),
                       ("only in-memory decoding errors are handled locally", SLD + ":read_registry_data")],
     (), ["exceptions and results of every operation"])

prop("R05", "An unfinished or truncated capture is never read as if it were complete",
     "A capture whose writer did not finish (section offsets, header size or hosts offset not yet written, or missing signature) is refused with the library's own log error. For a file cut at "
     "any byte, before opening or while a reader is open, every operation either fails or returns exactly what the complete file records - never shortened, "
     "shifted or invented data, and never a list that is silently missing events.",
     ["crash_points", "inputs"],
     "every cut position and every prefix of header fields the writer got to store, for all section orders; truncation before open and between any two operations",
     "No test opens an incomplete file.",
     [SLF, SH], [("zero checks of the header fields", SLF + ":Header.__init__"), ("exact reads fail at a premature end", SH + ":ExactStream.read")],
     (), ["constructor outcome, results of later operations"])

prop("R06", "Damaged bytes stay contained, and reading them takes bounded work and memory",
     "Damage inside the bytes of some events (or in their entries of the event index) affects at most what is returned for those events: every other event, the processes and the system details "
     "still read exactly as recorded, before and after touching the damaged ones. Wherever bytes are damaged, every operation ends after work and memory "
     "bounded by the size of the file, not by a number found in it.",
     ["inputs", "fault_sequences", "histories"],
     "all placements and values of corrupted bytes (stored or appearing between reads), in any operation history",
     "No test reads a corrupted file; corrupted sizes and counts are exactly what a sampled happy path never has.",
     [SLF, SLD, SH, LOGS], [("each event decodes from its own bounded buffers", SLF + ":read_event"),
                      ("loops end at the end of the buffer", SLD + ":get_filesystem_query_directory_details, " + SH + ":read_utf16")],
     (), ["results for undamaged events, executed lines, peak memory"])

prop("R07", "Reading a whole log at once is all or nothing and releases what it opened",
     "Reading all events from a path or an open file returns the complete list of recorded events in order, or raises; it never returns a list shortened or altered by an error. "
     "A file opened from a path is closed on every way out, including errors at any read, interrupts and unusable files; a file object passed in by the caller is neither closed nor written to.",
     ["fault_sequences", "crash_points", "inputs"],
     "all I/O errors, truncations, damages and interrupts at any point of the call, for path and file object arguments",
     "The tests call it on intact files and look only at the returned list.",
     [INIT, LOGS, SLF], [("with-block around the opened file, list built from a counting iterator", INIT + ":read_all_events_from_pml"),
                         ("no end of data inferred from an exception", LOGS + ":PMLStructReader.__iter__")],
     (), ["returned list or exception; open/close/write calls seen by the file layer"])

prop("R08", "Decoded data and exported columns do not depend on the environment",
     "Events, processes and the exported column values of an event are the same whatever the process's time zone, locale, hash seed, current time or working directory, even if these change while a log is being read. "
     "Only the local-time form of an event's date follows the time zone in force at the call, and then correctly for daylight saving changes.",
     ["configurations", "histories", "inputs"],
     "all time zones, locales, hash seeds and clock values, switched between any two operations",
     "The tests run in one environment (UTC, C locale) and compare against one recorded export.",
     [LOGS, SLF], [("UTC conversion of the recorded time, locale-free formatting", LOGS + ":Event._strftime_date, Event.date"),
                   ("insertion-ordered details", SLF + ":read_event")],
     (), ["event fields, column dictionary, date()"])

prop("R09", "Independent readers in concurrent threads do not disturb each other",
     "Threads that each read their own log through their own stream and reader get exactly the results they would get alone, "
     "however their execution interleaves, and also when one of them fails, is interrupted or reads a log of the other bitness.",
     ["schedules"],
     "all interleavings of two to four threads opening, iterating, indexing and exporting different logs, with faults in some of them",
     "The tests are single threaded.",
     [SLF, SLD, SH, CONSTS], [("all decoding state lives in the reader or in local variables", SLF + ":PMLStreamReader, read_event"),
                              ("constant tables are never written after import", CONSTS + ":module tables")],
     (), ["per-thread results"])

prop("R10", "Returned values are complete, independent snapshots",
     "What a reader returned keeps its value and can be used and exported after further reads, after the stream fails or is closed, and after the reader is gone. Changing a returned event's own attributes, its details or stack trace, "
     "or a returned list or dictionary never changes what later reads return, and exporting an event's columns neither changes the event nor differs between calls.",
     ["histories", "fault_sequences"],
     "all histories that mix reading, exporting, mutating returned values, closing or failing the stream and reading again",
     "The tests compare each value once, right after it was read.",
     [LOGS, SLF], [("fresh event, details and stack objects per read", SLF + ":read_event"), ("copy of the details before formatting", LOGS + ":Event._get_compatible_csv_detail_column"),
                   ("fresh list and dictionary per call", SLF + ":PMLStreamReader.processes, " + LOGS + ":PMLStructReader.system_details")],
     (), ["later values of earlier results, later reads"])

prop("R11", "Interrupts and failed allocations in log reading propagate, nothing is corrupted",
     "If a keyboard interrupt, a failing memory allocation or another asynchronous exception strikes at any point of opening or of a reading operation, it reaches the caller (it is not swallowed, turned into the end of the log or into a partial result). "
     "The reader stays usable: every event still reads as recorded and iteration continues with at most the interrupted event given up.",
     ["fault_sequences", "crash_points"],
     "every executed line of the library in every operation as injection point, repeated injections, all exception kinds",
     "No test interrupts an operation.",
     [INIT, SLF, SLD, LOGS], [("no broad exception handlers", SLD + ":module"), ("no partially updated reader state", SLF + ":PMLStreamReader"),
                              ("cursor update is a single step", INIT + ":ProcmonLogsReader.__next__")],
     (), ["exception identity, later results"])

prop("R12", "Readers with different options can share one stream without interference",
     "Several readers opened over the same stream, with stack traces and details switched on or off independently, each return exactly what they return alone, under every interleaving of their operations. "
     "Switching stack traces off leaves out only the stack trace; switching details off leaves out only the details and what is derived from them (the category, and the searched name appended to the path of a directory query). All other fields of each event are unchanged.",
     ["schedules", "histories", "configurations"],
     "all interleavings of operations of two to four readers with any option combination over one stream",
     "The tests open one reader per file, nearly always with both options on.",
     [SLF, SLD], [("options held per reader and passed down with each read", SLF + ":PMLStreamReader.__init__, PmlMetadata"),
                  ("absolute seek before each event", SLF + ":PMLStreamReader.get_event_at_offset")],
     (), ["per-reader results"])

prop("R13", "Reading an event costs what that event needs, and nothing is kept",
     "Opening a log reads its header and tables, not its events, and reading one event takes work and stream traffic bounded by that event's own size plus a constant, "
     "however many events the log has and however many were read, or failed to be read, before. What a reader keeps in memory does not grow with the number of events it returned "
     "or of reads that failed, and opening and reading further logs leaves nothing behind once they are dropped.",
     ["histories", "inputs", "fault_sequences"],
     "all histories of indexed reads, iteration steps, slices, exports and failed reads over logs of any number of events (tables following the events, as Process Monitor writes them)",
     "The tests read small captures once, front to back; cost and growth only show over many events and long histories.",
     [SLF, LOGS, INIT], [("one seek to the recorded offset per event", SLF + ":PMLStreamReader.get_event_at_offset"), ("only the cursor is kept while iterating", INIT + ":ProcmonLogsReader.__next__"),
                   ("whole-log reading is the only place that collects events", INIT + ":read_all_events_from_pml")],
     (), ["bytes requested from the stream, executed lines, allocated memory"])

prop("C01", "Loading a configuration returns all of it or raises",
     "Loading a configuration from any readable stream returns every option stored in it, in order and with its value, or raises; an I/O error at any read, data cut anywhere other than between two records, a record that does not decode, "
     "or a non-seekable or unbuffered stream never make options or array elements silently disappear or change. Bytes of the stream before its current position are not looked at.",
     ["fault_sequences", "inputs"],
     "all read faults, chunkings, truncations and stream kinds x all configurations",
     "The tests load two intact files; an error swallowed as end of data shows only under faults.",
     [CF, CH], [("everything is read first, then decoded to the last byte", CF + ":load_configuration"), ("counted arrays", CH + ":FixedArray")],
     (), ["returned mapping or exception"])

prop("C02", "Saving a configuration writes exactly its serialisation, or raises",
     "Saving a configuration puts exactly the bytes of its serialisation at the current position of any writable stream - positioned in a larger file, append-only, non-seekable or unbuffered - and touches nothing else of it. If the stream fails, "
     "fills up or accepts fewer bytes, the call raises, and what was written is at most a prefix of the serialisation; success is never reported for an incomplete file.",
     ["fault_sequences", "inputs"],
     "all sink kinds, positions and failure points (disk full, I/O error, short write at any byte) x all configurations",
     "The tests write to an in-memory buffer that never fails.",
     [CF], [("records built in memory and written once with the length checked", CF + ":dump_configuration")],
     (), ["bytes in the sink, write/seek calls, exception"])

prop("C03", "A crash while saving never leaves a configuration that loads with wrong options",
     "If the process or machine dies at any point while a configuration is being saved, loading what reached the disk either raises or returns a leading "
     "part of the saved options, each complete and with its saved value. No option is altered, invented or loaded with a default in place of its value.",
     ["crash_points", "inputs"],
     "every byte position of the write sequence as crash point, with torn last write, for all configurations and sink kinds",
     "No test crashes a save.",
     [CF, CH], [("sizes are final before the first byte is written", CF + ":dump_configuration"), ("sizes and counts checked on load", CF + ":RawRecordStruct, " + CH + ":CheckCustom")],
     (), ["load result of every durable prefix"])

prop("C04", "Sequences of load, edit, save, crash and restart keep the configuration intact",
     "Over any sequence of loading, editing in memory, saving, failing or crashing saves, and restarting, a configuration loads back with exactly the options, order and values last saved successfully. "
     "Saving does not change the objects it is given, repeated saves give identical bytes, and separately loaded configurations share no mutable state.",
     ["histories", "crash_points", "fault_sequences"],
     "all sessions of load/edit/save/reload over a simulated file store with crashes and I/O errors at any operation",
     "The tests do one load and one save of fixed data.",
     [CF, CH, CFG], [("pure conversion both ways, ordered mapping", CF + ":load_configuration, dumps_configuration")],
     (), ["loaded mapping versus an ordered-map model after every step"])

prop("C05", "Concurrent loads and saves of different configurations do not disturb each other",
     "Threads that load and save different configurations at the same time each get exactly the result they get alone, under every interleaving, including when one of them fails or is interrupted.",
     ["schedules"],
     "all interleavings of two to four threads loading and saving different configurations, with faults in some of them",
     "The tests are single threaded; the record format is one shared object with build-time bookkeeping.",
     [CF, CH], [("per-call parsing context, no state in the shared format objects", CF + ":Record, " + CH + ":OriginalEnumAdapter")],
     (), ["per-thread results"])

prop("C06", "Interrupts and failed allocations during load or save propagate",
     "An asynchronous exception (interrupt, failing allocation) striking at any point of loading or saving a configuration reaches the caller - as itself, or, where the format engine underneath translates it, as the cause of that engine's error; it never produces a partial or altered result reported as success. "
     "The next load or save in the same process works as usual.",
     ["fault_sequences", "crash_points"],
     "every executed line of the library and of the format engine in load and save as injection point, all exception kinds",
     "No test interrupts a load or save.",
     [CF, CH], [("no handler ends an array or the record list early", CF + ":load_configuration, " + CH + ":FixedArray, CheckCustom")],
     (), ["exception identity, later results"])

prop("C07", "Loading damaged configuration data takes bounded work and memory",
     "Loading a configuration with arbitrary damaged bytes returns or raises after work and memory bounded by the size of the data, never by a count or size found in it. "
     "Options stored before the damaged one are returned unaltered if the load returns at all, and a later load of good data is unaffected.",
     ["inputs", "fault_sequences"],
     "all placements and values of corrupted bytes in all configurations",
     "No test loads corrupted data.",
     [CF, CH], [("sizes bounded by the data present", CF + ":RawRecordStruct, " + CH + ":FixedArray, FixedBytes")],
     (), ["executed lines, peak memory, result or exception"])

prop("C08", "A configuration that cannot be serialised leaves the target untouched",
     "Saving a configuration in which some option cannot be represented (at any position, of any kind of option) raises before anything is written to the stream, and leaves the configuration and its values as they were. "
     "Saving again after the option was corrected succeeds with exactly the right bytes.",
     ["inputs", "histories", "fault_sequences"],
     "all configurations with one or more unserialisable options at any position x sink kinds x later retries",
     "The tests only save serialisable data.",
     [CF, CH], [("everything is serialised before the first write", CF + ":dump_configuration"), ("type and range checks of the values", CH + ":UnicodeStringAdapter, " + CF + ":RawRecordStruct")],
     (), ["bytes in the sink, exception, configuration after the call"])

# ---- properties that are pure functions of their input: not a simulation target
PURE = "A finite set of samples is compared; the property quantifies over all inputs."
prop("N01", "Configuration files survive load and save byte for byte",
     "Saving what was loaded from a configuration file reproduces the file's bytes exactly.", ["inputs"], "all well formed configuration files", PURE,
     [CF], [("format description used in both directions", CF + ":Record")])
prop("N02", "Exported columns equal the original tool's CSV export",
     "For every event the exported columns are textually what Process Monitor itself writes in its CSV export.", ["inputs"], "all events", PURE,
     [LOGS], [("per-column formatting", LOGS + ":Event.get_compatible_csv_info")])
prop("N03", "Path, category and details decode as recorded for every operation kind",
     "For every operation and sub-operation the path, category and details are decoded as Process Monitor shows them.", ["inputs"], "all event payloads", PURE,
     [SLD], [("per-operation handlers", SLD + ":get_event_details")])
prop("N04", "Process and module tables decode as recorded",
     "Every process and module attribute equals the recorded one, for both bitnesses.", ["inputs"], "all process tables", PURE,
     [SLF], [("table parser", SLF + ":ProcessTable")])
prop("N05", "Masks, flags, control codes and status codes are named as in the original",
     "Every mask, flag, control code and status value is rendered with the names Process Monitor uses.", ["inputs"], "all 32 bit values", PURE,
     [CONSTS], [("tables", CONSTS + ":get_error_message, _get_mask_string")])
prop("N06", "Equality and hashing of events, processes, modules and rules are consistent",
     "Objects with equal attributes are equal and hash alike, and never equal objects of another type.", ["inputs"], "all pairs of objects", PURE,
     [LOGS, CFG], [("attribute comparison", LOGS + ":Event.__eq__, " + CFG + ":Rule.__eq__")])
prop("N07", "Rules accept names, values and enum members interchangeably",
     "A rule built from names (any case), numeric values or enum members is the same rule, and invalid ones are rejected.", ["inputs"], "all argument combinations", PURE,
     [CFG], [("normalising constructor", CFG + ":Rule.__init__")])
prop("N08", "Network endpoints are shown by recorded name, else numerically",
     "Hosts and ports are shown with their recorded names, and otherwise as the numeric address and port.", ["inputs"], "all addresses and tables", PURE,
     [SLF], [("lookup with fallback", SLF + ":PMLStreamReader")])
prop("N09", "Dates, durations and relative times are formatted as in the original tool",
     "Times of day, dates, durations and relative times are formatted with the exact precision and layout of Process Monitor.", ["inputs"], "all times and durations", PURE,
     [LOGS], [("formatters", LOGS + ":Event._strftime_date, Event._strftime_duration")])
prop("N10", "System details describe the captured machine",
     "The operating system name, memory size and other system details are derived correctly from the recorded header.", ["inputs"], "all headers", PURE,
     [LOGS, SLF], [("header decoding", SLF + ":Header")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
