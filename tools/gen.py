#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, claimed=True, note=None, na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": m, "where": ", ".join(files[:2])} for m in mech]}}
    P.append((d, claimed, note, na))

S, H, I, F, C, CP = "schedules", "histories", "inputs", "fault_sequences", "configurations", "crash_points"

prop("C01", "A registered view's data is exactly what was recorded",
 "Every measurement recorded while a view on its measure is registered appears exactly once in that view's data, in the row of its tag values for the view's tag keys, and every count, sum, last value, distribution (buckets, min, max, mean, squared deviation, exemplars) and start time reported by retrieval, metric reading or export is the aggregate of exactly those measurements in recording order. Data retrieved after a recording returned includes it, one metric read shows one moment, later reads never show less, and data once handed out never changes.",
 [S, H, I, C], "all interleavings of recording, registering, reading and exporting by any number of goroutines, all tag and value combinations, all aggregations",
 "The tests record from one goroutine and read once; concurrent record/read/export interleavings, repeated registrations and snapshot aliasing need schedules and histories no test samples.",
 ["stats/record.go", "stats/view/worker.go", "stats/view/worker_commands.go", "stats/view/collector.go", "stats/view/aggregation_data.go", "stats/view/view_to_metric.go"],
 ["recording is queued to one worker goroutine per meter, which alone updates per-view rows keyed by encoded tag values", "reads clone the rows under the meter's lock"])
prop("C02", "View registration behaves as one atomic table of names",
 "Registering, finding, retrieving and unregistering views from any number of goroutines behaves as if the calls took effect one at a time in an order compatible with real time: a view equal in measure and aggregation to the registered one of its name registers again without effect, a different one is refused with an error and changes nothing, the other views of such a call are registered as if it were not there, and a call with an invalid view registers nothing. Unregistering is by name. A view collects from the moment its registration returned until it is unregistered, nothing of it is readable or exported after that, and registering it again starts from nothing.",
 [S, H, C], "all histories of register, unregister, find, retrieve and record calls with equal and conflicting definitions, from any number of goroutines",
 "The tests make one or two calls in sequence; linearizability of concurrent histories over shared names is quantified over schedules.",
 ["stats/view/worker.go", "stats/view/worker_commands.go", "stats/view/view.go"],
 ["commands are handled one at a time by the worker", "a conflict is detected by comparing name, measure and aggregation"])
prop("C03", "Every registered view exporter gets every view's data",
 "While exporters are registered, each gets the current data of every registered view once per reporting period, however slow exporters are and whatever period was set last, and unregistering a view hands its final data to every exporter before the call returns. No exporter is ever called concurrently with itself, before it was registered or after its unregistration returned, and every export carries the view's registration time and an end time no earlier than what it contains.",
 [S, H, F, C], "all interleavings of ticks, recording, exporter and view registration, period changes, slow exporters and stalled goroutines",
 "Tests use one exporter and one tick under real time; missed ticks, slow exporters, and exporters or periods changing around a tick depend on timer and goroutine schedules.",
 ["stats/view/worker.go", "stats/view/export.go", "stats/view/worker_commands.go"],
 ["a ticker in the worker's loop reports all views to all exporters under a lock", "changing the period replaces the ticker"])
prop("C04", "Meters are isolated and stop cleanly at any moment",
 "What is recorded, registered or exported on one meter never shows in another, even for views, measures, aggregations and exporters they share, and what is read from a meter carries the resource last set on it. Stopping a meter, from several goroutines and at any moment while it is used (but not from inside its own exporters), returns, ends its background work, exports nothing afterwards and removes it from the global metric producers for good; calls on it during and after that return without panicking, hanging or taking effect.",
 [S, H, F], "all interleavings of start, stop and any other meter operation on several meters, with stalled workers and slow exporters",
 "The tests stop an idle meter; a stop that meets operations under way needs particular schedules.",
 ["stats/view/worker.go", "stats/view/worker_commands.go", "metric/metricproducer/manager.go"],
 ["quit and done channels end the worker's loop", "the worker adds itself to and removes itself from the global producer manager"])
prop("C05", "Gauge and cumulative entries are linearizable and never lose updates",
 "Adds, sets and increments on gauge and cumulative entries from any number of goroutines are never lost, cumulatives never decrease, and each registry read returns every metric and entry that certainly exists then, once each, with a value the entry had during the read (negative totals read as zero), labelled with exactly the values given for it and in the declared type, with the time it was added as start time for cumulatives. Asking for an entry with the same label values always gives the same entry, different values give different ones, a wrong number of values or a name conflict of another kind is refused, derived metrics report what the functions put in last return, and what a read returned never changes.",
 [S, H, I], "all interleavings of entry creation, update, replacement and reading; all label values including absent and long ones, with and without constant labels",
 "Tests update from one goroutine; lost updates and entries missing from a concurrent read are scheduling facts, and label collisions are input facts.",
 ["metric/common.go", "metric/gauge.go", "metric/cumulative.go", "metric/registry.go"],
 ["entries live in a concurrent map keyed by a signature of their label values", "updates are compare-and-swap loops on the value's bits"])
prop("C06", "Interval readers export all producers on time until stopped",
 "A started reader exports, every reporting interval, however slow its exporter is, the current metrics of exactly the producers registered then, to its exporter, never concurrently with itself, and a producer added before or removed before a read began is included or not accordingly, once however often it was added. Flushing exports once if the reader is stopped and does nothing otherwise, stopping waits for the last export, after which nothing is exported, starting a running reader or with too short an interval is refused, and starting, stopping and flushing in any order, repeatedly and from several goroutines (but not from inside its own exporter) neither hang nor panic nor leave a goroutine behind.",
 [S, H, F, C], "all interleavings of producer registration, reading, reader start, stop and flush, with slow exporters and stalled goroutines",
 "Tests start and stop one reader with long real-time sleeps; the orderings of stop, tick and flush need a controlled clock and scheduler.",
 ["metric/metricexport/reader.go", "metric/metricproducer/manager.go"],
 ["a ticker goroutine reads all producers and exports", "stop closes a channel and waits for the goroutine"])
prop("C07", "Runtime metrics follow the options in force and one snapshot",
 "After runtime metrics were enabled with some options, every read of the global producers reports exactly the metrics those options ask for, once, under the configured prefix, with values all taken from one and the same snapshot of the runtime made during that read. Enabling again replaces the previous options, disabling removes the metrics, and both do so however they interleave with each other and with reads; only a read during a call that enables again may find no runtime metrics at all.",
 [S, H, C], "all interleavings of enable, disable and read from several goroutines; all option combinations",
 "Tests enable, read and disable in sequence; replacing the producer while it is read, and reads sharing its buffers, depend on schedules.",
 ["plugin/runmetrics/producer.go"],
 ["one global producer guarded by a mutex", "gauges derived from a memory statistics buffer refreshed at each read"])
prop("C08", "A sampled span is exported exactly once, complete, to every exporter",
 "Every sampled span that ends is handed to every exporter registered throughout its ending exactly once, however many goroutines end it and whatever else happens to it, and a span that is not sampled or has not ended is handed to none. What is exported has the span's identity, parent, kind, name, timing and status and exactly the attributes (last value per key), annotations, message events and links put on it before it ended, in order, and never changes afterwards; nothing an application does to a span that is ended, not recording or nil has any effect or panics.",
 [S, H, I], "all interleavings of span operations on shared spans from any number of goroutines with exporter registration",
 "Tests use one goroutine per span and one exporter; racing ends, late operations and exporters changing during an end are schedules.",
 ["trace/trace.go", "trace/export.go", "trace/basetypes.go", "trace/spanbucket.go"],
 ["ending runs once and reads the exporters from an atomic map copied on change", "a span's data is copied under its lock when it ends"])
prop("C09", "Span contents stay within the limits and drops are counted",
 "A span never holds more attributes, annotations, message events or links than the limits in force when it started, keeps the most recent ones (for attributes: the most recently set keys), in order, and reports for each kind exactly how many it dropped. This holds for every sequence of additions from any number of goroutines, and looking at a running span does not change what it will keep.",
 [S, H, I, C], "all sequences and interleavings of additions, all limits, all changes of configuration, with and without observation of the running span",
 "Tests add a few items over one limit; eviction order under repeated keys, concurrent additions and observation is a property of histories.",
 ["trace/trace.go", "trace/evictedqueue.go", "trace/lrumap.go", "trace/config.go"],
 ["bounded queues that evict the oldest and count it", "a least-recently-used map for attributes"])
prop("C10", "Sampling, parentage and identifiers follow the trace's rules",
 "A root span gets a new trace identifier, a child its parent's, every span a fresh non-zero span identifier never used before in the process, and a span started from a context is the child of the span in that context, local or remote. A local child is sampled as its parent unless its own sampler decides, a span with a remote parent or none by its sampler or else the sampler in force (a probability sampler decides alike for a whole trace and samples its fraction of traces), the sampler sees the true parent, name and identifiers, a trace-state is inherited unchanged, and reconfiguring concurrently is atomic: a span is subject to one configuration that was in force, never a mixture or a lost update of disjoint settings.",
 [S, H, I, C], "all interleavings of starting spans in trees across goroutines with configuration changes; all sampler, parent and option combinations",
 "Tests start a handful of spans one after another; uniqueness, and configuration atomicity, hold over all schedules and histories.",
 ["trace/trace.go", "trace/config.go", "trace/sampling.go"],
 ["configuration is an atomically replaced immutable value", "identifiers come from a seeded generator under a lock"])
prop("C11", "Durations and intervals survive clock jumps",
 "However the wall clock is stepped while something is being timed, no reported duration or end time is off: a span's end minus its start, the latencies recorded for HTTP and RPC calls, and the order of start and end equal the time that really passed, and aggregation and export intervals do not stretch, shrink or stop.",
 [F, S, H], "all sequences of wall-clock steps, forwards and backwards, at any point of any operation",
 "No test controls the clock; a step at the wrong moment is a fault sequence.",
 ["trace/trace.go", "trace/basetypes.go", "plugin/ochttp/client_stats.go", "plugin/ochttp/server.go", "plugin/ocgrpc/stats_common.go", "stats/view/worker.go"],
 ["times are taken with a monotonic reading and ends are computed from it"])
prop("C12", "The local span store shows active, slow and failed spans truthfully",
 "Per span name, the store reports as active exactly the started and not yet ended recording spans it was told to keep, and for ended ones keeps per latency range and per status code up to the configured number of most recent ended samples (taking at most one sample per second into each bucket), each in the bucket of its true latency or code and never in both. Summaries and samples are consistent under concurrent starts, ends, reconfiguration and queries, and querying never changes what spans export.",
 [S, H, C], "all interleavings of span starts, ends, queries and bucket configuration; all latencies, codes and sizes",
 "The tests store a few spans sequentially; eviction order, resizing with wrap-around, and concurrent queries are histories.",
 ["trace/spanstore.go", "trace/spanbucket.go", "trace/trace.go"],
 ["a per-name store of ring buffers, one per latency range and error code"])
prop("C13", "Each outgoing HTTP call gives one span and one set of stats",
 "Every HTTP request made through an instrumented client gives the caller exactly the response or error and body bytes it would get without instrumentation (health checks configured as such pass through untraced), and exactly one count when it starts, one ended client span and one record of each completion measure: at the error, or when the body was read to its end or closed, whichever is first, however often and from whichever goroutines these happen. The span has the request's method, host, path, URL and status, is started with the options set for that request and, where configured, annotated with the transport's events; the measures have the request size as announced, the response size as read (as announced if nothing was read), the status (\"error\" if the transport failed), the latency, and the tags that the caller's context and the request's host, path and method determine.",
 [S, H, I, F], "all interleavings of concurrent requests, body reads and closes, over networks and servers that fail, truncate, stall and delay at any point",
 "The tests make successful calls one by one; early closes, mid-body failures, cancellations and racing closes are fault sequences and schedules.",
 ["plugin/ochttp/client.go", "plugin/ochttp/trace.go", "plugin/ochttp/client_stats.go", "plugin/ochttp/wrapped_body.go"],
 ["round trippers wrap the request and the response body", "completion runs once, at end of body, error or close"])
prop("C14", "Each incoming HTTP request gives one span and one set of stats",
 "Every request served by an instrumented handler gets from it exactly what the wrapped handler writes, and gives exactly one count when it starts, one ended server span and one record of each other measure, also when the handler panics, hijacks, flushes, writes nothing, or the client goes away. Span and measures carry the true method, host, path, status (the first one sent, 200 if none was), route, response size and the request size as announced, and the latency from start to the end of the handler, and each span is started with the options set for its request; configured health checks are handled untraced.",
 [S, H, I, F], "all interleavings of concurrent requests with handlers that write in any pattern, fail, stall or panic, and clients that disconnect",
 "The tests serve simple handlers sequentially; panics, disconnects, concurrent requests sharing a handler and unusual writer uses are histories and faults.",
 ["plugin/ochttp/server.go", "plugin/ochttp/route.go", "plugin/ochttp/wrapped_body.go"],
 ["a tracking response writer counts bytes and records once at the end"])
prop("C15", "A trace continues across HTTP hops whatever the network does",
 "When an instrumented client calls an instrumented server, every server span belongs to the client span that caused it: same trace, parent, trace-state (where the format carries it, up to 512 bytes) and, with a sampler that honours the parent, sampling decision, for each propagation format, however requests are retried, duplicated, delayed, reordered and interleaved. At a public endpoint the server starts a new trace linked to the caller's, and a missing or damaged header starts a new trace and never fails the request.",
 [S, H, F, I], "all formats, all interleavings of concurrent multi-hop requests, all damaged or missing headers",
 "Tests check each format's parser and one hop; cross-request mix-ups and damaged headers on the way are schedules and faults.",
 ["plugin/ochttp/trace.go", "plugin/ochttp/server.go", "plugin/ochttp/propagation/b3/b3.go", "plugin/ochttp/propagation/tracecontext/propagation.go", "exporter/stackdriver/propagation/http.go"],
 ["the client transport writes the span context into headers, the server handler reads it"])
prop("C16", "Each RPC is counted exactly once with its true totals",
 "Every RPC through the client or server handler is recorded exactly once as started and once as completed on each side that sees it end, whatever order its messages come in, with the number of messages and (uncompressed) bytes that really went each way, its status, method and latency, under the keys of its side and with the tags of its context. Its span is ended once, with the RPC's status and one event per message, in order, and RPCs running at the same time never mix.",
 [S, H, I, F], "all interleavings of the events of concurrent RPCs, unary and streaming, with every outcome, failures before and after the start, and messages from several goroutines",
 "Tests feed hand-made event sequences of one RPC; concurrent send and receive within an RPC and across RPCs depends on schedules.",
 ["plugin/ocgrpc/stats_common.go", "plugin/ocgrpc/client_stats_handler.go", "plugin/ocgrpc/server_stats_handler.go", "plugin/ocgrpc/trace_common.go"],
 ["per-RPC data in the context with atomic counters, recorded when the RPC ends"])
prop("C17", "Traces and tags cross RPC hops whatever the network does",
 "When an instrumented client calls an instrumented server over gRPC, the server's span continues the client's trace with the call's own client span as parent and, with a sampler that honours it, its sampling decision, and the tags in the caller's context that are allowed to propagate, and no others, are in the server's context with their values, also if the caller forwards metadata it was itself called with. Damaged, truncated, missing or foreign metadata never fails the call or mixes with another's: it only starts a new trace or drops the tags, and a public server endpoint starts a new trace linked to the caller's.",
 [S, H, F, I], "all interleavings of concurrent multi-hop RPCs, all damage to metadata, all tag sets and propagation modes",
 "Tests check one intact hop; corrupted metadata and concurrent calls sharing contexts are faults and schedules.",
 ["plugin/ocgrpc/trace_common.go", "plugin/ocgrpc/client_stats_handler.go", "plugin/ocgrpc/server_stats_handler.go", "tag/map_codec.go", "trace/propagation/propagation.go"],
 ["span context and tags travel as binary metadata"])
prop("C18", "Tag contexts are immutable and isolated across goroutines",
 "Deriving a context with new tags applies its changes in order and in full, or fails with an error and changes nothing, and no derivation ever changes what any other context holds, whatever other goroutines derive from the same parent or siblings at the same time. Running code under profiler labels (tag.Do) adds one label per tag of the context, if it has any, to those the context has, and the goroutine has its context's labels again afterwards, also after a panic. Measurements recorded with a context use its tags, with the mutators given for that recording applied in full or nothing recorded.",
 [S, H, I], "all trees of derivations over any number of goroutines with all sequences of insert, update, upsert and delete, valid and invalid",
 "Tests derive one context from another in sequence; aliasing between siblings shows only in histories of shared use.",
 ["tag/map.go", "tag/context.go", "tag/profile_19.go", "tag/metadata.go", "stats/record.go"],
 ["a derived tag map is a copy of its parent's with mutators applied"])
prop("C19", "The library is free of data races",
 "Any use of the library from several goroutines that its documentation allows - recording, tracing, registering, exporting, configuring, reading, instrumented HTTP and gRPC - makes no two unsynchronised conflicting accesses to memory in the library's code.",
 [S, H], "all schedules of all the histories the other properties' workloads generate",
 "The test suite runs few goroutines, without the race detector deciding schedules; whether a race manifests depends on the interleaving.",
 ["stats/view/worker.go", "trace/trace.go", "metric/common.go", "metric/metricexport/reader.go", "plugin/ochttp/trace.go", "plugin/ocgrpc/stats_common.go", "plugin/runmetrics/producer.go"],
 ["locks, atomics, channels and copy-on-write throughout"])
prop("C20", "Diagnostic pages render the truth while everything is running",
 "At every moment the pages answer completely and without error, as HTML and as text, and what they show is what happened: per span name the number of running spans, of sampled ones by latency and of failed ones, each number linking to as many spans with their true times, attributes, annotations and message events, and per RPC method and direction (once the activity was exported) the total calls, errors, rates of calls and bytes in the unit shown, and average latency. No method or span that never occurred appears, counts never go back, and a slow, stalled, failing or panicking reader of a page delays and disturbs nothing else.",
 [S, H, F], "all interleavings of page requests with tracing, RPC activity and export ticks",
 "Tests render pages of an idle process; rendering while exports and spans are in flight is a matter of schedules.",
 ["zpages/rpcz.go", "zpages/tracez.go", "zpages/zpages.go", "trace/spanstore.go"],
 ["an exporter keeps per-method snapshots under a lock", "span pages query the local span store"])

prop("C21", "Spans show as tasks in the execution tracer",
 "While the Go execution tracer runs, every span started, sampled or not, opens exactly one task of its name, whose parent is the task of the context the span is started in and which the returned context carries. The task ends exactly once, at the span's first End, however often and by however many goroutines the span is ended. Spans started while the tracer does not run open no task.",
 [S, H], "all interleavings of starting and ending spans with switching the execution tracer on and off",
 "No test runs the execution tracer; repeated and concurrent ends are a matter of schedules.",
 ["trace/trace.go", "trace/trace_go11.go"], ["a task is made with the span and its end function kept in it"])
prop("C22", "Resource detection merges what the detectors and the environment say",
 "A chain of detectors calls them in order with the caller's context and merges what they find: the first type and, per key, the first value win, nil counts as nothing found, and the first failure stops the chain and is returned without a resource; nested, shared, slow and concurrent chains do not affect each other, and neither detectors' resources nor results ever change afterwards. The environment is detected as it is at the time, labels encoded by the library or written by hand as the format says give exactly those labels, and malformed ones give an error, never a panic.",
 [S, F, I], "all chains of detectors, environments, failures and interleavings of detections",
 "Tests run single detections with a few labels.",
 ["resource/resource.go"], ["detectors called in turn and merged", "regular-expression parser over an environment variable"])

prop("N01", "Tag encoding round-trips and rejects malformed input",
 "Decoding what encoding produced gives back the same tags, and decoding arbitrary bytes returns an error or tags, never panics or reads out of bounds.",
 [I], "all byte strings and all tag maps", "Example-based tests sample few byte strings.",
 ["tag/map_codec.go"], ["varint-prefixed key and value encoding"], claimed=False,
 na="a pure function of its input: no schedule, clock, I/O or fault to simulate (its use on damaged RPC metadata is part of C17)")
prop("N02", "Trace context parsers accept exactly the valid headers",
 "Each propagation format's parser accepts exactly the encodings its specification allows and returns the context they denote; other inputs are refused without panicking.",
 [I], "all strings", "Table tests sample strings.",
 ["plugin/ochttp/propagation/b3/b3.go", "plugin/ochttp/propagation/tracecontext/propagation.go", "exporter/stackdriver/propagation/http.go", "trace/propagation/propagation.go"], ["hand-written parsers"], claimed=False,
 na="pure functions of a string: nothing nondeterministic to put behind a seam (their behaviour in the running system, with headers damaged on the way, is part of C15 and C17)")
prop("N03", "Trace-states hold only valid, unique entries within the size limit",
 "A trace-state can be built only from valid, distinct keys and values within the limit, and adding entries replaces equal keys and puts new ones first.",
 [I], "all entry lists", "Table tests sample entries.",
 ["trace/tracestate/tracestate.go"], ["validation on construction"], claimed=False,
 na="a pure constructor without time, concurrency or I/O")
prop("N05", "Sanitised names are valid and stable",
 "Sanitising any string yields a non-empty string of allowed characters within the length limit, and sanitising it again changes nothing.",
 [I], "all strings", "Table tests sample strings.",
 ["internal/sanitize.go"], ["character mapping"], claimed=False,
 na="a pure function of a string")

LEVEL = {}
NOTE = ("Seeded search over simulated executions of the real library code in one process: schedules, map orders, timers, stalls, clock and the faults named in the evidence. "
        "A clean run is evidence over the runs counted, not proof. Trusts: the simulator and its shims of sync, atomic, time, rand and channels, the source rewriter, and the oracle. ")
have = set(a for a in os.environ.get("CLAIM", "").split() if a) or None
if have is None:
    src = open(os.path.join(here, "tools", "claimed")).read().split()
    have = set(src)
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d, claimed, note, why in P:
    id = d["id"]
    if not claimed:
        na.append({"property": id, "reason": why}); continue
    if id not in have:
        na.append({"property": id, "reason": "not yet claimed: its workload and oracle are still being built"}); continue
    tech = "deterministic simulation: seeded schedules and faults, " + ("happens-before race detection over every simulated run" if id == "C19" else "history and invariant oracles")
    checks.append({"property": id, "quick_cmd": f"bin/check.sh {id}", "thorough_cmd": f"bin/check.sh {id}",
        "evidence_file": f"evidence/{id}.json", "technique": tech, "level": "exploration", "level_note": NOTE + (note or "")})
m = {"version": 1, "setup_cmd": "bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are put in by a source rewriter (rewrite/) that the build runs over a copy of the working tree, so the shipped code is unchanged. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
for d, *_ in P:
    assert len(d["title"]) <= 80, d["title"]
