"""Writes /verif/properties.jsonl.  Edit here, then run: python3 tools/gen_properties.py"""
import json, os
SDK = "opentelemetry-sdk/src/opentelemetry/sdk/"
API = "opentelemetry-api/src/opentelemetry/"
EXP = "exporter/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


TE = SDK + "trace/export/__init__.py"
LE = SDK + "_logs/_internal/export/__init__.py"
TR = SDK + "trace/__init__.py"
LG = SDK + "_logs/_internal/__init__.py"
ME = SDK + "metrics/_internal/"

p("C01", "Batch processors export every accepted record once, in order, in bounds",
  "A sampled span that ends, or a log record that is emitted, while its batch processor is not shut down is passed to the exporter in exactly one export call, in hand-over order, provided that never more than max_queue_size records wait at once; when more wait, only the oldest waiting records are lost and only as many as exceed the queue size. "
  "Export calls of one batch processor never overlap, carry between 1 and max_export_batch_size records, and carry nothing that was not handed over; a span that is not sampled is never exported.",
  ["schedules", "fault_sequences", "configurations"],
  "all interleavings of producer threads with the worker, flushes and shutdown; all queue/batch/delay settings; exporters that succeed, fail, raise or stall",
  "The tests drive one or two producers with real sleeps and a fixed configuration; the orderings of append, notify, wait, pop and flush that lose or repeat a record are chosen by the OS and almost never occur there.",
  [TE, LE],
  [("bounded deque with one consumer thread", TE + " BatchSpanProcessor.on_end/_export_batch"),
   ("bounded deque with one consumer thread", LE + " BatchLogRecordProcessor.emit/_export_batch")],
  ["calls of SpanExporter.export / LogExporter.export"],
  [("queue", "records waiting to be exported", TE), ("_queue", "records waiting to be exported", LE)])

p("C02", "force_flush on a batch processor returns True only when all is exported",
  "When force_flush of a batch span or log processor that is not shut down returns True, every record handed over before the call was passed to the exporter and that export call has returned (records lost to queue overflow excepted). "
  "It returns within its timeout (the given one, else the configured export timeout) and returns False if the timeout passes first; when the exporter keeps returning it returns True. Concurrent force_flush calls, each with producers running, all obey this.",
  ["schedules", "fault_sequences"],
  "all interleavings of flushers, producers, worker wake-ups and shutdown; stalled, slow and failing exporters; all timeouts",
  "Tests call force_flush once on an idle processor or with one stalled exporter; the flush request hand-over between caller and worker is only exercised in one order.",
  [TE, LE],
  [("flush request picked up by the worker", TE + " _get_and_unset_flush_request/_notify_flush_request_finished"),
   ("flush request picked up by the worker", LE + " _get_and_unset_flush_request/_notify_flush_request_finished")],
  ["return value of force_flush", "export calls"],
  [("_flush_request", "the flush the worker has not seen yet", TE)])

p("C03", "Shutdown of batch processors drains, stops the exporter last, and is final",
  "shutdown() of a batch span or log processor, called directly, through its provider, or by the provider's interpreter-exit handler, returns once every record handed over before it was passed to the exporter in a finished export call (queue overflow excepted), and then shuts the exporter down. "
  "No export call starts after the exporter's shutdown begins, records handed over after shutdown returned are never exported and raise nothing, and shutdown never deadlocks as long as the exporter's calls return, also while other threads produce, flush or shut down.",
  ["schedules", "crash_points", "fault_sequences"],
  "shutdown or interpreter exit at every instant of a running workload, racing producers, flushers, a second shutdown and exports in progress that stall or raise",
  "Tests shut down an idle processor; racing shutdown against an export in progress, a pending flush or a sleeping worker needs control of the schedule.",
  [TE, LE, TR, LG],
  [("done flag, notify, join, drain", TE + " BatchSpanProcessor.shutdown/worker"),
   ("done flag, notify, join, drain", LE + " BatchLogRecordProcessor.shutdown/worker"),
   ("atexit handler", TR + " TracerProvider.__init__"), ("atexit handler", LG + " LoggerProvider.__init__")],
  ["export and shutdown calls on the exporter"])

p("C04", "Batch processors keep exporting on schedule whatever exporter and clock do",
  "With the exporter idle, a record handed to a batch span or log processor is passed to the exporter within the configured schedule delay, and as soon as max_export_batch_size records wait an export starts without waiting for the delay. "
  "After an export call that raises, fails or is slow, and across jumps of the system wall clock in either direction, the processor keeps exporting under the same bounds (counted from the end of the slow call), and no exporter exception reaches application code.",
  ["schedules", "fault_sequences", "histories"],
  "all arrival patterns, exporter faults and stalls, wall-clock jumps at any instant",
  "Tests use real time with short delays and a well-behaved exporter; nothing moves the wall clock or raises repeatedly in the middle of long runs.",
  [TE, LE],
  [("timed wait with duration correction", TE + " BatchSpanProcessor.worker"),
   ("timed wait with duration correction", LE + " BatchLogRecordProcessor.worker")],
  ["times of export calls"])

p("C05", "After fork, batch processors and periodic readers work and nothing is doubled",
  "After os.fork() at any instant of a process running batch span/log processors, every record handed over in the child is exported by the child exactly once (in order, flush and shutdown working), and no record that was waiting in the parent at the fork is exported by the child; the parent still exports all of its own. "
  "A periodic metric reader keeps exporting periodically in the child, provided no thread was inside a collection or a recording at the instant of the fork.",
  ["schedules", "crash_points"],
  "fork at every instant of the parent's worker, flushers and producers",
  "The tests fork an idle process once; forks while the worker or a flusher holds a lock or an export is in progress are not reached.",
  [TE, LE, ME + "export/__init__.py"],
  [("at-fork reinitialisation", TE + " BatchSpanProcessor._at_fork_reinit"),
   ("at-fork reinitialisation", LE + " BatchLogRecordProcessor._at_fork_reinit"),
   ("at-fork reinitialisation", ME + "export/__init__.py PeriodicExportingMetricReader._at_fork_reinit")],
  ["export calls in parent and child"])

p("C06", "A span shared by threads ends once, keeps every write and is frozen after end",
  "When threads share one recording span, every attribute, event, link, status or name written by a call that returned before any end() call began is in the exported span unless a later write replaced it or a configured limit evicted it, counts kept plus reported dropped equal those written, and limits are never exceeded; among racing end() calls exactly one notifies the processors, once. "
  "No write that began after an end() returned changes the exported span, a status OK is never replaced, a reader of a live span finds every attribute already set and not evicted and never sees a limit exceeded, and the end time is never changed. "
  "Limits configured by argument or environment apply with the documented precedence to the span, its events and its links, including the length of string values; nothing a caller later does to an object it passed (attributes, sequences, links given to several spans) changes a span.",
  ["schedules", "configurations"],
  "all interleavings of writers, readers and end() on one span, for all span limits and every way to configure them",
  "Unit tests write to spans from one thread; losing an update, ending twice or mutating after end needs a preemption inside a few instructions.",
  [TR, API + "attributes/__init__.py", SDK + "util/__init__.py"],
  [("span lock", TR + " Span"), ("locked bounded attributes", API + "attributes/__init__.py BoundedAttributes"),
   ("locked bounded list", SDK + "util/__init__.py BoundedList")],
  ["span passed to SpanProcessor.on_end", "ReadableSpan properties"])

p("C07", "Fan-out to several processors delivers once each and flush results are honest",
  "With several span processors (synchronous or concurrent fan-out) or log processors (likewise) on one provider, every processor registered before a span starts or a record is emitted receives its start, end or emit exactly once, before the triggering call returns, also while other threads produce or register processors; processors registered meanwhile miss none that start later; spans that are recorded but not sampled are delivered, dropped ones are not, and with the concurrent fan-out a processor that raises keeps nothing from the others. "
  "force_flush is True only when every processor registered before it was asked and reported success, is False only when one reported failure or the timeout was used up, gives each no more than the time left whatever the wall clock does, and the concurrent fan-out returns within the timeout even when a processor hangs; each shutdown call reaches every processor once.",
  ["schedules", "fault_sequences"],
  "all interleavings of producers, registration, flush and shutdown; processors that are slow, stalled or report failure; wall-clock jumps",
  "Tests use mocks called from one thread; the concurrent variants and the deadline arithmetic under delay are only sampled with real sleeps.",
  [TR, LG],
  [("copy-on-write processor tuple", TR + " SynchronousMultiSpanProcessor.add_span_processor"),
   ("thread-pool fan-out", TR + " ConcurrentMultiSpanProcessor._submit_and_await"),
   ("log processors", LG + " SynchronousMultiLogRecordProcessor/ConcurrentMultiLogRecordProcessor")],
  ["calls on the registered processors", "return value of force_flush"])

p("C08", "Metrics conserve every recorded measurement across threads and readers",
  "For every synchronous counter, up-down counter, histogram (explicit or exponential buckets) and gauge, and for every reader independently, each measurement recorded by any thread is reported exactly once, under the attributes it was given, lists included (the caller may reuse or change its mapping afterwards): delta points sum to, and the latest cumulative point equals, the exact total of all measurements; histogram count, sum, min, max and bucket counts agree with the recorded values and each other. "
  "A measurement whose recording returned before a collection began is in that collection, one that began after it ended is not, and a gauge reports the last value recorded.",
  ["schedules", "histories", "configurations"],
  "all interleavings of recording threads, concurrent collections by several readers, instrument creation and view changes of aggregation, both temporalities",
  "The concurrency tests hammer one counter with real threads and one reader; lost updates between aggregate and collect, or between readers, depend on the schedule.",
  [ME + "aggregation.py", ME + "_view_instrument_match.py", ME + "metric_reader_storage.py", ME + "measurement_consumer.py", ME + "instrument.py"],
  [("aggregation lock", ME + "aggregation.py"), ("attribute-set map lock", ME + "_view_instrument_match.py"),
   ("instrument storage lock", ME + "metric_reader_storage.py"), ("measurement consumer lock", ME + "measurement_consumer.py")],
  ["MetricsData delivered to readers"])

p("C09", "Metric points carry a gapless, ordered time line",
  "Unless the wall clock steps back: for one reader and attribute set, every point ends at or after it starts and collection times never decrease; delta points of one stream tile time: each starts where an earlier collection of the reader ended, normally the one that reported the previous point, else one that had nothing to report; cumulative points keep one fixed start time; all points of a metric in one collection share one time. "
  "A measurement is reported by a point whose interval contains the instant it was recorded (up to the duration of the collection), and collections of one reader do not disturb the time line of another.",
  ["schedules", "histories", "configurations"],
  "all interleavings of recorders and collectors and all histories of collections with and without new measurements, both temporalities, sync and observable instruments",
  "Tests check two or three sequential collections; the interval book-keeping under concurrent collections and idle cycles is not covered.",
  [ME + "aggregation.py", ME + "_view_instrument_match.py", ME + "metric_reader_storage.py"],
  [("previous collection time", ME + "aggregation.py _SumAggregation.collect"),
   ("start time per aggregation", ME + "aggregation.py")],
  ["start_time_unix_nano/time_unix_nano of exported points"])

p("C10", "Concurrent creation of meters and instruments yields one shared instrument",
  "Threads that concurrently obtain a meter, tracer or logger with the same identity, or create an instrument with the same name, kind, unit and description on one meter, all succeed without an exception and obtain objects that feed one stream: each metric appears once per collection with the sum of what all recorded. "
  "Observable callbacks are called once per registered instrument in each collection, and no instrument whose creation (by every caller that raced to create it) returned before a collection began is missing from it.",
  ["schedules"],
  "all interleavings of concurrent get_meter/get_tracer/get_logger/create_* calls with recording and collecting",
  "Tests create instruments sequentially; the registration race window is a few byte codes wide.",
  [ME + "__init__.py", API + "metrics/_internal/__init__.py", LG, TR, ME + "measurement_consumer.py"],
  [("instrument id registry", API + "metrics/_internal/__init__.py Meter._is_instrument_registered"),
   ("instrument map lock", ME + "__init__.py Meter"), ("meter map lock", ME + "__init__.py MeterProvider.get_meter"),
   ("logger cache lock", LG + " LoggerProvider.get_logger")],
  ["objects returned and MetricsData collected"])

p("C11", "One failing observable callback never costs another instrument its data",
  "In each collection every observable instrument's callbacks are called once per reader, and their observations appear in that collection exactly once: cumulative asynchronous sums report the last observed value, delta ones the difference to the previous collection of that reader, gauges the observed value. "
  "A callback that raises or gives unusable observations loses at most its own observations of that collection: all other callbacks, later collections, and the thread that collects go on unaffected; callbacks may record and create instruments themselves; callbacks of one collection are given the time left of its timeout, and a collection that uses it up fails as a whole, falsifying nothing reported later.",
  ["fault_sequences", "schedules", "histories"],
  "every pattern of raising, slow and empty callbacks over a history of collections by several readers and threads",
  "Tests make one callback raise once; sequences of failures mixed across readers, temporalities and threads are not sampled.",
  [ME + "measurement_consumer.py", ME + "instrument.py", ME + "_view_instrument_match.py", ME + "aggregation.py"],
  [("per-callback exception guard", ME + "instrument.py _Asynchronous.callback"),
   ("collection deadline", ME + "measurement_consumer.py SynchronousMeasurementConsumer.collect")],
  ["MetricsData delivered to readers"])

p("C12", "Periodic metric reader exports on time, survives failures, flushes at shutdown",
  "A periodic exporting metric reader (with a finite interval) collects and exports once per interval until shutdown, for ever, whatever single collections or exports do (callbacks or exporter raising, failing or slow) and whatever the wall clock does; at shutdown it performs one final collection and export containing everything recorded before and not already taken by a collection in progress, then shuts its exporter down within the time left, and no later flush or collection exports anything. "
  "Export calls carry every recorded delta exactly once, never overlap, and no exception of an export reaches code that records or flushes, and periodic exports are given the configured timeout; force_flush returns True only after an export of everything recorded before it and not already taken by a collection in progress, and not if the exporter's own flush reports failure.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of ticker, recorders, flush and shutdown; exporters and callbacks that raise, stall or fail; wall-clock jumps",
  "Tests use real sleeps and mock exporters that fail once with the one exception the ticker expects.",
  [ME + "export/__init__.py", ME + "__init__.py"],
  [("ticker thread", ME + "export/__init__.py PeriodicExportingMetricReader._ticker"),
   ("export lock", ME + "export/__init__.py PeriodicExportingMetricReader._receive_metrics"),
   ("shutdown once", ME + "export/__init__.py PeriodicExportingMetricReader.shutdown")],
  ["MetricExporter.export/shutdown calls"])

p("C13", "An exemplar is one real measurement, never a mixture",
  "Every exemplar in a collected point belongs to one single measurement recorded on that point's instrument and attribute set in the collection cycle it covers: value, time, dropped attributes, trace id and span id all come from that one measurement, and trace and span id are absent when it was recorded outside a span. "
  "Exemplars of a histogram bucket have values in that bucket, no exemplar is reported in two cycles, and a reservoir holds as many exemplars as it was offered sampled measurements in the cycle, up to its size.",
  ["schedules", "histories", "configurations"],
  "all interleavings of recorders and collections, all reservoirs and exemplar filters, histories mixing traced and untraced measurements",
  "Reservoir tests offer measurements from one thread, all with or all without a span.",
  [ME + "exemplar/exemplar_reservoir.py", ME + "aggregation.py", ME + "_view_instrument_match.py"],
  [("exemplar bucket offer/collect", ME + "exemplar/exemplar_reservoir.py ExemplarBucket"),
   ("sampling in aggregate", ME + "aggregation.py _Aggregation._sample_exemplar")],
  ["exemplars of data points"])

p("C14", "A global provider is set once and every earlier proxy ends up on it",
  "Of any set of concurrent and repeated set_tracer_provider/set_meter_provider/set_logger_provider calls exactly one takes effect for the life of the process and every reader sees that one or, before it, a proxy. "
  "Tracers, meters, loggers and instruments obtained from proxies before, during or after the call feed the real provider once it is set: each use after set_*_provider returned is recorded exactly once with the requested scope name, version, schema and instrument identity, and observable callbacks are registered exactly once.",
  ["schedules"],
  "all interleavings of set calls, proxy look-ups, proxy instrument creation and use",
  "Tests reset globals and act sequentially; the upgrade of proxies racing with their creation is not exercised.",
  [API + "trace/__init__.py", API + "metrics/_internal/__init__.py", API + "metrics/_internal/instrument.py", API + "_logs/_internal/__init__.py", API + "util/_once.py"],
  [("Once", API + "util/_once.py"), ("proxy upgrade", API + "metrics/_internal/__init__.py _ProxyMeter.on_set_meter_provider"),
   ("proxy tracer", API + "trace/__init__.py ProxyTracer"), ("proxy logger", API + "_logs/_internal/__init__.py ProxyLogger")],
  ["data received by the SDK provider"])

p("C15", "Context, current span and suppression never leak between threads or tasks",
  "The current span and context values seen by a thread or asyncio task are exactly those attached by itself (or inherited at task creation) and not yet detached, whatever other threads and tasks do; leaving a start_as_current_span block restores the previous context even when the block raises or is cancelled, and the span ends once with the exception recorded. "
  "A span started without explicit context is the child of its own thread's or task's current span with that trace id, and new roots get fresh non-zero ids; suppression set during export is never seen by application code, before or after, in the exporting thread.",
  ["schedules", "fault_sequences"],
  "all interleavings of threads and asyncio tasks entering and leaving nested spans, raising, being cancelled at any await, and exporting; random sources that return zero",
  "Tests run one task or thread at a time, and do not cancel at arbitrary awaits.",
  [API + "context/__init__.py", API + "context/contextvars_context.py", API + "trace/__init__.py", TR, TE, LE, SDK + "trace/id_generator.py"],
  [("contextvars runtime context", API + "context/contextvars_context.py"),
   ("use_span", API + "trace/__init__.py use_span"), ("suppress key attach/detach", TE)],
  ["get_current_span, get_current, parents of exported spans"])

p("C16", "OTLP gRPC exporters deliver or give up exactly as the retry contract says",
  "An OTLP gRPC export call (spans, logs, metrics) sends the same complete payload until the server accepts it and then returns success, retrying only retryable statuses, waiting the server's RetryInfo delay or else the doubling back-off, and returns failure on a non-retryable status or when the back-off is exhausted, within a bounded time and never with an exception. "
  "Shutdown lets a request in flight finish within the shutdown timeout, returns within that timeout, breaks no concurrent export, and later exports send nothing and report failure; concurrent exports each report their own outcome.",
  ["fault_sequences", "schedules"],
  "all sequences of server statuses, delays and retry hints, with concurrent exports and shutdown at any instant",
  "Tests replace sleep and feed one status; sequences of faults and the shutdown/export lock hand-over are not explored.",
  [EXP + "opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py",
   EXP + "opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/metric_exporter/__init__.py",
   EXP + "opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/__init__.py"],
  [("retry loop", EXP + "opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py OTLPExporterMixin._export"),
   ("shutdown with export lock", EXP + "opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py OTLPExporterMixin.shutdown")],
  ["requests received by the (simulated) server", "return value of export"])

p("C17", "OTLP HTTP exporters deliver or give up exactly as the retry contract says",
  "An OTLP HTTP export call (spans, logs, metrics) posts the same complete payload, with the configured headers and compression, until the server answers with success and then reports success; it retries only on 408 and 5xx answers, with doubling back-off, and reports failure, never an exception, on any other answer, on a request that fails without an answer, or when the back-off is exhausted, within a bounded time. "
  "After shutdown() returned nothing more is sent by later export calls and they report failure; concurrent exports each report their own outcome.",
  ["fault_sequences", "schedules"],
  "all sequences of server answers, connection errors and delays, concurrent exports and shutdown at any instant",
  "Tests mock one or two answers with sleep patched out; longer fault sequences, dropped connections and concurrent shutdown are not explored.",
  [EXP + "opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py",
   EXP + "opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py",
   EXP + "opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py"],
  [("retry loop", EXP + "opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py OTLPSpanExporter.export")],
  ["requests received by the (simulated) server", "return value of export"])

p("C18", "Every Prometheus scrape is one complete, duplicate-free snapshot",
  "Each scrape of the Prometheus reader, also when scrapes run concurrently with each other, with recording, and with force_flush, succeeds and returns the current sample of every stream that has data exactly once (a synchronous gauge: once it was set after the previous collection): no sample is missing, repeated or taken from another scrape. "
  "Counter values never decrease from one scrape to the next one that starts after it, and include every measurement recorded before the scrape began.",
  ["schedules", "histories"],
  "all interleavings of concurrent scrapes, recorders, flush and shutdown",
  "Tests scrape sequentially.",
  [EXP + "opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py"],
  [("collect on scrape", EXP + "opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py _CustomCollector.collect")],
  ["samples returned by the Prometheus registry"])

p("C19", "Resource detection is bounded and keeps what the working detectors found",
  "Aggregating resources from a list of detectors returns within the given timeout per outstanding detector whatever detectors do (raise, stall, finish in any order), and contains the attributes of every detector that answered in time, a later listed detector winning a conflict over an earlier one, independent of the order in which they finish. "
  "A detector that fails or times out is skipped unless it asks to raise on error. Resource.create applies the detectors in the order OTEL_EXPERIMENTAL_RESOURCE_DETECTORS lists them, then the attributes of OTEL_RESOURCE_ATTRIBUTES, then those given by the caller. OTEL_SERVICE_NAME overrides a service name in OTEL_RESOURCE_ATTRIBUTES, detectors that cannot be loaded are skipped, resources with conflicting schema URLs are not merged, and no argument or input resource is changed.",
  ["schedules", "fault_sequences"],
  "all finishing orders, stalls and exceptions of the detectors",
  "Tests use one failing or one slow mock detector with real sleeps.",
  [SDK + "resources/__init__.py"],
  [("thread pool with result timeout", SDK + "resources/__init__.py get_aggregated_resources")],
  ["returned Resource"])

p("C20", "Provider shutdown reaches every component once, whatever fails or races",
  "Shutting down a tracer, meter or logger provider, by any number of concurrent or repeated calls and also by the exit handler the provider registers, reaches every component registered before even when the shutdown of another component raises (the failure being reported to the caller): each metric reader exactly once, as long as the call's timeout is not used up, and each span or log processor at least once by the time each call returns; at interpreter exit no exit handler fails for another reason and batch processors still export what was recorded before. Afterwards the exporters of batch processors and periodic readers are not called again. "
  "MeterProvider.force_flush reaches every reader within its timeout, reports failure if one fails (raises or returns False) or the time is used up, and meters or instruments used after shutdown raise nothing.",
  ["schedules", "fault_sequences"],
  "all interleavings of shutdown, flush, recording and creation; readers that raise, stall or time out",
  "Tests use mocks and sequential calls.",
  [ME + "__init__.py", TR, LG],
  [("shutdown once", ME + "__init__.py MeterProvider.shutdown"), ("atexit handlers", TR + " TracerProvider")],
  ["calls on readers and processors"])

p("C21", "Logging through the SDK handler yields one correlated record and never hangs",
  "Every standard-library log call at an enabled level, from any thread, yields exactly one emitted OpenTelemetry log record per handler it reaches, during the call, with that call's message (an object no exporter could send as its text), severity, attributes, logger name and the trace and span id of the caller's current span, also when handlers share a logger or threads log concurrently; what exporters and the SDK log themselves while a record is emitted or exported is exempt. "
  "An event emitted through the event API likewise becomes one record, with its name, body, attributes, severity (INFO unless given), time and scope, and the ids and flags it was given or else those of the current span. "
  "Such logging never deadlocks, never recurses without bound and never feeds itself; neither a failing exporter nor a record that cannot be formatted raises into application code; flushing the provider exports what was logged before.",
  ["schedules", "fault_sequences"],
  "all interleavings of logging threads with batch workers, exporters that log, fail or stall, and shutdown",
  "Tests log from one thread with an in-memory exporter that does not log.",
  [LG, LE],
  [("LoggingHandler.emit", LG + " LoggingHandler"), ("suppression while exporting", LE)],
  ["LogRecordProcessor.emit and LogExporter.export calls"])

p("C22", "OpenTracing shim scopes nest and restore per thread and per task",
  "Through the OpenTracing shim, activating a span makes it the active span of the calling thread or asyncio task only, closing scopes in nesting order restores exactly the previously active span, and a scope finishes its span exactly once on close if and only if asked to, also when the block raises. "
  "Spans started through the shim are children of the explicit parent (child_of or a reference) or else, unless told to ignore it, of the active span of their own thread or task, and shim and OpenTelemetry API always agree on what is active; names, tags, logs, exceptions and start and finish times written through the shim, also by several threads at once, are on the exported span, and no baggage item set on a span is lost. A span context injected into a text carrier comes out of it as it went in, an empty carrier stands for no span, and neither touches the current context.",
  ["schedules", "fault_sequences"],
  "all interleavings of threads and tasks opening and closing nested scopes, raising and being cancelled",
  "Tests open scopes in one thread.",
  ["shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py"],
  [("scope manager over use_span", "shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py ScopeManagerShim")],
  ["tracer.active_span, trace.get_current_span, exported spans"])

p("C23", "In-memory exporters and readers lose and repeat nothing under concurrency",
  "Every span or log record exported to an in-memory exporter before a read is in that read exactly once, in export order, until a clear that returned before it; after its shutdown exports report failure and store nothing. "
  "Every get_metrics_data of an in-memory metric reader with delta temporality, concurrent with recording and other reads, delivers each measurement exactly once over all reads.",
  ["schedules"],
  "all interleavings of exports, reads, clears, collections and shutdown",
  "Tests use them from one thread.",
  [SDK + "trace/export/in_memory_span_exporter.py", SDK + "_logs/_internal/export/in_memory_log_exporter.py", ME + "export/__init__.py"],
  [("exporter lock", SDK + "trace/export/in_memory_span_exporter.py"), ("reader lock", ME + "export/__init__.py InMemoryMetricReader")],
  ["get_finished_spans, get_finished_logs, get_metrics_data"])

p("C24", "Simple processors export before returning and shield the application",
  "With a simple span or log processor, each sampled span or log record is passed to the exporter exactly once, by the thread that ended or emitted it, before that call returns; unsampled spans never (log records that an exporter itself logs through a LoggingHandler while exporting are exempt). "
  "An exporter that raises affects neither the caller, nor other threads, nor later records; while the exporter runs instrumentation is suppressed in that thread only, and the caller's context is unchanged afterwards.",
  ["schedules", "fault_sequences"],
  "all interleavings of producing threads and exporter faults",
  "Tests export from one thread with a mock.",
  [TE, LE],
  [("SimpleSpanProcessor", TE), ("SimpleLogRecordProcessor", LE)],
  ["export calls and context seen by the exporter and the caller"])

p("C25", "Traces and baggage cross lossy networks between services as specified",
  "When services inject with the W3C trace context, baggage, B3 or Jaeger propagators and call each other over a network that loses, duplicates, delays or corrupts messages, every extraction yields exactly the remote span context and baggage the headers encode (or none for invalid headers, keeping what was there), never raises, and never takes anything from the current context of the thread or task that serves the request; what is injected decodes to the caller's trace and span id, sampled flag, trace state and baggage. "
  "Every recorded span is in the trace of its caller with the calling span as parent; samplers decide by their documented rule (parent-based samplers follow the parent's flag, ratio samplers are a monotone function of the trace id alone), unsampled spans are not exported, and a service without an SDK passes the context of its caller on unchanged.",
  ["schedules", "inputs", "fault_sequences", "configurations"],
  "all message histories (loss, duplication, reordering, corruption), thread and task schedules, propagator and sampler configurations and header values",
  "Tests use one propagator on a few dozen headers and never a call across services.",
  [API + "trace/propagation/tracecontext.py", API + "baggage/propagation/__init__.py", API + "propagators/composite.py", SDK + "trace/sampling.py", API + "trace/__init__.py",
   "propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py", "propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py"],
  [("header parsing", API + "trace/propagation/tracecontext.py"), ("samplers", SDK + "trace/sampling.py"), ("context carried per thread and task", API + "context/__init__.py")],
  ["headers on the wire, extracted contexts, exported spans of every service"])

p("C26", "OTLP delivers to the collector exactly what was recorded, as configured",
  "Spans, log records and metrics exported over OTLP, by gRPC or HTTP, with any compression, batch size and number of resources and instrumentation scopes, and across retries, arrive at the collector with every field as it was recorded, each item once per export under its own resource and scope; a request is repeated only after an answer that allows it, and the export reports success exactly if the collector accepted everything. "
  "Endpoint, security and certificates, headers, timeout, compression, metric temporality and histogram aggregation are those configured by argument or environment variable, an argument taking precedence over the variables and the variable of the signal over the general one.",
  ["schedules", "inputs", "fault_sequences", "configurations"],
  "all recorded values, thread schedules, collector answers and configurations",
  "Tests encode a handful of records and check the configuration of exporters that send nothing.",
  [EXP + "opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/__init__.py", EXP + "opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py",
   EXP + "opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py"],
  [("encoders", EXP + "opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal"),
   ("gRPC exporter", EXP + "opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc"),
   ("HTTP exporters", EXP + "opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http")],
  ["requests decoded by the collector, export results"])

p("C27", "Zipkin exporters send every ended span once and unchanged",
  "With a Zipkin exporter (JSON v1, JSON v2 or protobuf) behind a simple or batch processor, every span ended before shutdown, from any thread, arrives in exactly one request with its ids, parent, kind, times in microseconds, tags (attributes, resource, scope, status, drop counts), annotations and local endpoint, tag values cut only at the configured length and sequences only between elements; no span makes an export raise. "
  "An export reports success exactly if the collector answered 200 or 202, and after shutdown it reports failure and sends nothing; endpoint and timeout are those configured.",
  ["schedules", "inputs", "fault_sequences", "configurations"],
  "all spans, thread schedules, collector answers and configurations",
  "Tests encode fixed spans and mock the HTTP session.",
  [EXP + "opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/__init__.py", EXP + "opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py",
   EXP + "opentelemetry-exporter-zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/__init__.py"],
  [("encoders", EXP + "opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py"), ("export", EXP + "opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/__init__.py")],
  ["requests decoded by the collector, export results"])

p("C28", "Views shape exactly the streams they match, for every reader",
  "For every metric reader, an instrument of any meter feeds exactly one stream per view all of whose criteria it meets (instrument type, name or wildcard in any case, unit, meter name, version and schema URL), or one default stream if there is none. "
  "Each stream has the name, description, attribute keys, aggregation, bucket boundaries and temporality that the view prescribes, else the reader, else the instrument itself (its kind and its advisory boundaries), whichever instrument, thread or reader comes first, and it holds exactly the measurements recorded, filtered to the view's attribute keys; "
  "a dropped stream reports nothing, a view with a histogram aggregation is not applied to asynchronous instruments, and neither recording nor collecting ever raises.",
  ["schedules", "inputs", "configurations"],
  "all sets of instruments, views and readers, all measurements, all thread schedules of recording and collecting",
  "Tests check single views with single instruments in one thread.",
  [ME + "view.py", ME + "metric_reader_storage.py", ME + "_view_instrument_match.py", ME + "aggregation.py"],
  [("View._match", ME + "view.py"), ("_handle_view_instrument_match", ME + "metric_reader_storage.py"), ("_create_aggregation", ME + "aggregation.py")],
  ["every point each reader collected, against a reference model of views"])

p("C29", "The SDK configured from the environment works as the environment says",
  "After the SDK configurator has run, each span, log record and measurement of any thread, also through tracers, meters and loggers obtained earlier, reaches each exporter or reader that OTEL_TRACES/METRICS/LOGS_EXPORTER or the caller names (otlp: of the protocol the signal's, else the general variable says), made once, exactly once (metrics: in the total), and no other, at the latest at flush, shutdown or interpreter exit, which shuts the exporters down. "
  "Sampling (OTEL_TRACES_SAMPLER, _ARG), ids, resource (caller, OTEL_SERVICE_NAME, OTEL_RESOURCE_ATTRIBUTES), batch size and delay (OTEL_BSP_*, OTEL_BLRP_*), metric interval and timeout, exemplar filter, OTEL_SDK_DISABLED, the standard logging handler and the propagators are the configured ones, an argument of the configurator taking precedence; numbers and samplers that make no sense are replaced by the defaults, unknown exporters, protocols, id generators and propagators are refused with an error.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "all environments and configurator arguments, all histories of all signals, thread schedules, slow or failing exporters",
  "Tests set one variable at a time and look at mocks of the components, which never run.",
  [SDK + "_configuration/__init__.py", SDK + "trace/export/__init__.py", SDK + "_logs/_internal/export/__init__.py", SDK + "metrics/_internal/export/__init__.py", SDK + "trace/sampling.py", API + "propagate/__init__.py"],
  [("_initialize_components", SDK + "_configuration/__init__.py"), ("_get_from_env_or_default", SDK + "trace/sampling.py")],
  ["what every exporter receives, when, with which resource", "errors of the configurator"])

p("C30", "Exponential histograms: the covering bucket, at the finest scale that fits",
  "Whatever finite values threads record into an exponential histogram of any maximum size and scale, in any order, with collections of any number of readers of either temporality in between or at the same time, nothing raises and every measurement is counted once, in the bucket that covers it at the scale of the point (up to rounding at a boundary; subnormal values count as the smallest normal one) or as a zero. "
  "Count, sum, minimum and maximum are those of the measurements, no range has more buckets than the maximum size, resolution is given up only as far as the recorded values need (zeros need none), a later cumulative point contains every earlier one, and infinities and NaN are left out.",
  ["schedules", "inputs", "configurations"],
  "all sequences of values, sizes, scales and temporalities, all thread schedules of recording and collecting",
  "Tests record short fixed sequences in one thread, and look at single buckets.",
  [ME + "aggregation.py", ME + "exponential_histogram/buckets.py", ME + "exponential_histogram/mapping/logarithm_mapping.py", ME + "exponential_histogram/mapping/exponent_mapping.py"],
  [("_ExponentialBucketHistogramAggregation", ME + "aggregation.py"), ("Buckets", ME + "exponential_histogram/buckets.py"), ("mappings", ME + "exponential_histogram/mapping")],
  ["every point each reader collected, against a reference model in exact arithmetic"])

OCX = EXP + "opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/"
OCS = "shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/"
p("C31", "OpenCensus code joins OpenTelemetry traces; its exporter loses nothing",
  "Spans made through the OpenCensus tracer with the shim installed and OpenTelemetry spans nest freely: in every thread a span's parent is the innermost open span of either kind, or else the context its OpenCensus tracer was given (ids, sampling, trace state, remoteness), and ending or leaving a span restores the current span of both libraries, without touching baggage. "
  "Each sampled span ends once, as an OpenTelemetry span with the name, attributes, annotations, message events (at their UTC time), status and exceptions it was given until then. "
  "Through the OpenCensus exporter behind a simple or batch processor each ended span is sent once, in one request that decodes to exactly its ids, times, kind, status, attributes, events, links and trace state, from the configured host and service to the configured endpoint; the export reports success exactly if the call ended without an RPC error, and never raises.",
  ["schedules", "inputs", "fault_sequences", "configurations"],
  "all nestings of spans of both libraries, thread schedules, collector answers and time zones",
  "Tests nest three spans in one thread, use one time zone, and mock the client.",
  [OCS + "_shim_tracer.py", OCS + "_shim_span.py", OCS + "_patch.py", OCX + "trace_exporter/__init__.py", OCX + "util.py"],
  [("ShimTracer", OCS + "_shim_tracer.py"), ("ShimSpan", OCS + "_shim_span.py"), ("OpenCensusSpanExporter", OCX + "trace_exporter/__init__.py")],
  ["current span of both libraries, ended spans, requests decoded by the collector, export results"])

p("C32", "Console exporters print every span, log record and metric once, readably",
  "Every span, log record and set of metrics that a console exporter is asked to export (behind simple or batch processors or a periodic reader, from any thread, several exporters sharing a stream) is on its stream exactly once, in order, as one JSON document of its own, written out by the time the export returns. "
  "The document states the name or body, ids, parent, times, kind, status, severity, attributes, events, links, resource, scope and points as they were recorded (log attributes as the limits given or in the environment allow, with the number dropped), for all values the API accepts; no such value makes an export raise. "
  "When the stream fails, at most what that export call was given is lost, nothing is printed twice, the application sees no exception, and later exports print as before. A live span can be printed at any time, with all that was written to it before.",
  ["schedules", "inputs", "fault_sequences"],
  "all values of the recorded fields, thread schedules, batch boundaries and failures of the stream",
  "Tests print one or two fixed items into a string buffer in one thread.",
  [SDK + "trace/export/__init__.py", SDK + "_logs/_internal/export/__init__.py", SDK + "metrics/_internal/export/__init__.py", SDK + "metrics/_internal/point.py", SDK + "trace/__init__.py", SDK + "_logs/_internal/__init__.py"],
  [("ConsoleSpanExporter", SDK + "trace/export/__init__.py"), ("ConsoleLogExporter", SDK + "_logs/_internal/export/__init__.py"), ("ConsoleMetricExporter", SDK + "metrics/_internal/export/__init__.py"), ("to_json", SDK + "trace/__init__.py")],
  ["the text on the stream, decoded, against what was recorded and which export calls succeeded"])

# --- pure functions: not simulation targets -----------------------------------------
p("N05", "Resources merge with the documented precedence",
  "Merging resources keeps every attribute, lets the updating resource win, and resolves schema URLs as specified; environment variables are decoded as documented.",
  ["inputs", "configurations"], "all resources and environments", "Tests sample a few.",
  [SDK + "resources/__init__.py"], [("Resource.merge", SDK + "resources/__init__.py")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
