"""The properties: what properties.jsonl and MANIFEST.json are written from."""

M = "lightstep/sdk/metric/"
SS = M + "internal/syncstate/"
VS = M + "internal/viewstate/"
AS = M + "internal/asyncstate/"

PROPS = [
    dict(
        id="C01", title="Every synchronous measurement is counted exactly once per reader",
        statement="Whatever the interleaving of measurements, instrument creation and collections, every completed measurement of a counter, up-down counter or histogram is included exactly once in what each reader has been given: it is in the first collection that begins after the measurement returned (or earlier), and in no second delta. No collection includes a measurement that was not made, or mixes series, instruments or readers.",
        over=["schedules", "programs"], text="all interleavings of concurrent measurements (both API paths), instrument definitions and collections by several delta and cumulative readers",
        why="the concurrency tests run a few free-running goroutines and compare totals at the end; a lost or doubled update in one narrow window is not reached",
        files=[SS + "sync.go", SS + "bykeyvalue.go", VS + "accumulators.go", VS + "collectors.go", M + "meter.go", M + "producer.go"],
        mech=[("per-series record with update counter and reference count", SS + "sync.go"), ("snapshot, then merge into every reader's output", VS + "accumulators.go")],
        observe=["the metrics data returned by a collection"]),
    dict(
        id="C02", title="Readers are independent and their temporalities agree",
        statement="What a reader is given depends only on the measurements, its own configuration and its own earlier collections: collecting through one reader never changes what another is given. For every synchronous sum or histogram series the deltas given to a reader add up to the cumulative value that a cumulative reader with the same view is given at the same point, a cumulative series never disappears and an unchanged delta series is not reported.",
        over=["histories", "configurations"], text="all sequences of measurements and collections over up to three readers with any mix of temporality and aggregation defaults",
        why="tests collect one or two readers in fixed sequences with one configuration",
        files=[M + "producer.go", VS + "collectors.go", VS + "viewstate.go", AS + "async.go"],
        mech=[("one compiled output per reader", M + "meter.go"), ("stateful and low-memory collectors", VS + "collectors.go")],
        observe=["the metrics data returned by each reader's collections"]),
    dict(
        id="C03", title="Forgetting idle series loses and duplicates nothing",
        statement="A series that is idle for the configured number of collections is forgotten and frees its place under the instrument limit, and (for delta outputs) disappears from memory; a series that is in use is kept. Whether a measurement races with the forgetting, or re-creates the series later, it is still counted exactly once for every reader, and a cumulative value never decreases or loses resolution because of it.",
        over=["schedules", "histories"], text="all interleavings of measurements with the collections that evict the same series, and all sequences of idle and active periods",
        why="the race needs an update between the last check of the reference count and the removal; tests only evict quiescent series",
        files=[SS + "sync.go", SS + "refcount_mapped.go", SS + "bykeyvalue.go", VS + "collectors.go", VS + "accumulators.go", M + "aggregator/histogram/histogram.go"],
        mech=[("mapped bit and reference count", SS + "refcount_mapped.go"), ("final snapshot releases the output entry", VS + "accumulators.go")],
        observe=["the metrics data returned by collections"]),
    dict(
        id="C04", title="Cardinality limits hold and overflow conserves every measurement",
        statement="No collection outputs more series for one output stream than its configured limit, and no synchronous instrument keeps more distinct attribute sets than its own limit, even when many new series race. Measurements beyond a limit are all aggregated in the one series with the overflow attribute, series that already existed keep receiving theirs, and below the limits no overflow series appears; freed places become usable again.",
        over=["schedules", "histories", "configurations"], text="all orders and interleavings of first uses of more series than the limits allow, with eviction in between",
        why="tests fill one limit sequentially once",
        files=[SS + "bykeyvalue.go", VS + "base_instrument.go", M + "internal/pipeline/overflow.go", M + "sdkinstrument/performance.go"],
        mech=[("limit test when a record is inserted", SS + "bykeyvalue.go"), ("limit test when an output entry is created", VS + "base_instrument.go")],
        observe=["the metrics data returned by collections"]),
    dict(
        id="C05", title="Asynchronous observations are reported as last observed",
        statement="A collection outputs, for each asynchronous instrument, exactly the attribute sets observed through its callbacks during that same collection: a gauge or cumulative sum outputs the last value observed for the set, sets made equal by a view are added up for sums, and a delta sum outputs the difference to the value in the previous collection of the reader (the whole value if there was none), omitted when it did not change. Observations of other readers' collections, or that were invalid, never contribute.",
        over=["histories", "inputs"], text="all sequences of collections (one at a time per reader) with arbitrary observations by several callbacks on several instruments, sets and readers",
        why="tests observe one or two constant values",
        files=[AS + "async.go", AS + "callback.go", VS + "accumulators.go", VS + "collectors.go"],
        mech=[("state per collection", AS + "async.go"), ("cumulative-to-delta conversion", VS + "collectors.go")],
        observe=["the metrics data returned by collections"]),
    dict(
        id="C06", title="Callbacks run exactly while they are registered",
        statement="Every collection runs each callback registered for its whole duration exactly once, runs no callback whose unregistration returned before it began, and never runs one twice, however registration and unregistration of any callbacks race with it. Registration is refused without instruments, without a function or with instruments of another meter or SDK, a second unregistration returns an error, an observer is inert once its callback returned and for instruments it was not registered for, and an error a callback returns is reported.",
        over=["schedules", "histories"], text="all interleavings of registrations, unregistrations and collections by several readers",
        why="tests unregister one callback without concurrency",
        files=[M + "meter.go", M + "producer.go", M + "asyncinst.go", AS + "callback.go"],
        mech=[("copy-on-write list under the meter's lock", M + "meter.go"), ("observer invalidated after return", AS + "callback.go")],
        observe=["callback invocations", "errors returned", "the metrics data returned by collections"]),
    dict(
        id="C07", title="Collection intervals tile time",
        statement="All points of one collection end at the same time, which lies within that collection. Delta points of a reader start exactly where that reader's previous collection ended (at the creation of the provider for its first), whether or not the earlier collection had points, and cumulative points always start at the creation of the provider.",
        over=["histories"], text="all sequences of collections by several readers of different temporality",
        why="tests look at one or two collections of one reader",
        files=[M + "producer.go", M + "provider.go", VS + "collectors.go"],
        mech=[("per-reader time of the last collection", M + "producer.go")],
        observe=["start and end times of points"]),
    dict(
        id="C08", title="Gauges report the last value",
        statement="A synchronous gauge reports, per reader and series, the value of a measurement that no other measurement of the series completed before the collection follows in real-time order; concurrent measurements may be ordered either way, but all collections of a reader are consistent with one order. A delta reader reports it only if there was a new measurement, a cumulative one always.",
        over=["schedules", "histories"], text="all interleavings of gauge measurements and collections by several readers",
        why="needs two updates of one series around a snapshot; tests record sequentially",
        files=[M + "aggregator/gauge/gauge.go", VS + "accumulators.go", VS + "collectors.go"],
        mech=[("sequence numbers decide between merged values", M + "aggregator/gauge/gauge.go")],
        observe=["the metrics data returned by collections"]),
    dict(
        id="C09", title="Histogram and min-max-sum-count statistics are exact",
        statement="For every set of measurements, however split into collections, series merges and idle periods, the count, sum, minimum, maximum and zero count are those of the measurements, every non-zero measurement is in the bucket its magnitude and sign demand at the reported scale, bucket counts add up to the count, and the number of buckets does not exceed the configured size. The scale is the finest at which the range of the measurements fits the size.",
        over=["inputs", "histories", "configurations"], text="all sequences of positive, negative and zero measurements, integer and floating point, all sizes, delta and cumulative, filtered and unfiltered",
        why="tests use fixed sequences; rescaling while merging depends on order and on idle periods",
        files=[M + "aggregator/histogram/histogram.go", M + "aggregator/minmaxsumcount/minmaxsumcount.go", VS + "accumulators.go", VS + "collectors.go"],
        mech=[("merge, move and copy of aggregator storage", M + "aggregator/histogram/histogram.go")],
        observe=["aggregations of points"]),
    dict(
        id="C10", title="Invalid measurements and uses have no effect",
        statement="NaN and infinite measurements and observations of any instrument, and negative measurements of synchronous counters and histograms, change no output and create no series; everything valid before and after them is still counted. Measuring with an instrument that every reader drops is harmless.",
        over=["inputs", "histories"], text="all programs mixing valid and invalid measurements, observations and registrations",
        why="tests try single invalid values on an empty instrument",
        files=[M + "aggregator/aggregator.go", SS + "sync.go", AS + "async.go", M + "syncinst.go"],
        mech=[("range test before the series is looked up", SS + "sync.go")],
        observe=["the metrics data returned by collections"]),
    dict(
        id="C11", title="Series are identified by their effective attribute set",
        statement="Two measurements contribute to the same series of an output exactly when their attributes, after truncation to the size limit, the measurement processor, removal of duplicate keys (the last wins), removal of empty keys and the view's key filter, are equal as sets of typed keys and values; order never matters and differing type, nesting or element order always does. The caller's attributes are never modified and may be reused at once, and the output attributes are exactly that effective set.",
        over=["inputs"], text="all attribute lists of scalar and slice values, including hash-colliding ones, through all API paths",
        why="fingerprint collisions and aliasing need particular lists; tests use a few string attributes",
        files=[SS + "bykeyvalue.go", SS + "sync.go", M + "internal/fprint/fprint.go", M + "sdkinstrument/performance.go", VS + "base_instrument.go", AS + "async.go"],
        mech=[("fingerprint with collision list", SS + "bykeyvalue.go"), ("key filter", VS + "base_instrument.go")],
        observe=["attributes of points"]),
    dict(
        id="C12", title="Views and hints produce exactly the configured outputs",
        statement="For every reader, an instrument produces one output per matching view clause that does not drop it, with that clause's name, description, attribute keys, aggregation and limits, and one default output when no clause matches; unset parts come from a valid JSON hint in its description, else from the reader's defaults. An aggregation that does not suit the instrument is replaced by the standard one and reported as a conflict unless it was hinted, and a measurement is counted once in each distinct output.",
        over=["configurations", "inputs"], text="all combinations of clauses, hints, reader defaults and instrument definitions",
        why="the combinations of clauses, hints and defaults are too many; tests sample a few dozen",
        files=[M + "view/clause.go", M + "view/views.go", M + "view/view.go", M + "view/hint.go", M + "view/standard.go", VS + "viewstate.go"],
        mech=[("compilation of clauses into behaviors", VS + "viewstate.go")],
        observe=["names, descriptions, units, kinds, aggregations and points of the output", "conflict errors"]),
    dict(
        id="C13", title="Instrument identity and conflict reporting",
        statement="Within a meter, equal definitions yield the same instrument and definitions that agree in everything but the description share one output, which carries the longest description; everything else that differs (unit, number kind, aggregation, keys, limits, synchronous or not) keeps separate outputs. Creating an instrument returns a conflict error exactly when an output name it uses has several outputs or its aggregation was replaced, meters with equal scope are the same meter, and scopes are output in order of creation.",
        over=["programs", "configurations"], text="all sequences of meter and instrument creations with colliding names across meters and readers, also concurrent ones",
        why="tests check selected pairs of definitions",
        files=[M + "meter.go", M + "provider.go", VS + "viewstate.go", VS + "errors.go"],
        mech=[("lookup by descriptor", M + "meter.go"), ("search for a compatible output", VS + "viewstate.go")],
        observe=["errors returned at creation", "outputs of collections"]),
    dict(
        id="C14", title="Periodic readers export every interval and hand over everything once",
        statement="A periodic reader collects and calls ExportMetrics at every multiple of its interval after registration, coalescing ticks that pass while it is occupied; the context it passes ends after the configured timeout (default: the interval) or when Shutdown begins. ForceFlush and Shutdown collect and call their exporter method with the caller's context and return its error; errors of periodic exports go to the error handler and do not stop later exports. Exporter calls of one reader never overlap and their data stays unchanged during the call. Shutdown stops the periodic exports, then hands over everything not yet exported in exactly one ShutdownMetrics call; after that the exporter is never called again and later calls return ErrAlreadyShutdown.",
        over=["schedules", "timings", "faults"], text="all timings of ticks, flushes and shutdowns against exporters that are slow, fail, or do or do not heed their context",
        why="the tests use real time with mock exporters that return at once, one call at a time",
        files=[M + "periodic.go", M + "provider.go", M + "producer.go"],
        mech=[("lock around collection and export", M + "periodic.go"), ("stop, wait, final collection", M + "periodic.go")],
        observe=["exporter calls: time, context, data", "errors returned and errors handled"]),
    dict(
        id="C15", title="Provider lifecycle: flush and shutdown reach every reader, once",
        statement="MeterProvider.ForceFlush and the first Shutdown call every reader, also when some of them fail, and return all their errors; every further Shutdown, also a concurrent one, returns ErrAlreadyShutdown and calls no reader. After Shutdown began, Meter returns a no-op meter; instruments obtained before stay usable without any effect on shut-down readers, and manual readers can still collect. A reader registered with a second provider keeps its first one and the mistake is reported once.",
        over=["schedules", "faults", "configurations"], text="all interleavings of Meter, ForceFlush, Shutdown and collections over up to two providers that may share readers, with failing and slow exporters",
        why="tests call the lifecycle methods once each, sequentially",
        files=[M + "provider.go", M + "manual.go", M + "periodic.go"],
        mech=[("meters set to nil under the lock by the first Shutdown", M + "provider.go"), ("single registration", M + "manual.go")],
        observe=["calls that readers and exporters receive", "returned and handled errors", "collected data"]),
    dict(
        id="C16", title="Collected data is a stable snapshot",
        statement="Data returned by a collection never changes afterwards, whatever is measured or collected later, unless the caller passes it back for reuse. Passing data back for reuse changes no output: the result is the same as with fresh storage.",
        over=["histories"], text="all sequences of measurements and collections that mix fresh and reused data, with changing sets of instruments and aggregations",
        why="aliasing shows only in particular sequences of reuse and later updates",
        files=[M + "data/data.go", VS + "base_instrument.go", VS + "collectors.go", M + "aggregator/histogram/histogram.go", M + "producer.go"],
        mech=[("copy or move of storage into the output", VS + "base_instrument.go"), ("reset and reallocation of the output", M + "data/data.go")],
        observe=["data returned earlier, re-read later"]),
    dict(
        id="C17", title="OTLP metric export delivers every collected point, unchanged, once",
        statement="For every ExportMetrics, ForceFlushMetrics or ShutdownMetrics call on the OTLP metric exporter that returns nil, the backend has received each point of the given data exactly once, whatever other calls run at the same time, with the resource attributes of that call's data, its scope (name, version and schema URL), metric name, unit and description, OTLP data type, monotonicity, temporality, all attributes with their types and values, start and end time, and exact value (sum, gauge; histogram sum, count, minimum, maximum, zero count, scale and buckets). A failed call delivers no point twice and invents none. Requests carry the configured headers and compression.",
        over=["inputs", "configurations", "schedules", "faults"], text="all metrics data of all aggregations, number kinds and attribute types from several providers with equal or different resources, batch sizes that split it, concurrent calls, failing and slow backends",
        why="tests export two or three fixed metrics from one provider to a healthy receiver",
        files=[M + "internal/export/export.go", M + "exporters/otlp/otelcol/client.go", "lightstep/sdk/internal/common.go"],
        mech=[("conversion of points", M + "internal/export/export.go"), ("cached resource conversion", "lightstep/sdk/internal/common.go")],
        observe=["OTLP requests received by a gRPC backend", "errors returned"]),
    dict(
        id="C18", title="OTLP span export delivers every span, unchanged, once",
        statement="For every ExportSpans call that returns nil, the backend has received each of the given spans exactly once, whatever other calls run at the same time, under its own resource and instrumentation scope, with identifiers, parent, trace state, name, kind, times, status and description, attributes (the last value of a repeated key), events and links in order with their attributes, and dropped counts. A failed call delivers no span twice. Exporting does not modify the spans. Requests carry the configured headers and compression.",
        over=["inputs", "configurations", "schedules", "faults"], text="all batches of spans that mix resources and scopes in any order, with any field values, exported concurrently to healthy, failing and slow backends",
        why="tests export a few spans of a single provider with string attributes",
        files=["lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go", "lightstep/sdk/internal/common.go"],
        mech=[("grouping by resource and scope, conversion", "lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go")],
        observe=["OTLP requests received by a gRPC backend", "the spans after the export"]),
    dict(
        id="C19", title="Exporters report the true outcome of every export",
        statement="An export call fails only when the backend refuses the data or the caller's context ends, and returns nil only when everything was delivered. For every finished call the counter otelsdk.telemetry.items has been increased by the number of its items under success and state (ok, canceled, timeout, error) that agree with the error returned, and one span otelsdk_export_metrics or otelsdk_export_traces with the same state, count and status has ended; nothing is recorded where self metrics or self spans are disabled, and instruments of the embedded collector never appear under their otelcol_ names.",
        over=["faults", "schedules", "configurations"], text="all sequences of concurrent export calls against backends that accept, refuse, stall or are abandoned by the caller",
        why="tests check one successful export",
        files=[M + "internal/export/export.go", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go", M + "exporters/otlp/otelcol/client.go", "lightstep/sdk/internal/common.go"],
        mech=[("classification of the error", M + "internal/export/export.go"), ("renaming meter provider", "lightstep/sdk/internal/common.go")],
        observe=["errors returned", "metrics and spans recorded by the global providers"]),
    dict(
        id="C20", title="Prometheus scrapes show the exported data with truthful buckets",
        statement="After ExportMetrics or ForceFlushMetrics on the Prometheus exporter, a scrape shows every series of the data with its resource and point attributes as labels, counters, gauges and up-down counters with their value, and every histogram with its count, sum and explicit buckets: bounds ascend, start at zero and include the ends of all positive exponential buckets, and the cumulative count at each bound is the number of recorded values not above it, up to the count at +Inf. Each export is counted in the exporter's self-telemetry.",
        over=["inputs", "histories"], text="all cumulative data of all kinds; histograms of positive, negative, zero and extreme values over any range",
        why="the bucket conversion depends on scale and range; tests convert a few positive values",
        files=[M + "exporters/prom/client.go", M + "internal/export/export.go"],
        mech=[("conversion to explicit buckets", M + "internal/export/export.go")],
        observe=["the text of a scrape over HTTP"]),
    dict(
        id="C21", title="The launcher resolves its configuration as documented and refuses invalid ones",
        statement="ConfigureOpentelemetry resolves every setting from its default, the environment variable and the options, in this order of precedence (headers are merged key by key, the access token becomes a header unless one is configured). It refuses, through the configured fatal handler and before anything is started, an environment that cannot be parsed, a missing service name, and a missing access token where a signal goes to the default endpoint; an invalid reporting period, temporality preference or propagator list is reported and only the pipeline concerned does not run. Exactly the pipelines that are enabled and have an endpoint run. The resource of all telemetry is the environment's, overridden by the launcher's identification, service name and version, the non-empty resource attributes of the options and the host name where none was given; maps given by the caller are left unchanged.",
        over=["configurations"], text="all combinations and orders of environment variables and options over small sets of values, valid and invalid",
        why="tests set one or two settings at a time and look at the parsed struct, not at what arrives at a backend",
        files=["launcher/config.go", "pipelines/common.go", "pipelines/trace.go", "pipelines/metrics.go"],
        mech=[("environment, options, validation and resource", "launcher/config.go")],
        observe=["calls of the fatal and error handlers", "resource, headers and destination of the requests received by backends"]),
    dict(
        id="C22", title="Pipelines deliver securely, as configured, and completely by Shutdown",
        statement="Telemetry goes only to the configured endpoint of its signal, in plaintext only when insecure transport was asked for that signal, and otherwise over TLS only to a server whose certificate is trusted; with the configured headers, gzip compression and resource. Counters and histograms are exported with the temporality the preference names for their kind, metrics arrive at the reporting period, and when Shutdown returns every span ended and every measurement made before has been delivered exactly once, whatever was sent by earlier exports.",
        over=["configurations", "histories", "faults"], text="all combinations of endpoints, insecure flags, TLS configurations, certificates and trust, temporality preferences, periods and uses",
        why="tests run against one insecure server and do not look at connections",
        files=["pipelines/trace.go", "pipelines/metrics.go", "pipelines/common.go", "launcher/config.go", M + "exporters/otlp/otelcol/client.go", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go"],
        mech=[("exporter, reader and provider of a signal", "pipelines/metrics.go"), ("transport credentials", "pipelines/common.go")],
        observe=["first bytes of every connection to a backend", "OTLP requests received"]),
    dict(
        id="C23", title="Builtin instrumentation reports what its sources say",
        statement="Host metrics equal the numbers of the operating system with every share of CPU time counted in exactly one state, and are reported completely or not at all with an error; every metric the Go runtime describes is exported once under the documented name, unit, kind and class attributes with the value the runtime gives in one reading for each collection (also when several readers collect at once), family totals and histograms excepted and unknown ones reported as an error; process CPU time and uptime lie between what the operating system says before and after the collection and never decrease.",
        over=["inputs", "histories"], text="all contents of the operating system's sources and all sets of runtime metrics of known and unknown families",
        why="tests read the real machine once and check for non-negative numbers",
        files=["lightstep/instrumentation/host/host.go", "lightstep/instrumentation/runtime/runtime.go", "lightstep/instrumentation/runtime/builtin.go", "lightstep/instrumentation/cputime/cputime.go"],
        mech=[("observations of one callback", "lightstep/instrumentation/host/host.go"), ("name mapping", "lightstep/instrumentation/runtime/builtin.go")],
        observe=["the metrics data returned by collections", "errors returned or reported"]),
    dict(
        id="C24", title="Context propagation uses exactly the chosen formats",
        statement="With a trace pipeline running, outgoing requests carry the trace context and baggage in every chosen format and no other, incoming requests are understood in every chosen format and no other, the last chosen format present wins, and unknown names are ignored unless none is left, which is an error.",
        over=["configurations", "inputs"], text="all lists of known and unknown propagators in any order",
        why="tests check the fields of a few fixed combinations",
        files=["pipelines/trace.go", "launcher/config.go"],
        mech=[("composite propagator", "pipelines/trace.go")],
        observe=["headers injected", "span contexts extracted"]),
]
