package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lightstep/otel-launcher-go/launcher"
	"github.com/lightstep/otel-launcher-go/pipelines"
	"go.opentelemetry.io/collector/config/configtls"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/baggage"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/sdk/resource"
	apitrace "go.opentelemetry.io/otel/trace"
)

var headerKeys = []string{"lightstep-access-token", "x-a", "x-b"}

const defEndpoint = "ingest.lightstep.com:443"

type world struct {
	r       *rand.Rand
	tr      *trace
	srv     map[string]*backend
	fatal   []string
	debug   bool
	builtin int // errors about builtin libraries
	mu      sync.Mutex
	cfg     M
	maps    []mapCopy
	due     bool              // metrics will come without shutting down
	last    map[string]string // last value of some settings
	ep      map[string]string // where signals go, as far as the program knows
}

type mapCopy struct{ is, was map[string]string }

func (w *world) one(n int) bool          { return w.r.Intn(n) == 0 }
func (w *world) pick(a ...string) string { return a[w.r.Intn(len(a))] }

// Fatalf and Debugf make the world a launcher.Logger that does not exit.
func (w *world) Fatalf(f string, v ...any) {
	m := fmt.Sprintf(f, v...)
	c := "other: " + m
	for _, k := range []struct{ sub, class string }{{"environment error", "env"}, {"service name missing", "service"}, {"access token missing", "token"},
		{"unsupported propagators", "props"}, {"reporting period", "period"}, {"temporality preference", "tempo"}} {
		if strings.Contains(m, k.sub) {
			c = k.class
			break
		}
	}
	w.mu.Lock()
	w.fatal = append(w.fatal, c)
	w.mu.Unlock()
}

func (w *world) Debugf(f string, v ...any) {
	if strings.Contains(fmt.Sprintf(f, v...), "debug logging enabled") {
		w.mu.Lock()
		w.debug = true
		w.mu.Unlock()
	}
}

func (w *world) Handle(err error) {
	if strings.Contains(err.Error(), "unrecognized builtin") {
		w.mu.Lock()
		w.builtin++
		w.mu.Unlock()
	}
}

func (w *world) fatals() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]string{}, w.fatal...)
}

func ent(e, k string) M {
	return M{"e": e, "k": k, "s": "", "b": false, "l": []string{}, "m": []M{}, "bad": false}
}

func pairs(m map[string]string) []M {
	out := []M{}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, M{"k": k, "v": m[k]})
	}
	return out
}

func (w *world) endpoint() (string, string) {
	s := w.pick("A", "A", "A", "B", "B", "B", "B", "D", "")
	switch s {
	case "A", "B":
		return s, w.srv[s].addr
	case "D":
		return s, defEndpoint
	}
	return "", ""
}

func (w *world) headers(empties bool) map[string]string {
	h := map[string]string{}
	for _, k := range headerKeys {
		if w.one(3) {
			h[k] = w.pick("h1", "h2", "h3")
			if empties && w.one(5) {
				h[k] = ""
			}
		}
	}
	return h
}

func (w *world) libs() []string {
	pool := []string{"all", "all:stable", "host", "host:stable", "runtime", "runtime:", "cputime", "cputime:stable", "all:prestable", "disk", "host:v9", "", "runtime:stable:x"}
	var out []string
	used := map[string]bool{}
	for n := 1 + w.r.Intn(3); n > 0; n-- {
		s := pool[w.r.Intn(len(pool))]
		name, _, _ := strings.Cut(s, ":")
		if used[name] || used["all"] || (name == "all" && len(used) > 0) {
			continue // every library once
		}
		used[name] = true
		out = append(out, s)
	}
	return out
}

func (w *world) props() []string {
	var out []string
	for n := w.r.Intn(5); n > 0; n-- {
		out = append(out, w.pick("b3", "baggage", "tracecontext", "ottrace", "ottrace", "tracecontext", "jaeger", "B3", "none"))
	}
	return out
}

func (w *world) tempo() string {
	return w.pick("cumulative", "delta", "stateless", "lowmemory", "DELTA", "LowMemory", "Cumulative", "Stateless", "cumulative", "delta", "stateless", "deltas", "up")
}

func (w *world) resAttrs() map[string]string {
	m := map[string]string{}
	for _, k := range []string{"service.name", "service.version", "host.name", "k1", "k2", "telemetry.sdk.name"} {
		if w.one(4) {
			m[k] = w.pick("r1", "r2", "r3", "")
		}
	}
	return m
}

// environment sets random variables.
func (w *world) environment() {
	set := func(p int, name, key string, f func(M) string) {
		if !w.one(p) {
			return
		}
		m := ent("env", key)
		os.Setenv(name, f(m))
		w.note(m)
		w.tr.emit(m)
	}
	str := func(vals ...string) func(M) string {
		return func(m M) string { s := w.pick(vals...); m["s"] = s; return s }
	}
	boolean := func(m M) string {
		if w.one(60) {
			m["bad"] = true
			return w.pick("maybe", "2", "yes please")
		}
		b := w.one(2)
		m["b"] = b
		if b {
			return w.pick("true", "1", "t", "TRUE")
		}
		return w.pick("false", "0", "f")
	}
	list := func(f func() []string) func(M) string {
		return func(m M) string {
			l := f()
			for len(l) == 0 || strings.Join(l, ",") == "" {
				l = f()
			}
			m["l"] = l
			return strings.Join(l, ",")
		}
	}
	ep := func(m M) string {
		s, a := w.endpoint()
		for s == "" { // set but empty is the library's affair
			s, a = w.endpoint()
		}
		m["s"] = s
		w.ep[m["k"].(string)] = s
		return a
	}
	mapping := func(f func() map[string]string, sep string) func(M) string {
		return func(m M) string {
			h := f()
			for len(h) == 0 {
				h = f()
			}
			var p []string
			for _, kv := range pairs(h) {
				p = append(p, kv["k"].(string)+sep+kv["v"].(string))
			}
			m["m"] = pairs(h)
			return strings.Join(p, ",")
		}
	}
	set(3, "LS_SERVICE_NAME", "service", str("e1", "e2"))
	set(4, "LS_SERVICE_VERSION", "version", str("v1", "v2"))
	set(3, "OTEL_EXPORTER_OTLP_SPAN_ENDPOINT", "span-endpoint", ep)
	set(4, "OTEL_EXPORTER_OTLP_SPAN_INSECURE", "span-insecure", boolean)
	set(3, "OTEL_EXPORTER_OTLP_METRIC_ENDPOINT", "metric-endpoint", ep)
	set(4, "OTEL_EXPORTER_OTLP_METRIC_INSECURE", "metric-insecure", boolean)
	set(4, "OTEL_EXPORTER_OTLP_HEADERS", "headers", mapping(func() map[string]string { return w.headers(false) }, ":"))
	set(4, "OTEL_EXPORTER_OTLP_METRIC_TEMPORALITY_PREFERENCE", "tempo", func(m M) string { s := w.tempo(); m["s"] = s; return s })
	set(8, "LS_METRICS_ENABLED", "metrics", boolean)
	set(5, "LS_METRICS_BUILTINS_ENABLED", "builtins", boolean)
	set(4, "LS_METRICS_BUILTIN_LIBRARIES", "libs", list(w.libs))
	set(6, "OTEL_LOG_LEVEL", "log", str("debug", "info", "error"))
	set(4, "OTEL_PROPAGATORS", "props", list(w.props))
	set(4, "OTEL_EXPORTER_OTLP_METRIC_PERIOD", "period", str("100ms", "1h", "30s", "200ms", "0.1s", "1h", "0s", "-1s", "soon"))
	set(3, "OTEL_RESOURCE_ATTRIBUTES", "resource", mapping(w.resAttrs, "="))
	set(6, "OTEL_SERVICE_NAME", "otel-service", str("o1", "o2"))
	set(3, "LS_ACCESS_TOKEN", "token", str("tok1", "tok2"))
	if w.one(3) {
		os.Setenv("LS_METRICS_SDK", w.pick("true", "false")) // no longer means anything
	}
}

var short = map[string]bool{"100ms": true, "200ms": true, "0.1s": true}

func (w *world) note(m M) {
	switch m["k"] {
	case "period":
		w.last["period"] = m["s"].(string)
	case "metrics":
		w.last["metrics"] = fmt.Sprint(m["b"])
	}
}

func (w *world) keep(m map[string]string) map[string]string {
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	w.maps = append(w.maps, mapCopy{m, c})
	return m
}

// options makes a random sequence of options, biased to a working setup.
func (w *world) options() []launcher.Option {
	out := []launcher.Option{launcher.WithLogger(w)}
	add := func(m M, o launcher.Option) {
		w.tr.emit(m)
		w.note(m)
		out = append(out, o)
	}
	ep := func(k string, f func(string) launcher.Option) func() {
		return func() {
			m := ent("opt", k)
			s, a := w.endpoint()
			m["s"] = s
			w.ep[k] = s
			add(m, f(a))
		}
	}
	str := func(k string, f func(string) launcher.Option, vals ...string) func() {
		return func() {
			m := ent("opt", k)
			s := w.pick(vals...)
			m["s"] = s
			add(m, f(s))
		}
	}
	bl := func(k string, f func(bool) launcher.Option, p int) func() {
		return func() {
			m := ent("opt", k)
			b := !w.one(p)
			m["b"] = b
			add(m, f(b))
		}
	}
	type cand struct {
		p int // one in p, or p times out of 10 when negative
		f func()
	}
	cs := []cand{
		{-8, str("service", launcher.WithServiceName, "s1", "s2", "s1", "s2", "s1", "s2", "s1", "s2", "")},
		{4, str("version", launcher.WithServiceVersion, "w1", "w2", "")},
		{-8, ep("span-endpoint", launcher.WithSpanExporterEndpoint)},
		{-7, bl("span-insecure", launcher.WithSpanExporterInsecure, 3)},
		{-8, ep("metric-endpoint", launcher.WithMetricExporterEndpoint)},
		{-7, bl("metric-insecure", launcher.WithMetricExporterInsecure, 3)},
		{3, func() {
			m := ent("opt", "headers")
			h := w.keep(w.headers(true))
			m["m"] = pairs(h)
			add(m, launcher.WithHeaders(h))
		}},
		{3, str("token", launcher.WithAccessToken, "t1", "t2", "")},
		{3, func() {
			m := ent("opt", "tempo")
			s := w.tempo()
			if w.one(8) {
				s = ""
			}
			m["s"] = s
			add(m, launcher.WithMetricExporterTemporalityPreference(s))
		}},
		{6, bl("metrics", launcher.WithMetricsEnabled, 3)},
		{-6, bl("builtins", launcher.WithMetricsBuiltinsEnabled, 2)},
		{3, func() {
			m := ent("opt", "libs")
			l := w.libs()
			m["l"] = append([]string{}, l...)
			add(m, launcher.WithMetricsBuiltinLibraries(l))
		}},
		{6, str("log", launcher.WithLogLevel, "debug", "info", "debug ")},
		{3, func() {
			m := ent("opt", "props")
			l := w.props()
			m["l"] = append([]string{}, l...)
			add(m, launcher.WithPropagators(l))
		}},
		{-6, func() {
			m := ent("opt", "period")
			d := []time.Duration{100 * time.Millisecond, 100 * time.Millisecond, time.Hour, 200 * time.Millisecond, time.Hour, 30 * time.Second, 0, -time.Second}[w.r.Intn(8)]
			m["s"] = map[time.Duration]string{100 * time.Millisecond: "100ms", 200 * time.Millisecond: "200ms", time.Hour: "1h", 30 * time.Second: "30s", 0: "0s", -time.Second: "-1s"}[d]
			add(m, launcher.WithMetricReportingPeriod(d))
		}},
		{3, func() {
			m := ent("opt", "resource")
			h := w.keep(w.resAttrs())
			m["m"] = pairs(h)
			add(m, launcher.WithResourceAttributes(h))
		}},
		{10, bl("sdk", launcher.WithLightstepMetricsSDK, 2)},
	}
	if w.one(2) {
		cs = append(cs, cand{1, func() {
			w.cfg["handler"] = true
			out = append(out, launcher.WithErrorHandler(w))
		}})
	}
	w.r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	for round := 0; round < 2; round++ {
		for _, c := range cs {
			if round == 1 && !w.one(6) {
				continue // some options come twice
			}
			if c.p > 0 && w.one(c.p) || c.p < 0 && w.r.Intn(10) < -c.p {
				c.f()
			}
		}
	}
	return out
}

// pipe makes a pipeline configuration directly.
func (w *world) pipe(cs *certs) pipelines.PipelineConfig {
	var pc pipelines.PipelineConfig
	m := ent("pipe", "")
	name := w.pick("A", "B")
	pc.Endpoint = w.srv[name].addr
	pc.Insecure = w.one(2)
	pc.Headers = w.keep(w.headers(false))
	attrs := w.resAttrs()
	var kv []attribute.KeyValue
	for _, p := range pairs(attrs) {
		kv = append(kv, attribute.String(p["k"].(string), p["v"].(string)))
	}
	pc.Resource = resource.NewSchemaless(kv...)
	pc.ReportingPeriod = w.pick("100ms", "1h", "200ms", "30s", "", "0s", "-1s", "soon", "1h", "100ms", "1h", "100ms")
	pc.Propagators = w.props()
	pc.MetricsBuiltinsEnabled = w.one(2)
	pc.MetricsBuiltinLibraries = w.libs()
	pc.TemporalityPreference = w.tempo()
	if w.one(6) {
		pc.TemporalityPreference = ""
	}
	t := w.pick("nil", "ca", "ca", "skip", "insecure", "zero")
	switch t {
	case "ca":
		pc.TLSSetting = &configtls.ClientConfig{Config: configtls.Config{CAFile: w.caFile(cs)}}
	case "skip":
		pc.TLSSetting = &configtls.ClientConfig{InsecureSkipVerify: true}
	case "insecure":
		pc.TLSSetting = &configtls.ClientConfig{Insecure: true}
	case "zero":
		pc.TLSSetting = &configtls.ClientConfig{}
	}
	m["ep"], m["ins"], m["hd"], m["res"], m["period"] = name, pc.Insecure, pairs(pc.Headers), pairs(attrs), pc.ReportingPeriod
	m["props"], m["bin"], m["libs"], m["tempo"], m["tls"] = append([]string{}, pc.Propagators...), pc.MetricsBuiltinsEnabled, append([]string{}, pc.MetricsBuiltinLibraries...), pc.TemporalityPreference, t
	w.tr.emit(m)
	w.ep["metric-endpoint"], w.last["period"] = name, pc.ReportingPeriod
	return pc
}

func (w *world) caFile(cs *certs) string {
	p := filepath.Join(os.TempDir(), "ca.pem")
	must(os.WriteFile(p, []byte(cs.ca), 0o600))
	return p
}

// ---- using it ----

type instruments struct {
	tracer apitrace.Tracer
	c      metric.Int64Counter
	u      metric.Int64UpDownCounter
	h      metric.Float64Histogram
	g      metric.Int64Gauge

	mu         sync.Mutex
	ac, au, ag int64
}

func newInstruments() *instruments {
	i := &instruments{tracer: otel.Tracer(appScope)}
	m := otel.Meter(appScope)
	i.c, _ = m.Int64Counter("c")
	i.u, _ = m.Int64UpDownCounter("u")
	i.h, _ = m.Float64Histogram("h")
	i.g, _ = m.Int64Gauge("g")
	ac, _ := m.Int64ObservableCounter("ac")
	au, _ := m.Int64ObservableUpDownCounter("au")
	ag, _ := m.Int64ObservableGauge("ag")
	m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		i.mu.Lock()
		defer i.mu.Unlock()
		o.ObserveInt64(ac, i.ac)
		o.ObserveInt64(au, i.au)
		o.ObserveInt64(ag, i.ag)
		return nil
	}, ac, au, ag)
	return i
}

// record makes spans and measurements.
func (w *world) record(i *instruments, tag string) {
	ctx := context.Background()
	names := []string{}
	for k, n := 0, 1+w.r.Intn(4); k < n; k++ {
		names = append(names, fmt.Sprint(tag, k))
	}
	c, u, h, g := int64(1+w.r.Intn(9)), int64(w.r.Intn(9)-4), float64(1+w.r.Intn(9)), int64(w.r.Intn(9)-4)
	dac, dau, ag := int64(1+w.r.Intn(9)), int64(w.r.Intn(9)-4), int64(w.r.Intn(9)-4)
	i.mu.Lock()
	i.ac, i.au, i.ag = i.ac+dac, i.au+dau, ag
	i.mu.Unlock()
	w.tr.emit(M{"e": "rec", "spans": names, "c": int(c), "u": int(u), "h": int(h), "g": int(g), "ac": int(dac), "au": int(dau), "ag": int(ag)})
	for _, n := range names {
		_, s := i.tracer.Start(ctx, n)
		s.End()
	}
	i.c.Add(ctx, c)
	i.u.Add(ctx, u)
	i.h.Record(ctx, h)
	i.g.Record(ctx, g)
}

var formats = []string{"b3", "tracecontext", "ottrace", "baggage"}

// propagate looks at the installed propagator.
func (w *world) propagate() {
	p := otel.GetTextMapPropagator()
	tid := apitrace.TraceID{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
	sid := apitrace.SpanID{1, 2, 3, 4, 5, 6, 7, 8}
	mem, _ := baggage.NewMember("bk", "bv")
	bag, _ := baggage.New(mem)
	ctx := baggage.ContextWithBaggage(context.Background(), bag)
	ctx = apitrace.ContextWithSpanContext(ctx, apitrace.NewSpanContext(apitrace.SpanContextConfig{TraceID: tid, SpanID: sid, TraceFlags: apitrace.FlagsSampled}))
	car := propagation.MapCarrier{}
	p.Inject(ctx, car)
	inj := []string{}
	if car.Get("x-b3-traceid") == tid.String() && car.Get("x-b3-spanid") == sid.String() && car.Get("x-b3-sampled") == "1" {
		inj = append(inj, "b3")
	}
	if strings.Contains(car.Get("traceparent"), tid.String()+"-"+sid.String()+"-01") {
		inj = append(inj, "tracecontext")
	}
	if strings.HasSuffix(tid.String(), car.Get("ot-tracer-traceid")) && car.Get("ot-tracer-traceid") != "" && car.Get("ot-tracer-spanid") == sid.String() {
		inj = append(inj, "ottrace")
	}
	if car.Get("baggage") == "bk=bv" {
		inj = append(inj, "baggage")
	}
	other := []string{}
	for k := range car {
		if !strings.HasPrefix(k, "x-b3-") && !strings.HasPrefix(k, "ot-") && k != "traceparent" && k != "tracestate" && k != "baggage" {
			other = append(other, k)
		}
	}
	// what arrives in each format alone, and which wins when all do
	alone := map[string]propagation.MapCarrier{
		"b3":           {"x-b3-traceid": strings.Repeat("b", 32), "x-b3-spanid": strings.Repeat("b", 16), "x-b3-sampled": "1"},
		"tracecontext": {"traceparent": "00-" + strings.Repeat("c", 32) + "-" + strings.Repeat("c", 16) + "-01"},
		"ottrace":      {"ot-tracer-traceid": strings.Repeat("d", 16), "ot-tracer-spanid": strings.Repeat("d", 16), "ot-tracer-sampled": "true"},
		"baggage":      {"baggage": "bk=bv"},
	}
	which := func(ctx context.Context) string {
		sc := apitrace.SpanContextFromContext(ctx)
		if !sc.IsValid() || !sc.IsSampled() || !sc.IsRemote() {
			return "none"
		}
		switch t := sc.TraceID().String(); t[31] {
		case 'b':
			return "b3"
		case 'c':
			return "tracecontext"
		case 'd':
			return "ottrace"
		}
		return "?"
	}
	ext := []string{}
	all := propagation.MapCarrier{}
	for _, f := range formats {
		ctx := p.Extract(context.Background(), alone[f])
		if which(ctx) == f || f == "baggage" && baggage.FromContext(ctx).Member("bk").Value() == "bv" {
			ext = append(ext, f)
		}
		for k, v := range alone[f] {
			all[k] = v
		}
	}
	w.tr.emit(M{"e": "prop", "inj": inj, "ext": ext, "win": which(p.Extract(context.Background(), all)), "other": other})
}

func child(fam string, seed int64) {
	w := &world{r: rand.New(rand.NewSource(seed)), tr: &trace{ev: []M{}}, ep: map[string]string{}, last: map[string]string{}}
	host, _ := os.Hostname()
	w.cfg = M{"mode": fam, "trust": w.pick("sys", "sys", "none"), "cert": w.pick("good", "good", "good", "bad"), "host": host, "handler": false, "early": w.one(3)}
	cs := newCerts()
	cert := cs.good
	if w.cfg["cert"] == "bad" {
		cert = cs.bad
	}
	w.srv = map[string]*backend{"A": newBackend("A", w.tr, cert), "B": newBackend("B", w.tr, cert)}
	empty := filepath.Join(os.TempDir(), "nocerts")
	must(os.MkdirAll(empty, 0o700))
	os.Setenv("SSL_CERT_DIR", empty)
	if w.cfg["trust"] == "sys" {
		os.Setenv("SSL_CERT_FILE", w.caFile(cs))
	} else {
		f := filepath.Join(os.TempDir(), "none.pem")
		must(os.WriteFile(f, nil, 0o600))
		os.Setenv("SSL_CERT_FILE", f)
	}
	var ins *instruments
	if w.cfg["early"].(bool) {
		ins = newInstruments()
	}
	var shutdown func() // nil when there is nothing to use
	switch fam {
	case "launch":
		w.ep["span-endpoint"], w.ep["metric-endpoint"] = "D", "D"
		w.environment()
		opts := w.options()
		ls := launcher.ConfigureOpentelemetry(opts...)
		shutdown = ls.Shutdown
	case "trace", "metric":
		pc := w.pipe(cs)
		w.cfg["handler"] = true
		otel.SetErrorHandler(w)
		f := pipelines.NewTracePipeline
		if fam == "metric" {
			f = pipelines.NewMetricsPipeline
		}
		down, err := f(pc)
		if err != nil {
			w.Fatalf("%v", err)
		}
		shutdown = func() {
			if down == nil {
				return
			}
			if err := down(); err != nil {
				w.Fatalf("failed to stop exporter: %v", err)
			}
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown family", fam)
		os.Exit(3)
	}
	same := true
	for _, m := range w.maps {
		same = same && reflect.DeepEqual(m.is, m.was)
	}
	ft := w.fatals()
	w.tr.emit(M{"e": "configured", "fatal": ft, "debug": w.debug, "same": same, "builtin": w.builtin})
	stop := false
	for _, f := range ft {
		stop = stop || f == "env" || f == "service" || f == "token"
	}
	for _, s := range w.ep {
		stop = stop || s == "D" // out of reach
	}
	w.due = len(ft) == 0 && fam != "trace" && w.ep["metric-endpoint"] != "" && short[w.last["period"]] && w.last["metrics"] != "false"
	if !stop {
		w.use(ins, shutdown)
	}
	w.tr.mu.Lock()
	b, err := json.Marshal(M{"cfg": w.cfg, "fam": fam, "seed": seed, "ev": w.tr.ev})
	w.tr.mu.Unlock()
	must(err)
	os.Stdout.Write(append(b, '\n'))
	os.Exit(0)
}

func isReq(sig string) func(M) bool {
	return func(m M) bool {
		if m["e"] != "req" || m["sig"] != sig {
			return false
		}
		return len(m["items"].([]M)) > 0 || len(m["spans"].([]string)) > 0
	}
}

var isTick = isReq("metric")

// use exercises what was configured.  It follows what is expected from the
// outside only: it waits for what may come, within generous limits.
func (w *world) use(ins *instruments, shutdown func()) {
	w.propagate()
	if ins == nil {
		ins = newInstruments()
	}
	w.record(ins, "p")
	if w.one(2) {
		// long enough for several short periods, longer if one is due
		wait := 600 * time.Millisecond
		if w.due {
			wait = 20 * time.Second
		}
		refused := func(m M) bool { return m["e"] == "conn" && m["ok"] == false }
		if w.tr.find(func(m M) bool { return isTick(m) || refused(m) }, wait) && w.tr.find(isTick, 0) {
			w.tr.emit(M{"e": "tick"})
		} else if w.due && !w.tr.find(refused, 0) {
			w.tr.emit(M{"e": "late"})
		}
		w.record(ins, "q")
	}
	w.tr.emit(M{"e": "down"})
	done := make(chan bool)
	go func() {
		shutdown()
		close(done)
	}()
	end := time.After(60 * time.Second)
	var since time.Time
	for {
		select {
		case <-done:
			w.tr.emit(M{"e": "ret", "fatal": w.fatals()})
			return
		case <-end:
			w.tr.emit(M{"e": "hang"})
			return
		case <-time.After(20 * time.Millisecond):
			// a refused connection is retried until the export times out,
			// which is not waited for
			if since.IsZero() && w.tr.find(func(m M) bool { return m["e"] == "conn" && m["ok"] == false }, 0) {
				since = time.Now()
			}
			if !since.IsZero() && time.Since(since) > time.Second {
				w.tr.emit(M{"e": "stuck"})
				return
			}
		}
	}
}
