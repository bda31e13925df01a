// exp exports random data through the repository's exporters to a backend
// on the loopback interface and writes what was exported and what arrived,
// one program per line, for validation against spec/Export.tla.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/resource"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"google.golang.org/grpc/codes"
)

type quiet struct{}

func (quiet) Handle(error) {}

type world struct {
	seed int64
	r    *rand.Rand
	mu   sync.Mutex // orders the log with the server's entries
	ev   []M
	srv  *server
	cfg  M

	mp    *sdk.MeterProvider
	tp    *sdktrace.TracerProvider
	self  *sdk.ManualReader
	spans *tracetest.SpanRecorder
	nseen int
	calls int
	split bool // batches are split, which loses schema URLs (in the collector)

	// behaviour of the backend at present
	mode    string
	impat   bool          // the exporter's own timeout is short, and the backend always slow
	timeout time.Duration // of calls
	cancel  time.Duration
}

func (w *world) one(n int) bool          { return w.r.Intn(n) == 0 }
func (w *world) pick(a ...string) string { return a[w.r.Intn(len(a))] }
func (w *world) emit(m M)                { w.srv.mu.Lock(); w.ev = append(w.ev, m); w.srv.mu.Unlock() }
func (w *world) prog() string            { return fmt.Sprint("p", w.seed) }
func (w *world) context() (context.Context, context.CancelFunc) {
	ctx := context.Background()
	switch {
	case w.timeout > 0:
		return context.WithTimeout(ctx, w.timeout)
	case w.cancel > 0:
		ctx, c := context.WithCancel(ctx)
		t := time.AfterFunc(w.cancel, c)
		return ctx, func() { t.Stop(); c() }
	}
	return ctx, func() {}
}

func stateOf(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, context.Canceled):
		return "canceled"
	case errors.Is(err, context.DeadlineExceeded):
		return "timeout"
	}
	return "error"
}

// setMode changes what the backend does; between calls only.
func (w *world) setMode(m string) {
	if w.impat {
		m = "stall"
	}
	w.mode = m
	w.timeout, w.cancel = 0, 0
	md := mode{}
	switch m {
	case "error":
		md.code = []codes.Code{codes.Internal, codes.Unavailable, codes.ResourceExhausted, codes.InvalidArgument, codes.PermissionDenied, codes.Unauthenticated, codes.DeadlineExceeded, codes.Canceled, codes.Unimplemented}[w.r.Intn(9)]
	case "timeout":
		md.delay = 60 * time.Millisecond
		w.timeout = 10 * time.Millisecond
	case "cancel":
		md.delay = 60 * time.Millisecond
		w.cancel = 10 * time.Millisecond
	case "stall":
		md.delay = 60 * time.Millisecond
		m = "timeout"
	case "slow":
		md.delay = time.Duration(1+w.r.Intn(8)) * time.Millisecond
	}
	w.srv.setMode(md)
	w.emit(M{"e": "mode", "m": m})
}

// telemetry installs providers that record what the exporters say about
// themselves.
func (w *world) telemetry() {
	w.self = sdk.NewManualReader("self")
	mp := sdk.NewMeterProvider(sdk.WithReader(w.self, view.WithDefaultAggregationTemporalitySelector(
		func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.CumulativeTemporality })), sdk.WithResource(resource.Empty()))
	w.spans = tracetest.NewSpanRecorder()
	tp := sdktrace.NewTracerProvider(sdktrace.WithSpanProcessor(w.spans), sdktrace.WithSampler(sdktrace.AlwaysSample()))
	w.nseen = 0
	w.mp, w.tp = mp, tp
	otel.SetMeterProvider(mp)
	otel.SetTracerProvider(tp)
}

// observe records the self-telemetry; between calls only.
func (w *world) observe(sig string) {
	out := w.self.Produce(nil)
	counts := M{"ok": 0, "canceled": 0, "timeout": 0, "error": 0}
	names, other := true, 0
	for _, s := range out.Scopes {
		for _, in := range s.Instruments {
			if strings.HasPrefix(in.Descriptor.Name, "otelcol_") {
				names = false
			}
			if s.Library.Name != "lightstep-go/sdk/"+sig {
				continue
			}
			if in.Descriptor.Name != "otelsdk.telemetry.items" {
				other++
				continue
			}
			for _, p := range in.Points {
				st, _ := p.Attributes.Value("state")
				ok, _ := p.Attributes.Value("success")
				v := p.Aggregation.(aggregation.Sum)
				if _, has := counts[st.AsString()]; !has || ok.AsBool() != (st.AsString() == "ok") || p.Attributes.Len() != 2 || !v.IsMonotonic() {
					other++
					continue
				}
				counts[st.AsString()] = int(v.Sum())
			}
		}
	}
	spans := []M{}
	ended := w.spans.Ended()
	for ; w.nseen < len(ended); w.nseen++ {
		s := ended[w.nseen]
		if s.InstrumentationScope().Name != "lightstep-go/sdk/"+sig {
			continue
		}
		m := M{"name": s.Name(), "num": -1, "state": "", "success": false, "code": strings.ToLower(s.Status().Code.String())}
		for _, kv := range s.Attributes() {
			switch kv.Key {
			case "num_points", "num_spans":
				m["num"] = int(kv.Value.AsInt64())
			case "state":
				m["state"] = kv.Value.AsString()
			case "success":
				m["success"] = kv.Value.AsBool()
			}
		}
		spans = append(spans, m)
	}
	w.emit(M{"e": "self", "counts": counts, "other": other, "spans": spans, "names": names})
}

// ---- attributes ----

func valStr(v attribute.Value) string {
	var p []string
	switch v.Type() {
	case attribute.INVALID:
		return "none"
	case attribute.BOOL:
		return fmt.Sprint("b:", v.AsBool())
	case attribute.INT64:
		return fmt.Sprint("i:", v.AsInt64())
	case attribute.FLOAT64:
		return "f:" + strconv.FormatFloat(v.AsFloat64(), 'g', -1, 64)
	case attribute.STRING:
		return "s:" + v.AsString()
	case attribute.BOOLSLICE:
		for _, x := range v.AsBoolSlice() {
			p = append(p, fmt.Sprint("b:", x))
		}
	case attribute.INT64SLICE:
		for _, x := range v.AsInt64Slice() {
			p = append(p, fmt.Sprint("i:", x))
		}
	case attribute.FLOAT64SLICE:
		for _, x := range v.AsFloat64Slice() {
			p = append(p, "f:"+strconv.FormatFloat(x, 'g', -1, 64))
		}
	case attribute.STRINGSLICE:
		for _, x := range v.AsStringSlice() {
			p = append(p, "s:"+x)
		}
	}
	return "[" + strings.Join(p, ",") + "]"
}

// inAttrs keeps the order and duplicates of the input.
func inAttrs(kvs []attribute.KeyValue) []M {
	out := []M{}
	for _, kv := range kvs {
		out = append(out, M{"k": string(kv.Key), "v": valStr(kv.Value)})
	}
	return out
}

var ints = []int64{0, 1, -1, 7, math.MaxInt64, math.MinInt64, 1 << 40}
var floats = []float64{0, 1, -1, 0.5, 1e300, -2.25, math.Inf(1), math.Inf(-1), 1e-300, math.MaxFloat64}
var strs = []string{"", "a", "b", "x y", "\u00e9", "a,b", "0"}

func (w *world) value() attribute.Value {
	n := w.r.Intn(4)
	switch w.r.Intn(12) {
	case 0, 1:
		return attribute.BoolValue(w.one(2))
	case 2, 3:
		return attribute.Int64Value(ints[w.r.Intn(len(ints))])
	case 4:
		return attribute.Float64Value(floats[w.r.Intn(len(floats))])
	case 5, 6:
		return attribute.StringValue(strs[w.r.Intn(len(strs))])
	case 7:
		s := make([]bool, n)
		for i := range s {
			s[i] = w.one(2)
		}
		return attribute.BoolSliceValue(s)
	case 8:
		s := make([]int64, n)
		for i := range s {
			s[i] = ints[w.r.Intn(len(ints))]
		}
		return attribute.Int64SliceValue(s)
	case 9:
		s := make([]float64, n)
		for i := range s {
			s[i] = floats[w.r.Intn(len(floats))]
		}
		return attribute.Float64SliceValue(s)
	case 10:
		s := make([]string, n)
		for i := range s {
			s[i] = strs[w.r.Intn(len(strs))]
		}
		return attribute.StringSliceValue(s)
	}
	return attribute.Value{}
}

var keys = []string{"k1", "k2", "k3", "k4", "service.name", "Z"}

func (w *world) attrs(max int) []attribute.KeyValue {
	var out []attribute.KeyValue
	for n := w.r.Intn(max + 1); n > 0; n-- {
		out = append(out, attribute.KeyValue{Key: attribute.Key(keys[w.r.Intn(len(keys))]), Value: w.value()})
	}
	return out
}

func (w *world) resources() []*resource.Resource {
	out := []*resource.Resource{resource.NewSchemaless(w.attrs(4)...), resource.NewSchemaless(w.attrs(4)...), resource.Empty()}
	// equal to the first, but another object; and one that differs slightly
	out = append(out, resource.NewSchemaless(out[0].Attributes()...))
	out = append(out, resource.NewSchemaless(append(out[0].Attributes(), attribute.String("more", "1"))...))
	if w.one(2) {
		// resources that only differ in the types of values
		i := w.r.Intn(2)
		var same []attribute.KeyValue
		for _, kv := range append(out[i].Attributes(), attribute.Int("shard", 7)) {
			same = append(same, w.lookalike(kv))
		}
		out = append(out, resource.NewSchemaless(same...), resource.NewSchemaless(append(out[i].Attributes(), attribute.Int("shard", 7))...))
		w.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}

// lookalike returns a value of another type that is written the same way.
func (w *world) lookalike(kv attribute.KeyValue) attribute.KeyValue {
	v := kv.Value
	switch v.Type() {
	case attribute.STRING, attribute.INVALID:
	case attribute.INT64:
		if w.one(2) {
			v = attribute.Float64Value(float64(v.AsInt64()))
			break
		}
		fallthrough
	default:
		v = attribute.StringValue(v.Emit())
	}
	return attribute.KeyValue{Key: kv.Key, Value: v}
}

func (w *world) headers() (map[string]string, M) {
	h := map[string]string{}
	for _, k := range []string{"lightstep-access-token", "x-a", "x-b"} {
		if w.one(2) {
			h[k] = w.pick("t1", "t 2", "x", strings.Repeat("y", 50))
		}
	}
	m := M{}
	for _, k := range []string{"lightstep-access-token", "x-a", "x-b"} {
		m[k] = h[k]
	}
	return h, m
}

func main() {
	fams := flag.String("fam", "metrics", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 1000, "programs")
	secs := flag.Float64("secs", 10, "time limit")
	outp := flag.String("out", "exp.ndjson", "")
	flag.Parse()
	otel.SetErrorHandler(quiet{})
	f, err := os.Create(*outp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	bw := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(bw)
	enc.SetEscapeHTML(false)
	fl := strings.Split(*fams, ",")
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	progs, evs := 0, 0
	stop := func() {
		bw.Flush()
		f.Close()
		fmt.Fprintf(os.Stderr, "{\"programs\":%d,\"events\":%d}\n", progs, evs)
	}
	srv := newServer()
	for i := 0; i < *n && time.Now().Before(deadline); i++ {
		s := *seed*1000003 + int64(i)
		w := &world{seed: s, r: rand.New(rand.NewSource(s)), srv: srv}
		ch := make(chan bool, 1)
		fam := fl[i%len(fl)]
		go func() {
			defer func() {
				if r := recover(); r != nil {
					w.emit(M{"e": "panic", "what": fmt.Sprint(r)})
				}
				ch <- true
			}()
			switch fam {
			case "metrics":
				w.metrics()
			case "spans":
				w.traces()
			case "prom":
				w.prom()
			default:
				fmt.Fprintln(os.Stderr, "unknown family", fam)
				os.Exit(3)
			}
		}()
		hang := false
		select {
		case <-ch:
		case <-time.After(60 * time.Second):
			hang = true
			w.emit(M{"e": "hang"})
		}
		srv.stop()
		srv.mu.Lock()
		t := M{"cfg": w.cfg, "ev": w.ev, "fam": fam, "seed": s}
		if enc.Encode(t) != nil {
			os.Exit(3)
		}
		progs++
		evs += len(w.ev)
		srv.mu.Unlock()
		if hang {
			break
		}
	}
	stop()
}

func sortedKeys(m M) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
