// conc runs small concurrent programs against the metrics SDK under the
// controlled scheduler and writes the recorded histories, one JSON object
// per line, for validation against spec/MetricConc.tla.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/zzverif/vsched"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

type (
	// Reader configuration.
	Reader struct {
		Tempo string `json:"tempo"` // d, c
		Keys  string `json:"keys"`  // all, g, none, two (all and g)
		MMSC  bool   `json:"mmsc"`
	}
	Inst struct {
		Kind  string `json:"kind"` // counter, updown, hist, gauge, ocounter, ogauge
		Float bool   `json:"float"`
		Name  string `json:"name"`
		Desc  string `json:"desc"`
	}
	Stream struct {
		R     int    `json:"r"`
		Insts []int  `json:"insts"`
		Name  string `json:"name"`
		Keys  string `json:"keys"`
		Tempo string `json:"tempo"`
		Agg   string `json:"agg"`
		Lim   int    `json:"lim"`
	}
	Op struct {
		O  string `json:"o"` // m measure, c collect, n new instrument handle, rc register, uc unregister
		I  int    `json:"i"`
		K  int    `json:"k"`
		G  int    `json:"g"`
		ID int    `json:"id"`
		R  int    `json:"r"`
		CB int    `json:"cb"`
		P  int    `json:"p"` // API path
	}
	Scenario struct {
		Fam       string   `json:"fam"`
		Seed      int64    `json:"seed"`
		Readers   []Reader `json:"readers"`
		Insts     []Inst   `json:"insts"`
		Inactive  int      `json:"inactive"`
		InstLim   int      `json:"instlim"`
		AggLim    int      `json:"agglim"`
		IgnoreCol bool     `json:"ignorecol"`
		Coll      bool     `json:"coll"` // attribute values that are permutations of each other
		Threads   [][]Op   `json:"threads"`
		Late      bool     `json:"late"` // instruments are created by the threads
		Pre       []Op     `json:"pre"`
		Tail      int      `json:"tail"`
		NCB       int      `json:"ncb"`
	}
	Trace struct {
		Sc      *Scenario        `json:"sc"`
		Streams []Stream         `json:"streams"`
		Sched   string           `json:"sched"`
		SSeed   int64            `json:"sseed"`
		Ev      []map[string]any `json:"ev"`
		Detail  string           `json:"detail,omitempty"`
	}
)

func pow8(n int) int64 { return int64(1) << (3 * n) }

// ---- scenario generation ----

func gen(fam string, seed int64) *Scenario {
	r := rand.New(rand.NewSource(seed))
	sc := &Scenario{Fam: fam, Seed: seed, Inactive: 1 + r.Intn(3)}
	pick := func(a ...string) string { return a[r.Intn(len(a))] }
	nr := 1 + r.Intn(2)
	for i := 0; i < nr; i++ {
		rd := Reader{Tempo: pick("d", "c"), Keys: pick("all", "all", "g", "none", "two"), MMSC: r.Intn(3) == 0}
		sc.Readers = append(sc.Readers, rd)
	}
	kinds := []string{"counter", "updown", "hist", "counter", "hist"}
	ni := 1 + r.Intn(2)
	nk, ng := 1+r.Intn(3), 1+r.Intn(2)
	maxm := 12
	switch fam {
	case "sum":
	case "evict":
		sc.Inactive = 1
		if r.Intn(4) == 0 {
			sc.Inactive = 2
		}
		ni = 1
		nk = 1 + r.Intn(2)
	case "card":
		sc.Inactive = []int{1, 2, 100, 100}[r.Intn(4)]
		ni = 1
		nk = 3 + r.Intn(3)
		if r.Intn(2) == 0 {
			sc.InstLim = 2 + r.Intn(3)
		}
		if r.Intn(2) == 0 || sc.InstLim == 0 {
			sc.AggLim = 2 + r.Intn(3)
		}
	case "gauge":
		kinds = []string{"gauge"}
		ni = 1
		nk = 1 + r.Intn(2)
		for i := range sc.Readers {
			sc.Readers[i].Keys = pick("all", "all", "all", "two", "g")
		}
		maxm = 8
	case "create":
		sc.Late = true
	case "cb":
		kinds = []string{"ocounter", "ogauge"}
		for i := range sc.Readers {
			sc.Readers[i].Keys = "all"
			sc.Readers[i].Tempo = "c"
		}
		sc.NCB = 2 + r.Intn(2)
	}
	for i := 0; i < ni; i++ {
		in := Inst{Kind: kinds[r.Intn(len(kinds))], Float: r.Intn(2) == 0, Name: fmt.Sprint("i", i)}
		sc.Insts = append(sc.Insts, in)
	}
	if fam == "create" && r.Intn(3) == 0 {
		// a second definition differing only in description: one output stream
		in := sc.Insts[0]
		in.Desc = "longer"
		sc.Insts = append(sc.Insts, in)
	}
	if r.Intn(4) == 0 && fam != "card" {
		sc.IgnoreCol = true
	}
	if !sc.IgnoreCol && sc.InstLim == 0 && r.Intn(2) == 0 && fam != "cb" {
		sc.Coll = true
		nk = 1 + r.Intn(3)
	}
	id := 0
	if fam == "cb" {
		for t := 0; t < 2; t++ {
			var ops []Op
			for n := 1 + r.Intn(3); n > 0; n-- {
				cb := r.Intn(sc.NCB)
				ops = append(ops, Op{O: pick("rc", "uc"), CB: cb})
			}
			sc.Threads = append(sc.Threads, ops)
		}
		for cb := 0; cb < sc.NCB; cb++ {
			if r.Intn(2) == 0 {
				sc.Pre = append(sc.Pre, Op{O: "rc", CB: cb})
			}
		}
		for t := range sc.Readers {
			ops := []Op{}
			for n := 1 + r.Intn(2); n > 0; n-- {
				ops = append(ops, Op{O: "c", R: t + 1})
			}
			sc.Threads = append(sc.Threads, ops)
		}
		sc.Tail = 1
		return sc
	}
	meas := func() Op {
		o := Op{O: "m", I: r.Intn(len(sc.Insts)) + 1, K: r.Intn(nk), G: r.Intn(ng), ID: id, P: r.Intn(2)}
		id++
		return o
	}
	// sequential prefix: establishes series, idle collections
	for n := r.Intn(4); n > 0 && id < 3; n-- {
		if r.Intn(2) == 0 {
			sc.Pre = append(sc.Pre, meas())
		} else {
			sc.Pre = append(sc.Pre, Op{O: "c", R: 1 + r.Intn(nr)})
		}
	}
	if fam == "evict" || fam == "card" {
		// an idle series
		for n := r.Intn(3); n > 0; n-- {
			sc.Pre = append(sc.Pre, Op{O: "c", R: 1 + r.Intn(nr)})
		}
	}
	nw := 1 + r.Intn(3)
	for t := 0; t < nw; t++ {
		var ops []Op
		for n := 1 + r.Intn(3); n > 0 && id < maxm; n-- {
			ops = append(ops, meas())
		}
		if len(ops) > 0 {
			sc.Threads = append(sc.Threads, ops)
		}
	}
	for t := range sc.Readers {
		if nr > 1 && r.Intn(4) == 0 {
			continue
		}
		var ops []Op
		for n := 1 + r.Intn(3); n > 0; n-- {
			ops = append(ops, Op{O: "c", R: t + 1})
		}
		sc.Threads = append(sc.Threads, ops)
		if fam == "sum" && r.Intn(4) == 0 {
			// overlapping collections by the same reader
			sc.Threads = append(sc.Threads, []Op{{O: "c", R: t + 1}})
		}
	}
	sc.Tail = 1 + r.Intn(2)
	return sc
}

func aggOf(in Inst, mmsc bool) string {
	switch in.Kind {
	case "hist":
		if mmsc {
			return "mmsc"
		}
		return "hist"
	case "gauge", "ogauge":
		return "gauge"
	}
	return "sum"
}

func (sc *Scenario) streams() []Stream {
	var out []Stream
	for ri, rd := range sc.Readers {
		keys := []string{rd.Keys}
		if rd.Keys == "two" {
			keys = []string{"all", "g"}
		}
		byName := map[string]int{}
		for ii, in := range sc.Insts {
			for vi, k := range keys {
				name := in.Name
				if vi > 0 {
					name += "_v"
				}
				if j, ok := byName[name]; ok {
					out[j].Insts = append(out[j].Insts, ii+1)
					continue
				}
				byName[name] = len(out)
				out = append(out, Stream{R: ri + 1, Insts: []int{ii + 1}, Name: name, Keys: k, Tempo: rd.Tempo, Agg: aggOf(in, rd.MMSC), Lim: sc.AggLim})
			}
		}
	}
	return out
}

func (rd Reader) options() []view.Option {
	var opts []view.Option
	if rd.Tempo == "d" {
		opts = append(opts, view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.DeltaTemporality }))
	}
	if rd.MMSC {
		opts = append(opts, view.WithDefaultAggregationKindSelector(func(k sdkinstrument.Kind) aggregation.Kind {
			if k == sdkinstrument.SyncHistogram {
				return aggregation.MinMaxSumCountKind
			}
			return view.StandardAggregationKind(k)
		}))
	}
	switch rd.Keys {
	case "g":
		opts = append(opts, view.WithClause(view.WithKeys([]attribute.Key{"g"})))
	case "none":
		opts = append(opts, view.WithClause(view.WithKeys([]attribute.Key{})))
	case "two":
		opts = append(opts, view.WithClause(), view.WithClause(view.WithKeys([]attribute.Key{"g"}), view.WithRenameFunction(func(s string) string { return s + "_v" })))
	}
	return opts
}

// ---- execution ----

type world struct {
	sc      *Scenario
	ev      []map[string]any
	readers []*sdk.ManualReader
	meter   metric.Meter
	h       [][]any // per thread handles
	streams []Stream
	ncoll   int
	collOf  map[int]int      // thread -> collection under way
	used    map[int][]func() // uses of the observers of a collection
	stale   []func()
	regs    []metric.Registration
	errs    int
}

func (w *world) log(e string, kv ...any) {
	m := map[string]any{"e": e}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	w.ev = append(w.ev, m)
}

var errCount int

type quiet struct{}

func (quiet) Handle(error) { errCount++ }

func (w *world) newHandle(in Inst) any {
	var h any
	var err error
	switch {
	case in.Kind == "counter" && !in.Float:
		h, err = w.meter.Int64Counter(in.Name, metric.WithDescription(in.Desc))
	case in.Kind == "counter":
		h, err = w.meter.Float64Counter(in.Name, metric.WithDescription(in.Desc))
	case in.Kind == "updown" && !in.Float:
		h, err = w.meter.Int64UpDownCounter(in.Name, metric.WithDescription(in.Desc))
	case in.Kind == "updown":
		h, err = w.meter.Float64UpDownCounter(in.Name, metric.WithDescription(in.Desc))
	case in.Kind == "hist" && !in.Float:
		h, err = w.meter.Int64Histogram(in.Name, metric.WithDescription(in.Desc))
	case in.Kind == "hist":
		h, err = w.meter.Float64Histogram(in.Name, metric.WithDescription(in.Desc))
	case in.Kind == "gauge" && !in.Float:
		h, err = w.meter.Int64Gauge(in.Name, metric.WithDescription(in.Desc))
	case in.Kind == "gauge":
		h, err = w.meter.Float64Gauge(in.Name, metric.WithDescription(in.Desc))
	case in.Kind == "ocounter" && !in.Float:
		h, err = w.meter.Int64ObservableCounter(in.Name)
	case in.Kind == "ocounter":
		h, err = w.meter.Float64ObservableCounter(in.Name)
	case in.Kind == "ogauge" && !in.Float:
		h, err = w.meter.Int64ObservableGauge(in.Name)
	case in.Kind == "ogauge":
		h, err = w.meter.Float64ObservableGauge(in.Name)
	}
	if err != nil {
		w.log("error", "what", err.Error())
	}
	return h
}

func value(in Inst, id int) int64 {
	switch in.Kind {
	case "gauge":
		return int64(id + 1)
	case "updown":
		if id%2 == 1 {
			return -pow8(id)
		}
	}
	return pow8(id)
}

var perms = [][]int64{{1, 2, 3}, {2, 1, 3}, {3, 2, 1}, {1, 3, 2}, {2, 3, 1}, {3, 1, 2}}

func (w *world) kAttr(k int) attribute.KeyValue {
	if w.sc.Coll {
		return attribute.Int64Slice("k", append([]int64{}, perms[k%6]...))
	}
	return attribute.Int("k", k)
}

func kValue(v attribute.Value) int {
	if v.Type() == attribute.INT64SLICE {
		for i, p := range perms {
			if fmt.Sprint(p) == fmt.Sprint(v.AsInt64Slice()) {
				return i
			}
		}
		return -2
	}
	return int(v.AsInt64())
}

func (w *world) measure(h any, in Inst, op Op) {
	ctx := context.Background()
	v := value(in, op.ID)
	attrs := []attribute.KeyValue{w.kAttr(op.K), attribute.Int("g", op.G)}
	if op.P == 1 {
		// the fast path takes the caller's slice, possibly in another
		// order, and the caller may reuse it afterwards
		attrs[0], attrs[1] = attrs[1], attrs[0]
		done := true
		switch x := h.(type) {
		case bypass.FastInt64Adder:
			x.AddWithKeyValues(ctx, v, attrs...)
		case bypass.FastFloat64Adder:
			x.AddWithKeyValues(ctx, float64(v), attrs...)
		case bypass.FastInt64Recorder:
			x.RecordWithKeyValues(ctx, v, attrs...)
		case bypass.FastFloat64Recorder:
			x.RecordWithKeyValues(ctx, float64(v), attrs...)
		default:
			done = false
		}
		attrs[0], attrs[1] = attribute.Int("k", 99), attribute.Int("g", 99)
		if done {
			return
		}
		attrs = []attribute.KeyValue{w.kAttr(op.K), attribute.Int("g", op.G)}
	}
	o := metric.WithAttributes(attrs...)
	switch x := h.(type) {
	case metric.Int64Counter:
		x.Add(ctx, v, o)
	case metric.Float64Counter:
		x.Add(ctx, float64(v), o)
	case metric.Int64UpDownCounter:
		x.Add(ctx, v, o)
	case metric.Float64UpDownCounter:
		x.Add(ctx, float64(v), o)
	case metric.Int64Histogram:
		x.Record(ctx, v, o)
	case metric.Float64Histogram:
		x.Record(ctx, float64(v), o)
	case metric.Int64Gauge:
		x.Record(ctx, v, o)
	case metric.Float64Gauge:
		x.Record(ctx, float64(v), o)
	default:
		fmt.Fprintf(os.Stderr, "harness: unknown instrument %T\n", h)
		os.Exit(3)
	}
}

// decode turns a sum of 8^id terms into the measurement ids.
func decode(in Inst, v int64, n int) []int {
	ids := []int{}
	neg := in.Kind == "updown"
	for id := 0; id < n && v != 0; id++ {
		d := ((v % 8) + 8) % 8
		if neg && d > 4 {
			d -= 8
		}
		v = (v - d) / 8
		if neg && id%2 == 1 {
			d = -d
		}
		if d < 0 {
			ids = append(ids, -1)
		}
		for ; d > 0; d-- {
			ids = append(ids, id)
		}
	}
	if v != 0 {
		ids = append(ids, -1)
	}
	return ids
}

func idOf(in Inst, v int64, n int) int {
	for id := 0; id < n; id++ {
		if value(in, id) == v {
			return id
		}
	}
	return -1
}

func isOverflow(set attribute.Set) bool {
	v, ok := set.Value("otel.metric.overflow")
	return ok && set.Len() == 1 && v.AsBool()
}

func (w *world) points(r int, out data.Metrics) (pts []map[string]any, names []string) {
	pts = []map[string]any{}
	names = []string{}
	for _, scope := range out.Scopes {
		for _, inst := range scope.Instruments {
			names = append(names, inst.Descriptor.Name)
			si := 0
			for j, s := range w.streams {
				if s.R == r && s.Name == inst.Descriptor.Name {
					si = j + 1
				}
			}
			if si == 0 {
				pts = append(pts, map[string]any{"s": 0})
				continue
			}
			in := w.sc.Insts[w.streams[si-1].Insts[0]-1]
			for _, p := range inst.Points {
				m := map[string]any{"s": si, "k": -1, "g": -1, "o": false, "ids": []int{}, "cnt": -1, "mn": -1, "mx": -1, "ok": true}
				if isOverflow(p.Attributes) {
					m["o"] = true
				} else {
					for it := p.Attributes.Iter(); it.Next(); {
						kv := it.Attribute()
						m[string(kv.Key)] = kValue(kv.Value)
					}
				}
				nk := inst.Descriptor.NumberKind
				switch a := p.Aggregation.(type) {
				case aggregation.Histogram:
					ids := decode(in, int64(a.Sum().CoerceToFloat64(nk)), 20)
					m["ids"] = ids
					m["cnt"] = int(a.Count())
					m["mn"] = idOf(in, int64(a.Min().CoerceToFloat64(nk)), 20)
					m["mx"] = idOf(in, int64(a.Max().CoerceToFloat64(nk)), 20)
					tot := a.ZeroCount()
					for b := uint32(0); b < a.Positive().Len(); b++ {
						tot += a.Positive().At(b)
					}
					for b := uint32(0); b < a.Negative().Len(); b++ {
						tot += a.Negative().At(b)
					}
					m["ok"] = tot == a.Count()
				case aggregation.MinMaxSumCount:
					m["ids"] = decode(in, int64(a.Sum().CoerceToFloat64(nk)), 20)
					m["cnt"] = int(a.Count())
					m["mn"] = idOf(in, int64(a.Min().CoerceToFloat64(nk)), 20)
					m["mx"] = idOf(in, int64(a.Max().CoerceToFloat64(nk)), 20)
				case aggregation.Sum:
					m["ids"] = decode(in, int64(a.Sum().CoerceToFloat64(nk)), 20)
				case aggregation.Gauge:
					m["ids"] = []int{int(a.Gauge().CoerceToFloat64(nk)) - 1}
				}
				pts = append(pts, m)
			}
		}
	}
	sort.Slice(pts, func(i, j int) bool { return fmt.Sprint(pts[i]) < fmt.Sprint(pts[j]) })
	sort.Strings(names)
	return
}

func (w *world) do(tid int, op Op) {
	switch op.O {
	case "m":
		in := w.sc.Insts[op.I-1]
		if w.h[tid][op.I-1] == nil {
			w.h[tid][op.I-1] = w.newHandle(in)
		}
		w.log("mi", "id", op.ID, "i", op.I, "k", op.K, "g", op.G)
		w.measure(w.h[tid][op.I-1], in, op)
		w.log("mr", "id", op.ID)
	case "c":
		w.ncoll++
		c := w.ncoll
		w.collOf[vsched.ID()] = c
		w.log("ci", "c", c, "r", op.R)
		out := w.readers[op.R-1].Produce(nil)
		w.stale = append(w.stale, w.used[c]...)
		delete(w.used, c)
		pts, names := w.points(op.R, out)
		w.log("cr", "c", c, "r", op.R, "pts", pts, "names", names)
	case "rc":
		w.regOp(op.CB, true)
	case "uc":
		w.regOp(op.CB, false)
	}
}

// callback cb (0-based) observes every instrument with k = cb+1 and a value
// that identifies the collection.
func (w *world) regOp(cb int, reg bool) {
	if reg {
		var obs []metric.Observable
		for i := range w.sc.Insts {
			obs = append(obs, w.h[0][i].(metric.Observable))
		}
		// each registration is a new callback instance
		inst := len(w.regs) + 1
		w.regs = append(w.regs, nil)
		w.log("ri", "cb", inst)
		r, err := w.meter.RegisterCallback(func(ctx context.Context, o metric.Observer) error {
			c := w.collOf[vsched.ID()]
			w.log("cb", "cb", inst, "c", c)
			// Observers of earlier collections do nothing any more.
			for n, old := range w.stale {
				if (n+inst+c)%3 == 0 {
					old()
				}
			}
			w.used[c] = append(w.used[c], func() {
				at := metric.WithAttributes(attribute.Int("k", 15), attribute.Int("g", 1))
				switch x := w.h[0][0].(type) {
				case metric.Int64Observable:
					o.ObserveInt64(x, 1, at)
				case metric.Float64Observable:
					o.ObserveFloat64(x, 1, at)
				}
			})
			for i := range w.sc.Insts {
				at := metric.WithAttributes(attribute.Int("k", inst), attribute.Int("g", 0))
				switch x := w.h[0][i].(type) {
				case metric.Int64ObservableCounter:
					o.ObserveInt64(x, pow8(inst), at)
				case metric.Float64ObservableCounter:
					o.ObserveFloat64(x, float64(pow8(inst)), at)
				case metric.Int64ObservableGauge:
					o.ObserveInt64(x, int64(inst+1), at)
				case metric.Float64ObservableGauge:
					o.ObserveFloat64(x, float64(inst+1), at)
				}
			}
			return nil
		}, obs...)
		w.regs[inst-1] = r
		w.log("rr", "cb", inst, "ok", err == nil)
		return
	}
	// unregister some registered callback
	if len(w.regs) == 0 {
		return
	}
	inst := cb%len(w.regs) + 1
	r := w.regs[inst-1]
	if r == nil {
		return
	}
	w.log("ui", "cb", inst)
	err := r.Unregister()
	w.log("ur", "cb", inst, "ok", err == nil)
}

func (w *world) main() {
	sc := w.sc
	perf := sdkinstrument.Performance{IgnoreCollisions: sc.IgnoreCol, InactiveCollectionPeriods: uint32(sc.Inactive), InstrumentCardinalityLimit: uint32(sc.InstLim), AggregatorCardinalityLimit: uint32(sc.AggLim)}
	opts := []sdk.Option{sdk.WithResource(resource.Empty()), sdk.WithPerformance(perf)}
	for i, rd := range sc.Readers {
		mr := sdk.NewManualReader(fmt.Sprint("r", i+1))
		w.readers = append(w.readers, mr)
		opts = append(opts, sdk.WithReader(mr, rd.options()...))
	}
	mp := sdk.NewMeterProvider(opts...)
	w.meter = mp.Meter("m")
	w.h = make([][]any, len(sc.Threads)+1)
	for t := range w.h {
		w.h[t] = make([]any, len(sc.Insts))
	}
	if !sc.Late {
		for i, in := range sc.Insts {
			x := w.newHandle(in)
			for t := range w.h {
				w.h[t][i] = x
			}
		}
	}
	for _, op := range sc.Pre {
		w.do(0, op)
	}
	left := len(sc.Threads)
	for t, ops := range sc.Threads {
		t, ops := t, ops
		vsched.Go(func() {
			for _, op := range ops {
				w.do(t+1, op)
				vsched.Point()
			}
			left--
		})
	}
	vsched.Block(func() bool { return left == 0 })
	for n := 0; n < sc.Tail; n++ {
		for r := range sc.Readers {
			w.do(0, Op{O: "c", R: r + 1})
		}
	}
	w.log("end")
}

func runOne(sc *Scenario, o vsched.Options, name string) *Trace {
	w := &world{sc: sc, streams: sc.streams(), collOf: map[int]int{}, used: map[int][]func(){}}
	res := vsched.Run(o, w.main)
	if res.Problem != "" {
		w.log(res.Problem)
	}
	return &Trace{Sc: sc, Streams: w.streams, Sched: name, SSeed: o.Seed, Ev: w.ev, Detail: res.Detail}
}

func main() {
	fams := flag.String("fam", "sum", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 1000, "scenarios")
	per := flag.Int("per", 8, "schedules per scenario")
	secs := flag.Float64("secs", 10, "time limit")
	outp := flag.String("out", "conc.ndjson", "")
	fineOK := flag.Bool("fine", true, "")
	replay := flag.String("replay", "", "replay a recorded trace's scenario")
	flag.Parse()
	otel.SetErrorHandler(quiet{})
	vsched.Watchdog(60 * time.Second)

	f, err := os.Create(*outp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	bw := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(bw)
	ff, err := os.Create(*outp + ".full")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	bwFull := bufio.NewWriterSize(ff, 1<<20)
	encFull := json.NewEncoder(bwFull)
	seen := map[uint64]bool{}
	runs, kept := 0, 0
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	emit := func(t *Trace) {
		runs++
		h := fnv.New64a()
		json.NewEncoder(h).Encode([]any{t.Sc, t.Ev})
		if seen[h.Sum64()] {
			return
		}
		seen[h.Sum64()] = true
		kept++
		enc.Encode(map[string]any{"fam": t.Sc.Fam, "late": t.Sc.Late, "instlim": t.Sc.InstLim, "inactive": t.Sc.Inactive, "streams": t.Streams, "ev": t.Ev})
		encFull.Encode(t)
	}
	options := func(k int, s int64) (vsched.Options, string) {
		o := vsched.Options{Seed: s}
		switch k % 4 {
		case 0:
			o.CoarseP = 0.4
			return o, "coarse"
		case 1:
			o.CoarseP, o.FineP = 0.2, 0.1
			return o, "fine"
		case 2:
			o.PCT, o.Horizon = 3, 150
			return o, "pct"
		}
		o.PCT, o.Horizon, o.FineP = 4, 900, 1
		return o, "pctfine"
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var t Trace
		if err := json.Unmarshal(b, &t); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for k := 0; k < 4000 && time.Now().Before(deadline); k++ {
			s := t.SSeed
			if k >= 4 {
				s = t.SSeed + int64(k)
			}
			o, name := options(k, s)
			emit(runOne(t.Sc, o, name))
		}
	} else {
		fl := strings.Split(*fams, ",")
		for i := 0; i < *n && time.Now().Before(deadline); i++ {
			sc := gen(fl[i%len(fl)], *seed*1000003+int64(i))
			for k := 0; k < *per; k++ {
				o, name := options(k, *seed*7919+int64(i)*131+int64(k))
				if !*fineOK {
					o.FineP = 0
				}
				t := runOne(sc, o, name)
				emit(t)
			}
		}
	}
	bw.Flush()
	f.Close()
	bwFull.Flush()
	ff.Close()
	fmt.Fprintf(os.Stderr, "{\"runs\":%d,\"histories\":%d}\n", runs, kept)
}
