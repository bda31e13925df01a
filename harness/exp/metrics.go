package main

import (
	"context"
	"strconv"
	"sync"
	"time"

	histostruct "github.com/lightstep/go-expohisto/structure"
	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/otlp/otelcol"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

// source is a meter provider whose collections are exported.
type source struct {
	rd   *sdk.ManualReader
	mp   *sdk.MeterProvider
	step func() // makes some measurements
	buf  data.Metrics
}

func numStr(n number.Number, k number.Kind) string {
	if k == number.Int64Kind {
		return strconv.FormatInt(number.ToInt64(n), 10)
	}
	return fnum(number.ToFloat64(n))
}

func inBuckets(b aggregation.Buckets) M {
	c := []int{}
	for i := uint32(0); i < b.Len(); i++ {
		c = append(c, int(b.At(i)))
	}
	return M{"off": int(b.Offset()), "c": c}
}

func points(d data.Metrics) []M {
	out := []M{}
	for _, s := range d.Scopes {
		for _, in := range s.Instruments {
			nk := in.Descriptor.NumberKind
			for _, p := range in.Points {
				m := M{"res": inAttrs(d.Resource.Attributes()), "sc": M{"n": s.Library.Name, "v": s.Library.Version, "s": s.Library.SchemaURL},
					"name": in.Descriptor.Name, "unit": string(in.Descriptor.Unit), "desc": in.Descriptor.Description,
					"attrs": inAttrs(p.Attributes.ToSlice()), "start": ns(uint64(p.Start.UnixNano())), "end": ns(uint64(p.End.UnixNano())),
					"num": map[number.Kind]string{number.Int64Kind: "i", number.Float64Kind: "f"}[nk], "v": "", "h": noHist()}
				m["tempo"] = map[aggregation.Temporality]string{aggregation.CumulativeTemporality: "cum", aggregation.DeltaTemporality: "delta"}[p.Temporality]
				switch a := p.Aggregation.(type) {
				case aggregation.Histogram:
					m["agg"] = "hist"
					m["h"] = M{"sum": numStr(a.Sum(), nk), "count": int(a.Count()), "min": numStr(a.Min(), nk), "max": numStr(a.Max(), nk),
						"zero": int(a.ZeroCount()), "scale": int(a.Scale()), "pos": inBuckets(a.Positive()), "neg": inBuckets(a.Negative()), "nb": 0}
				case aggregation.MinMaxSumCount:
					m["agg"] = "mmsc"
					h := noHist()
					h["sum"], h["count"], h["min"], h["max"] = numStr(a.Sum(), nk), int(a.Count()), numStr(a.Min(), nk), numStr(a.Max(), nk)
					m["h"] = h
				case aggregation.Sum:
					m["agg"] = "nsum"
					if a.IsMonotonic() {
						m["agg"] = "msum"
					}
					m["v"] = numStr(a.Sum(), nk)
				case aggregation.Gauge:
					m["agg"] = "gauge"
					m["v"] = numStr(a.Gauge(), nk)
				}
				out = append(out, m)
			}
		}
	}
	return out
}

func (w *world) newSource(res *resource.Resource) *source {
	tempos := map[sdkinstrument.Kind]aggregation.Temporality{}
	for k := sdkinstrument.Kind(0); k < sdkinstrument.NumKinds; k++ {
		tempos[k] = aggregation.CumulativeTemporality
		if w.one(2) {
			tempos[k] = aggregation.DeltaTemporality
		}
	}
	// many buckets
	big := w.one(10)
	var ac aggregator.Config
	ac.Histogram = histostruct.NewConfig(histostruct.WithMaxSize(map[bool]int32{false: 160, true: 161 + int32(w.r.Intn(200))}[big]))
	opts := []view.Option{
		view.WithDefaultAggregationConfigSelector(func(sdkinstrument.Kind) (aggregator.Config, aggregator.Config) { return ac, ac }),
		view.WithDefaultAggregationTemporalitySelector(func(k sdkinstrument.Kind) aggregation.Temporality { return tempos[k] }),
		view.WithClause(view.MatchInstrumentName("mm.i"), view.WithAggregation(aggregation.MinMaxSumCountKind)),
		view.WithClause(view.MatchInstrumentName("mm.f"), view.WithAggregation(aggregation.MinMaxSumCountKind)),
	}
	s := &source{rd: sdk.NewManualReader("in")}
	s.mp = sdk.NewMeterProvider(sdk.WithReader(s.rd, opts...), sdk.WithResource(res))
	var steps []func()
	ctx := context.Background()
	nm := 1 + w.r.Intn(3)
	for i := 0; i < nm; i++ {
		m := s.mp.Meter(w.pick("m1", "m2", "m3"), metric.WithInstrumentationVersion(w.pick("", "v1", "v2")), metric.WithSchemaURL(w.schema()))
		for n := w.r.Intn(4); n > 0; n-- {
			desc, unit := metric.WithDescription(w.pick("", "d1", "d2")), metric.WithUnit(w.pick("", "ms", "1"))
			at := func() metric.MeasurementOption { return metric.WithAttributes(w.attrs(3)...) }
			iv := func() int64 {
				if w.one(8) {
					return []int64{1 << 40, 1 << 51, 123456789, 1 << 20}[w.r.Intn(4)]
				}
				return int64(w.r.Intn(9))
			}
			sv := func() int64 {
				if w.one(2) {
					return -iv()
				}
				return iv()
			}
			fv := func() float64 { return float64(iv()) / 4 }
			sf := func() float64 { return float64(sv()) / 8 }
			switch w.r.Intn(14) {
			case 0:
				c, _ := m.Int64Counter("c.i", desc, unit)
				steps = append(steps, func() { c.Add(ctx, iv(), at()) })
			case 1:
				c, _ := m.Float64Counter("c.f", desc, unit)
				steps = append(steps, func() { c.Add(ctx, fv(), at()) })
			case 2:
				c, _ := m.Int64UpDownCounter(w.pick("u.i", "u.j"), w.hint(), unit)
				steps = append(steps, func() { c.Add(ctx, sv(), at()) })
			case 3:
				c, _ := m.Float64UpDownCounter(w.pick("u.f", "u.g"), w.hint(), unit)
				steps = append(steps, func() { c.Add(ctx, sf(), at()) })
			case 4, 5:
				c, _ := m.Int64Histogram(w.pick("h.i", "h.j"), desc, unit)
				steps = append(steps, func() { c.Record(ctx, sv(), at()) }, func() { c.Record(ctx, sv()) }, func() { c.Record(ctx, sv()) })
			case 6, 7:
				c, _ := m.Float64Histogram(w.pick("h.f", "h.g"), desc, unit)
				steps = append(steps, func() { c.Record(ctx, sf(), at()) }, func() { c.Record(ctx, sf()) }, func() { c.Record(ctx, sf()) })
				if big {
					steps = append(steps, func() {
						for k := w.r.Intn(300); k > 0; k-- {
							c.Record(ctx, float64(128+w.r.Intn(8000))/128)
						}
					})
				}
			case 8:
				c, _ := m.Int64Gauge("g.i", desc, unit)
				steps = append(steps, func() { c.Record(ctx, sv(), at()) })
			case 9:
				c, _ := m.Float64Gauge("g.f", desc, unit)
				steps = append(steps, func() { c.Record(ctx, sf(), at()) })
			case 10:
				c, _ := m.Int64Histogram(w.pick("mm.i", "ga.i"), w.hint(), unit)
				steps = append(steps, func() { c.Record(ctx, sv(), at()) }, func() { c.Record(ctx, sv()) })
			case 11:
				c, _ := m.Float64Histogram("mm.f", desc, unit)
				steps = append(steps, func() { c.Record(ctx, sf(), at()) }, func() { c.Record(ctx, sf()) })
			case 12:
				a := at()
				v := iv()
				switch w.r.Intn(3) {
				case 0:
					m.Int64ObservableCounter("oc.i", desc, unit, metric.WithInt64Callback(func(_ context.Context, o metric.Int64Observer) error { v += 2; o.Observe(v, a); return nil }))
				case 1:
					m.Int64ObservableUpDownCounter("ou.i", desc, unit, metric.WithInt64Callback(func(_ context.Context, o metric.Int64Observer) error { v -= 2; o.Observe(v, a); return nil }))
				case 2:
					m.Int64ObservableGauge("og.i", desc, unit, metric.WithInt64Callback(func(_ context.Context, o metric.Int64Observer) error { v -= 2; o.Observe(v, a); return nil }))
				}
			case 13:
				a := at()
				v := fv()
				switch w.r.Intn(3) {
				case 0:
					m.Float64ObservableCounter("oc.f", desc, unit, metric.WithFloat64Callback(func(_ context.Context, o metric.Float64Observer) error { v += 2.5; o.Observe(v, a); return nil }))
				case 1:
					m.Float64ObservableUpDownCounter("ou.f", desc, unit, metric.WithFloat64Callback(func(_ context.Context, o metric.Float64Observer) error { v -= 2.5; o.Observe(v, a); return nil }))
				case 2:
					m.Float64ObservableGauge("og.f", desc, unit, metric.WithFloat64Callback(func(_ context.Context, o metric.Float64Observer) error { v -= 2.5; o.Observe(v, a); return nil }))
				}
			}
		}
	}
	s.step = func() {
		for n := w.r.Intn(8); n > 0 && len(steps) > 0; n-- {
			steps[w.r.Intn(len(steps))]()
		}
	}
	return s
}

func (w *world) metrics() {
	w.telemetry()
	hd, hdm := w.headers()
	hd["x-prog"] = w.prog()
	cfg := otelcol.NewConfig(otelcol.WithEndpoint(w.srv.addr), otelcol.WithInsecure(), otelcol.WithHeaders(hd))
	enc := "zstd"
	switch w.r.Intn(4) {
	case 0:
		enc = "gzip"
		otelcol.WithCompressor("gzip")(&cfg)
	case 1:
		enc = ""
		otelcol.WithCompressor("none")(&cfg)
	}
	cfg.SelfMetrics, cfg.SelfSpans = !w.one(4), !w.one(4)
	n := w.r.Intn(3)
	w.split = n < 2
	switch n {
	case 0:
		cfg.Batcher.SendBatchSize = uint32(1 + w.r.Intn(4))
		cfg.Batcher.SendBatchMaxSize = cfg.Batcher.SendBatchSize + uint32(w.r.Intn(3))
	case 1:
		cfg.Batcher.SendBatchSize = uint32(1 + w.r.Intn(20))
		cfg.Batcher.SendBatchMaxSize = cfg.Batcher.SendBatchSize + uint32(w.r.Intn(10))
		cfg.Batcher.Timeout = time.Duration(w.r.Intn(4)) * time.Millisecond
	}
	w.cfg = M{"sig": "metrics", "hd": hdm, "enc": enc, "metrics": cfg.SelfMetrics, "spans": cfg.SelfSpans}
	if w.impat = w.one(12); w.impat {
		cfg.Exporter.TimeoutSettings.Timeout = 10 * time.Millisecond
	}
	w.srv.start(&w.ev, w.prog())
	exp, err := otelcol.NewExporter(context.Background(), cfg)
	if err != nil {
		w.emit(M{"e": "fail", "what": err.Error()})
		return
	}
	ress := w.resources()
	if w.one(2) {
		ress = ress[:1]
	}
	var srcs []*source
	for n := 1 + w.r.Intn(3); n > 0; n-- {
		srcs = append(srcs, w.newSource(ress[w.r.Intn(len(ress))]))
	}
	w.setMode("ok")
	for n := 1 + w.r.Intn(4); n > 0; n-- {
		if w.one(3) {
			w.setMode(w.pick("ok", "ok", "slow", "error", "timeout", "cancel"))
		}
		// prepare, then export concurrently
		var run []func()
		for _, s := range srcs {
			if w.one(3) {
				continue
			}
			s.step()
			last := time.Now().UnixNano()
			for time.Now().UnixNano() == last {
			}
			s.buf = s.rd.Produce(&s.buf)
			id := w.calls
			w.calls++
			in := points(s.buf)
			op := exp.ExportMetrics
			if w.one(3) {
				op = exp.ForceFlushMetrics
			}
			run = append(run, func() {
				ctx, cancel := w.context()
				defer cancel()
				w.emit(M{"e": "call", "id": id, "in": in})
				err := op(ctx, s.buf)
				w.emit(M{"e": "ret", "id": id, "state": stateOf(err)})
			})
		}
		w.together(run)
		w.srv.idle()
		w.observe("metric")
	}
	w.setMode("ok")
	s := srcs[0]
	s.step()
	s.buf = s.rd.Produce(&s.buf)
	w.emit(M{"e": "call", "id": w.calls, "in": points(s.buf)})
	err = exp.ShutdownMetrics(context.Background(), s.buf)
	w.emit(M{"e": "ret", "id": w.calls, "state": stateOf(err)})
	w.observe("metric")
	w.emit(M{"e": "shut", "ok": err == nil})
}

func (w *world) together(run []func()) {
	var wg sync.WaitGroup
	for _, f := range run {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

func (w *world) schema() string {
	if w.split {
		return ""
	}
	return w.pick("", "", "http://x/1")
}

// hint is a description that may choose the aggregation.
func (w *world) hint() metric.InstrumentOption {
	return metric.WithDescription(w.pick("", "d1", `{"aggregation":"histogram"}`, `{"aggregation":"minmaxsumcount"}`,
		`{"aggregation":"gauge","description":"d2"}`, `{"aggregation":"histogram","description":"d3","config":{"histogram":{"max_size":4}}}`))
}
