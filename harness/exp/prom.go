package main

import (
	"context"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"time"

	histostruct "github.com/lightstep/go-expohisto/structure"
	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/prom"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

// promSeries is a series of a scrape.
type promSeries struct {
	labels map[string]string
	le     string
	v      string
}

func scrape(addr string) (map[string][]promSeries, map[string]string, map[string]string, error) {
	c := http.Client{Timeout: 10 * time.Second}
	rsp, err := c.Get("http://" + addr + "/metrics")
	if err != nil {
		return nil, nil, nil, err
	}
	defer rsp.Body.Close()
	b, err := io.ReadAll(rsp.Body)
	if err != nil {
		return nil, nil, nil, err
	}
	out, types, helps := map[string][]promSeries{}, map[string]string{}, map[string]string{}
	for _, line := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(line, "# TYPE ") {
			f := strings.Fields(line)
			types[f[2]] = f[3]
		}
		if h, ok := strings.CutPrefix(line, "# HELP "); ok {
			name, text, _ := strings.Cut(h, " ")
			helps[name] = text
		}
		if line == "" || line[0] == '#' {
			continue
		}
		i := strings.LastIndexByte(line, ' ')
		s := promSeries{labels: map[string]string{}, v: line[i+1:]}
		name := line[:i]
		if j := strings.IndexByte(name, '{'); j >= 0 {
			for _, kv := range strings.Split(name[j+1:len(name)-1], "\",") {
				k := strings.SplitN(kv, "=\"", 2)
				v := strings.TrimSuffix(k[1], "\"")
				if k[0] == "le" {
					s.le = v
				} else {
					s.labels[k[0]] = v
				}
			}
			name = name[:j]
		}
		out[name] = append(out[name], s)
	}
	return out, types, helps, nil
}

func labels(m map[string]string) []M {
	out := []M{}
	for k, v := range m {
		if k != "job" && k != "instance" {
			out = append(out, M{"k": k, "v": v})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i]["k"].(string) < out[j]["k"].(string) })
	return out
}

func pnum(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return f
}

func (w *world) prom() {
	w.telemetry()
	var exp sdk.PushExporter
	var addr string
	selfM, selfS := !w.one(5), !w.one(5)
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		addr = l.Addr().String()
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		cfg := prom.NewConfig(prom.WithPort(port))
		cfg.SelfMetrics, cfg.SelfSpans = selfM, selfS
		exp, err = prom.NewExporter(context.Background(), cfg)
		if err == nil {
			break
		}
		if try > 20 {
			panic(err)
		}
	}
	w.cfg = M{"sig": "metrics", "hd": M{}, "enc": "", "metrics": selfM, "spans": selfS}
	w.srv.start(&w.ev, w.prog())
	cumul := func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.CumulativeTemporality }
	rd := sdk.NewManualReader("in")
	res := resource.NewSchemaless(attribute.String("r1", w.pick("a", "b")), attribute.String("service.name", "svc"))
	// many buckets
	big := w.one(8)
	var ac aggregator.Config
	ac.Histogram = histostruct.NewConfig(histostruct.WithMaxSize(map[bool]int32{false: 160, true: 161 + int32(w.r.Intn(200))}[big]))
	mp := sdk.NewMeterProvider(sdk.WithReader(rd, view.WithDefaultAggregationTemporalitySelector(cumul),
		view.WithDefaultAggregationConfigSelector(func(sdkinstrument.Kind) (aggregator.Config, aggregator.Config) { return ac, ac })), sdk.WithResource(res))
	m := mp.Meter("m")
	if w.one(2) {
		// nothing tells the scopes apart in a scrape but the names of their metrics
		c2, _ := mp.Meter("m2", metric.WithInstrumentationVersion("v")).Int64Counter("ci2", metric.WithDescription("of another scope"))
		c2.Add(context.Background(), int64(w.r.Intn(5)))
	}
	ci, _ := m.Int64Counter("ci", metric.WithDescription(w.pick("", "a counter")))
	cf, _ := m.Float64Counter("cf")
	ui, _ := m.Int64UpDownCounter("ui")
	uf, _ := m.Float64UpDownCounter("uf")
	gi, _ := m.Int64Gauge("gi")
	gf, _ := m.Float64Gauge("gf")
	mi, _ := m.Int64Histogram("mi", metric.WithDescription(`{"aggregation":"minmaxsumcount","description":"an mmsc"}`))
	mf, _ := m.Float64Histogram("mf", metric.WithDescription(`{"aggregation":"minmaxsumcount"}`))
	hi, _ := m.Int64Histogram("hi", metric.WithDescription(w.pick("", "a histogram")))
	hf, _ := m.Float64Histogram("hf")
	// these also take negative values
	hu, _ := m.Int64UpDownCounter("hu", metric.WithDescription(w.pick(
		`{"aggregation":"histogram"}`, `{"aggregation":"histogram","config":{"histogram":{"max_size":4}}}`, `{"aggregation":"histogram","config":{"histogram":{"max_size":13}}}`)))
	hv, _ := m.Float64UpDownCounter("hv", metric.WithDescription(w.pick(
		`{"aggregation":"histogram"}`, `{"aggregation":"histogram","config":{"histogram":{"max_size":4}}}`, `{"aggregation":"histogram","config":{"histogram":{"max_size":13}}}`)))
	ctx := context.Background()
	vals := map[string][]float64{} // what the histograms were given
	// factors of two between values, which decide the scale
	span := []int{1, 1, 4, 8, 40, 150, 300, 1800}[w.r.Intn(8)]
	val := func(low int) float64 {
		// not on a bucket boundary
		v := float64([]int{3, 5, 7, 9, 11, 13}[w.r.Intn(6)])
		if low == 0 {
			// integers
			v = math.Ldexp(v, w.r.Intn(min(span, 40)))
		} else {
			v = math.Ldexp(v, w.r.Intn(span)-span/2)
		}
		if w.one(8) {
			return 0
		}
		if low < 0 && w.one(12) {
			return []float64{math.MaxFloat64, 1.1e308, 1.5e308, 1.6e308, 3e-308}[w.r.Intn(5)]
		}
		return v
	}
	var buf data.Metrics
	w.emit(M{"e": "mode", "m": "ok"})
	for n := 1 + w.r.Intn(4); n > 0; n-- {
		for k := w.r.Intn(12); k > 0; k-- {
			var kv []attribute.KeyValue
			key := ""
			if w.one(2) {
				key = w.pick("x", "y")
				kv = append(kv, attribute.String("a", key))
				if key == "x" {
					kv = append(kv, attribute.Int("n", 7), attribute.String("b.c", "z"))
				} else {
					kv = append(kv, attribute.Bool("ok", true), attribute.Float64("f", 0.5), attribute.IntSlice("l", []int{1, 2}))
				}
			}
			at := metric.WithAttributes(kv...)
			sign := float64(w.r.Intn(2)*2 - 1)
			switch w.r.Intn(14) {
			case 12:
				v := w.r.Intn(9)
				mi.Record(ctx, int64(v), at)
				vals["mi/"+key] = append(vals["mi/"+key], float64(v))
			case 13:
				v := float64(w.r.Intn(9)) / 4
				mf.Record(ctx, v, at)
				vals["mf/"+key] = append(vals["mf/"+key], v)
			case 0:
				ci.Add(ctx, int64(w.r.Intn(9)), at)
			case 1:
				cf.Add(ctx, float64(w.r.Intn(9))/4, at)
			case 2:
				ui.Add(ctx, int64(w.r.Intn(9)-4), at)
			case 3:
				uf.Add(ctx, float64(w.r.Intn(9)-4)/4, at)
			case 4:
				gi.Record(ctx, int64(w.r.Intn(9)-4), at)
			case 5:
				gf.Record(ctx, float64(w.r.Intn(9)-4)/4, at)
			case 6, 7:
				v := val(0)
				hi.Record(ctx, int64(v), at)
				vals["hi/"+key] = append(vals["hi/"+key], v)
			case 8, 9:
				v := val(-20)
				hf.Record(ctx, v, at)
				vals["hf/"+key] = append(vals["hf/"+key], v)
			case 10:
				v := sign * val(0)
				hu.Add(ctx, int64(v), at)
				vals["hu/"+key] = append(vals["hu/"+key], v)
			case 11:
				v := sign * val(-20)
				hv.Add(ctx, v, at)
				vals["hv/"+key] = append(vals["hv/"+key], v)
			}
		}
		if big {
			for k := w.r.Intn(400); k > 0; k-- {
				v := math.Exp2(7 * w.r.Float64())
				hf.Record(ctx, v)
				vals["hf/"] = append(vals["hf/"], v)
			}
		}
		buf = rd.Produce(&buf)
		want := []M{}
		npts := 0
		for _, s := range buf.Scopes {
			for _, in := range s.Instruments {
				nk := in.Descriptor.NumberKind
				for _, p := range in.Points {
					npts++
					ls := map[string]string{"r1": "", "service_name": "svc"}
					rv, _ := res.Set().Value("r1")
					ls["r1"] = rv.AsString()
					av, _ := p.Attributes.Value("a")
					if p.Attributes.HasValue("a") {
						ls["a"] = av.AsString()
						if av.AsString() == "x" {
							ls["n"], ls["b_c"] = "7", "z"
						} else {
							ls["ok"], ls["f"], ls["l"] = "true", "0.5", "[1,2]"
						}
					}
					x := M{"name": in.Descriptor.Name, "help": in.Descriptor.Description, "labels": labels(ls), "v": "", "count": 0, "top": false, "h": M{"zero": 0, "pos": []int{}, "neg": []int{}}}
					switch a := p.Aggregation.(type) {
					case aggregation.Histogram:
						x["type"] = "histogram"
						x["v"] = fnum(a.Sum().CoerceToFloat64(nk))
						x["count"] = int(a.Count())
						// the last bucket may have no finite bound
						max, sc := a.Max().CoerceToFloat64(nk), -a.Scale()
						x["top"] = max > 1e308 || (max > 0 && sc >= 0 && ((int64(math.Ilogb(max))>>sc)+1)<<sc >= 1024)
						x["h"] = M{"zero": int(a.ZeroCount()), "pos": inBuckets(a.Positive())["c"], "neg": inBuckets(a.Negative())["c"]}
					case aggregation.MinMaxSumCount:
						x["type"] = "mmsc"
						x["v"] = fnum(a.Sum().CoerceToFloat64(nk))
						x["count"] = int(a.Count())
					case aggregation.Sum:
						x["type"] = "gauge"
						if a.IsMonotonic() {
							x["type"] = "counter"
						}
						x["v"] = fnum(a.Sum().CoerceToFloat64(nk))
					case aggregation.Gauge:
						x["type"] = "gauge"
						x["v"] = fnum(a.Gauge().CoerceToFloat64(nk))
					}
					want = append(want, x)
				}
			}
		}
		op := exp.ExportMetrics
		if w.one(3) {
			op = exp.ForceFlushMetrics
		}
		err := op(ctx, buf)
		got, types, helps, serr := scrape(addr)
		if serr != nil {
			w.emit(M{"e": "fail", "what": serr.Error()})
			return
		}
		have := []M{}
		for _, name := range []string{"ci", "cf", "ui", "uf", "gi", "gf", "ci2"} {
			for _, s := range got[name] {
				have = append(have, M{"name": name, "help": helps[name], "labels": labels(s.labels), "type": types[name], "v": fnum(pnum(s.v)), "count": 0, "cum": []int{}, "le": []int{}, "vals": []int{}})
			}
		}
		for _, name := range []string{"hi", "hf", "hu", "hv", "mi", "mf"} {
			for _, s := range got[name+"_count"] {
				x := M{"name": name, "help": helps[name], "labels": labels(s.labels), "type": types[name], "count": int(pnum(s.v)), "v": ""}
				id := fmt.Sprint(x["labels"])
				for _, t := range got[name+"_sum"] {
					if fmt.Sprint(labels(t.labels)) == id {
						x["v"] = fnum(pnum(t.v))
					}
				}
				cum, les := []int{}, []float64{}
				for _, t := range got[name+"_bucket"] {
					if fmt.Sprint(labels(t.labels)) == id {
						cum = append(cum, int(pnum(t.v)))
						les = append(les, pnum(t.le))
					}
				}
				x["cum"] = cum
				if name[0] == 'm' && x["type"] == "histogram" {
					x["type"] = "mmsc"
				}
				x["le"], x["vals"] = ranks(les, vals[name+"/"+s.labels["a"]])
				have = append(have, x)
			}
		}
		w.emit(M{"e": "scrape", "npts": npts, "want": want, "got": have, "state": stateOf(err)})
		w.observe("metric")
	}
	buf = rd.Produce(&buf)
	n := 0
	for _, s := range buf.Scopes {
		for _, in := range s.Instruments {
			n += len(in.Points)
		}
	}
	w.emit(M{"e": "down", "npts": n, "ok": exp.ShutdownMetrics(ctx, buf) == nil})
	w.observe("metric")
}

// ranks replaces numbers by their position in the order of all of them.
func ranks(a, b []float64) ([]int, []int) {
	all := append(append([]float64{}, a...), b...)
	sort.Float64s(all)
	r := func(x []float64) []int {
		out := []int{}
		for _, v := range x {
			out = append(out, sort.SearchFloat64s(all, v))
		}
		return out
	}
	return r(a), r(b)
}
