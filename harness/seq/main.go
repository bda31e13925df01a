// seq runs random sequential programs against the metrics SDK through its
// public API and writes what it did and what the SDK returned, one program
// per line, for validation against spec/MetricSDK.tla.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	histostruct "github.com/lightstep/go-expohisto/structure"
	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
)

type M = map[string]any

// ---- configuration, as seen by the specification ----

type Cfg struct {
	MX  int `json:"mx"`
	Lim int `json:"lim"`
}
type Lib struct {
	N string `json:"n"`
	V string `json:"v"`
	S string `json:"s"`
}
type Keys struct {
	Has bool     `json:"has"`
	L   []string `json:"l"`
}
type Ren struct {
	T string `json:"t"`
	S string `json:"s"`
}
type Clause struct {
	Lib   Lib      `json:"lib"`
	Name  string   `json:"name"`
	HasRe bool     `json:"hasre"`
	Re    []string `json:"re"`
	Kind  string   `json:"kind"`
	Num   string   `json:"num"`
	Keys  Keys     `json:"keys"`
	Ren   Ren      `json:"ren"`
	Desc  string   `json:"desc"`
	Agg   string   `json:"agg"`
	Cfg   Cfg      `json:"cfg"`
}
type Reader struct {
	Agg                      []string `json:"agg"`
	Tempo                    []string `json:"tempo"`
	Cfg                      [][]Cfg  `json:"cfg"`
	Clauses                  []Clause `json:"clauses"`
	setAgg, setTempo, setCfg bool

	// sel is the library's own selector, where Tempo says what that gives.
	sel func(sdkinstrument.Kind) aggregation.Temporality
}
type Perf struct {
	Inactive  int    `json:"inactive"`
	InstLim   int    `json:"instlim"`
	AggLim    int    `json:"agglim"`
	AttrLim   int    `json:"attrlim"`
	IgnoreCol bool   `json:"ignorecol"`
	Proc      string `json:"proc"`
}
type Hint struct {
	OK    bool   `json:"ok"`
	Desc  string `json:"desc"`
	Agg   string `json:"agg"`
	Tempo string `json:"tempo"`
	MX    int    `json:"mx"`
	Lim   int    `json:"lim"`
}
type Desc struct {
	Name string `json:"name"`
	Desc string `json:"desc"`
	Unit string `json:"unit"`
	Kind string `json:"kind"`
	Num  string `json:"num"`
}
type Attr struct {
	K string   `json:"k"`
	T string   `json:"t"`
	L []string `json:"l"`
}

var kinds = []string{"sc", "su", "sg", "sh", "ac", "au", "ag"}

var sdkKinds = map[string]sdkinstrument.Kind{
	"sc": sdkinstrument.SyncCounter, "su": sdkinstrument.SyncUpDownCounter, "sg": sdkinstrument.SyncGauge, "sh": sdkinstrument.SyncHistogram,
	"ac": sdkinstrument.AsyncCounter, "au": sdkinstrument.AsyncUpDownCounter, "ag": sdkinstrument.AsyncGauge,
}

func kindName(k sdkinstrument.Kind) string {
	for n, v := range sdkKinds {
		if v == k {
			return n
		}
	}
	return "?"
}

var aggs = map[string]aggregation.Kind{
	"undef": aggregation.UndefinedKind, "drop": aggregation.DropKind, "anysum": aggregation.AnySumKind, "mono": aggregation.MonotonicSumKind,
	"nonmono": aggregation.NonMonotonicSumKind, "gauge": aggregation.GaugeKind, "hist": aggregation.HistogramKind, "mmsc": aggregation.MinMaxSumCountKind,
	"bad": aggregation.Kind(42),
}
var tempos = map[string]aggregation.Temporality{"c": aggregation.CumulativeTemporality, "d": aggregation.DeltaTemporality, "u": aggregation.UndefinedTemporality, "bad": aggregation.Temporality(9)}

func acfg(c Cfg) aggregator.Config {
	r := aggregator.Config{CardinalityLimit: uint32(c.Lim)}
	if c.MX != 0 {
		r.Histogram = histostruct.NewConfig(histostruct.WithMaxSize(int32(c.MX)))
	}
	return r
}

func (rd *Reader) options() []view.Option {
	var o []view.Option
	if rd.setAgg {
		o = append(o, view.WithDefaultAggregationKindSelector(func(k sdkinstrument.Kind) aggregation.Kind { return aggs[rd.Agg[idx(kindName(k))]] }))
	}
	if rd.sel != nil {
		o = append(o, view.WithDefaultAggregationTemporalitySelector(rd.sel))
	} else if rd.setTempo {
		o = append(o, view.WithDefaultAggregationTemporalitySelector(func(k sdkinstrument.Kind) aggregation.Temporality { return tempos[rd.Tempo[idx(kindName(k))]] }))
	}
	if rd.setCfg {
		o = append(o, view.WithDefaultAggregationConfigSelector(func(k sdkinstrument.Kind) (aggregator.Config, aggregator.Config) {
			c := rd.Cfg[idx(kindName(k))]
			return acfg(c[0]), acfg(c[1])
		}))
	}
	for i := range rd.Clauses {
		c := rd.Clauses[i]
		var co []view.ClauseOption
		if c.Lib != (Lib{}) {
			co = append(co, view.MatchInstrumentationLibrary(instrumentation.Scope{Name: c.Lib.N, Version: c.Lib.V, SchemaURL: c.Lib.S}))
		}
		if c.Name != "" {
			co = append(co, view.MatchInstrumentName(c.Name))
		}
		if c.HasRe {
			co = append(co, view.MatchInstrumentNameRegexp(regexp.MustCompile("^("+strings.Join(c.Re, "|")+")$")))
		}
		if c.Kind != "" {
			co = append(co, view.MatchInstrumentKind(sdkKinds[c.Kind]))
		}
		if c.Num != "" {
			co = append(co, view.MatchNumberKind(map[string]number.Kind{"i": number.Int64Kind, "f": number.Float64Kind}[c.Num]))
		}
		if c.Keys.Has {
			ks := []attribute.Key{}
			for _, k := range c.Keys.L {
				ks = append(ks, attribute.Key(k))
			}
			co = append(co, view.WithKeys(ks))
		}
		switch c.Ren.T {
		case "const":
			co = append(co, view.WithName(c.Ren.S))
		case "suffix":
			co = append(co, view.WithRenameFunction(func(n string) string { return n + c.Ren.S }))
		}
		if c.Desc != "" {
			co = append(co, view.WithDescription(c.Desc))
		}
		if c.Agg != "undef" {
			co = append(co, view.WithAggregation(aggs[c.Agg]))
		}
		if c.Cfg != (Cfg{}) {
			co = append(co, view.WithAggregatorConfig(acfg(c.Cfg)))
		}
		o = append(o, view.WithClause(co...))
	}
	return o
}

func idx(k string) int {
	for i, x := range kinds {
		if x == k {
			return i
		}
	}
	return 0
}

type proc string

// procbuf is used again by every call: what a processor returned belongs to it.
var procbuf = make([]attribute.KeyValue, 0, 64)

func (p proc) Process(_ context.Context, in []attribute.KeyValue) []attribute.KeyValue {
	out := procbuf[:0]
	for _, kv := range in {
		if p == "drop" && kv.Key == "a" {
			continue
		}
		out = append(out, kv)
	}
	if p == "add" {
		out = append(out, attribute.String("proc", "p"))
	}
	return out
}

// ---- attributes ----

func kvOf(a Attr) attribute.KeyValue {
	k := attribute.Key(a.K)
	pi := func(s string) int64 { v, _ := strconv.ParseInt(s, 10, 64); return v }
	pf := func(s string) float64 { v, _ := strconv.ParseFloat(s, 64); return v }
	switch a.T {
	case "s":
		return k.String(a.L[0])
	case "i":
		return k.Int64(pi(a.L[0]))
	case "f":
		return k.Float64(pf(a.L[0]))
	case "b":
		return k.Bool(a.L[0] == "true")
	case "S":
		return k.StringSlice(append([]string{}, a.L...))
	case "I":
		var x []int64
		for _, s := range a.L {
			x = append(x, pi(s))
		}
		return k.Int64Slice(x)
	case "F":
		var x []float64
		for _, s := range a.L {
			x = append(x, pf(s))
		}
		return k.Float64Slice(x)
	case "B":
		var x []bool
		for _, s := range a.L {
			x = append(x, s == "true")
		}
		return k.BoolSlice(x)
	}
	return attribute.KeyValue{Key: k}
}

func attrOf(kv attribute.KeyValue) Attr {
	a := Attr{K: string(kv.Key), L: []string{}}
	fs := func(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }
	switch kv.Value.Type() {
	case attribute.STRING:
		a.T, a.L = "s", []string{kv.Value.AsString()}
	case attribute.INT64:
		a.T, a.L = "i", []string{fmt.Sprint(kv.Value.AsInt64())}
	case attribute.FLOAT64:
		a.T, a.L = "f", []string{fs(kv.Value.AsFloat64())}
	case attribute.BOOL:
		a.T, a.L = "b", []string{fmt.Sprint(kv.Value.AsBool())}
	case attribute.STRINGSLICE:
		a.T = "S"
		a.L = append(a.L, kv.Value.AsStringSlice()...)
	case attribute.INT64SLICE:
		a.T = "I"
		for _, x := range kv.Value.AsInt64Slice() {
			a.L = append(a.L, fmt.Sprint(x))
		}
	case attribute.FLOAT64SLICE:
		a.T = "F"
		for _, x := range kv.Value.AsFloat64Slice() {
			a.L = append(a.L, fs(x))
		}
	case attribute.BOOLSLICE:
		a.T = "B"
		for _, x := range kv.Value.AsBoolSlice() {
			a.L = append(a.L, fmt.Sprint(x))
		}
	default:
		a.T = "x"
	}
	return a
}

func attrsOf(kvs []attribute.KeyValue) []Attr {
	r := []Attr{}
	for _, kv := range kvs {
		r = append(r, attrOf(kv))
	}
	return r
}

// ---- one program ----

type handle struct {
	x any
	d Desc
	m int
}

type world struct {
	argbuf []attribute.KeyValue
	r      *rand.Rand
	p      profile
	perf   Perf
	rds    []*Reader
	mrs    []*sdk.ManualReader
	mp     *sdk.MeterProvider
	meters []metric.Meter
	libs   []Lib
	hs     []handle
	ev     []M
	regs   map[int]metric.Registration
	regIDs []int
	ncb    int
	cbHs   map[int][]int // declared handles
	cbM    map[int]int
	runs   []M
	inCol  int      // reader being collected
	stale  []func() // use observers of callbacks that returned
	live   []func() // of those that are running
	nested bool
	times  []time.Time
	start  time.Time
	keep   []kept
	reuse  []*data.Metrics
	coll   [][]Attr // the collision group of this program
}

type kept struct {
	out data.Metrics
	dig string
}

// cbErr is an error returned by a callback.
type cbErr struct{ c int }

func (e cbErr) Error() string { return fmt.Sprint("callback ", e.c) }

// quiet notes the errors of callbacks that the SDK reports.
type quiet struct{}

var handled struct {
	sync.Mutex
	cs []int
}

func (quiet) Handle(err error) {
	var e cbErr
	if errors.As(err, &e) {
		handled.Lock()
		handled.cs = append(handled.cs, e.c)
		handled.Unlock()
	}
}

func takeHandled() []int {
	handled.Lock()
	defer handled.Unlock()
	r := append([]int{}, handled.cs...)
	handled.cs = nil
	return r
}

func putHandled(cs []int) {
	handled.Lock()
	defer handled.Unlock()
	handled.cs = append(cs, handled.cs...)
}

// tm returns a placeholder for a time, replaced by its rank at the end.
func (w *world) tm(t time.Time) int {
	w.times = append(w.times, t)
	return len(w.times) - 1
}

func (w *world) pick(a ...string) string { return a[w.r.Intn(len(a))] }
func (w *world) one(n int) bool          { return n > 0 && w.r.Intn(n) == 0 }

type profile struct {
	name      string
	kinds     []string
	clauses   int // at most, per reader
	hints     int // one in n definitions (0: none)
	defs      int // number of definitions
	meters    int
	nreaders  int
	ops       int
	small     bool // small limits
	inactive  bool // small idle periods
	attrs     string
	bad       int // one in n measurements is invalid
	defaults  bool
	reuse     bool
	cbs       bool
	proc      bool
	names     []string
	collision bool
}

var syncKinds = []string{"sc", "su", "sg", "sh"}
var syncNoGauge = []string{"sc", "su", "sh"}
var async = []string{"ac", "au", "ag"}

func profiles() map[string]profile {
	ps := []profile{
		{name: "mix", kinds: kinds, clauses: 2, hints: 6, defs: 4, meters: 2, nreaders: 3, ops: 25, attrs: "mixed", inactive: true, bad: 12, defaults: true, reuse: true, cbs: true},
		{name: "reader", kinds: kinds, clauses: 1, defs: 3, meters: 1, nreaders: 3, ops: 30, attrs: "simple", inactive: true, defaults: true, cbs: true},
		{name: "view", kinds: kinds, clauses: 3, hints: 3, defs: 6, meters: 2, nreaders: 2, ops: 14, attrs: "simple", defaults: true, cbs: true},
		{name: "clash", kinds: kinds, clauses: 2, hints: 5, defs: 7, meters: 3, nreaders: 2, ops: 14, attrs: "simple", defaults: true, cbs: true, names: []string{"n", "m"}},
		{name: "attr", kinds: []string{"sc", "su", "sg", "sh", "ac", "ag"}, clauses: 2, defs: 2, meters: 1, nreaders: 2, ops: 25, attrs: "wild", inactive: true, cbs: true, proc: true},
		{name: "hist", kinds: []string{"sh", "sh", "sc", "su"}, clauses: 1, hints: 2, defs: 2, meters: 1, nreaders: 2, ops: 25, attrs: "simple", inactive: true, defaults: true},
		{name: "card", kinds: kinds, clauses: 1, hints: 6, defs: 2, meters: 1, nreaders: 2, ops: 35, small: true, inactive: true, attrs: "many", cbs: true},
		{name: "evict", kinds: syncKinds, clauses: 1, defs: 2, meters: 1, nreaders: 2, ops: 30, inactive: true, attrs: "simple"},
		{name: "chain", kinds: syncKinds, clauses: 1, defs: 1, meters: 1, nreaders: 1, ops: 40, inactive: true, attrs: "chain"},
		{name: "async", kinds: []string{"ac", "au", "ag", "ac", "au", "sc"}, clauses: 1, hints: 10, defs: 3, meters: 2, nreaders: 2, ops: 18, attrs: "mixed", bad: 10, defaults: true, cbs: true},
		{name: "bad", kinds: kinds, clauses: 0, defs: 3, meters: 1, nreaders: 2, ops: 22, attrs: "simple", bad: 2, inactive: true, cbs: true},
		{name: "time", kinds: kinds, clauses: 0, defs: 3, meters: 2, nreaders: 3, ops: 25, attrs: "simple", inactive: true, cbs: true, defaults: true},
		{name: "reuse", kinds: kinds, clauses: 1, hints: 4, defs: 4, meters: 2, nreaders: 2, ops: 25, attrs: "simple", inactive: true, reuse: true, cbs: true, defaults: true},
	}
	m := map[string]profile{}
	for _, p := range ps {
		m[p.name] = p
	}
	return m
}

var names = []string{"a", "b", "c", "dd"}
var libs = []Lib{{"L", "", ""}, {"L", "1", ""}, {"M", "", ""}, {"M", "1", "s"}, {"L", "1", "s"}}

func (w *world) cfg() Cfg {
	var c Cfg
	if w.one(2) {
		c.MX = []int{2, 3, 4, 8, 20, 160, 1, -3, 20000}[w.r.Intn(9)]
	}
	if w.p.small {
		if w.one(2) {
			c.Lim = 1 + w.r.Intn(4)
		}
	} else if w.one(4) {
		c.Lim = 1000 + w.r.Intn(2)
	}
	return c
}

func (w *world) genReader() *Reader {
	rd := &Reader{Clauses: []Clause{}}
	tp := w.pick("c", "d", "mix", "dp", "lm")
	if w.p.name == "time" || w.p.name == "reader" {
		tp = w.pick("c", "d", "mix")
	}
	std := map[string]string{"sc": "mono", "su": "nonmono", "sg": "gauge", "sh": "hist", "ac": "mono", "au": "nonmono", "ag": "gauge"}
	rd.setTempo = tp != "c"
	if w.one(2) {
		switch {
		case tp == "c":
			rd.sel = view.StandardTemporality
		case tp == "lm":
			rd.sel = aggregation.LowMemoryTemporality
		case tp == "dp" && !w.p.small:
			rd.sel = view.DeltaPreferredTemporality
		}
	}
	rd.setAgg = w.p.defaults && w.one(3)
	rd.setCfg = w.p.defaults && w.one(3)
	for _, k := range kinds {
		t := "c"
		switch tp {
		case "d":
			t = "d"
		case "mix":
			t = w.pick("c", "d", "c", "d", "u", "bad")
		case "dp":
			if k != "su" && k != "au" {
				t = "d"
			}
		case "lm":
			if k == "sc" || k == "sh" {
				t = "d"
			}
		}
		if w.p.small && (k == "ac" || k == "au" || k == "ag") {
			t = "c" // see DESIGN.md: overflow of delta observations
			rd.setTempo = true
		}
		rd.Tempo = append(rd.Tempo, t)
		a := std[k]
		if rd.setAgg && w.one(2) {
			a = w.pick("undef", "drop", "anysum", "mono", "nonmono", "gauge", "hist", "mmsc", "mmsc", "bad")
		}
		rd.Agg = append(rd.Agg, a)
		c := []Cfg{{}, {}}
		if rd.setCfg {
			c = []Cfg{w.cfg(), w.cfg()}
		}
		rd.Cfg = append(rd.Cfg, c)
	}
	n := 0
	if w.p.clauses > 0 {
		n = w.r.Intn(w.p.clauses + 1)
	}
	for ; n > 0; n-- {
		rd.Clauses = append(rd.Clauses, w.genClause())
	}
	return rd
}

func (w *world) nameList() []string {
	if w.p.names != nil {
		return w.p.names
	}
	return names
}

func (w *world) genClause() Clause {
	c := Clause{Agg: "undef", Ren: Ren{T: "none"}, Re: []string{}, Keys: Keys{L: []string{}}}
	nl := w.nameList()
	heavy := w.p.name == "view" || w.p.name == "clash" || w.p.name == "mix"
	if w.one(3) {
		c.Name = nl[w.r.Intn(len(nl))]
	}
	if w.one(4) {
		c.HasRe = true
		c.Re = append(c.Re, nl[w.r.Intn(len(nl))])
		if w.one(2) {
			c.Re = append(c.Re, nl[w.r.Intn(len(nl))])
		}
	}
	if heavy {
		if w.one(4) {
			c.Kind = kinds[w.r.Intn(len(kinds))]
		}
		if w.one(4) {
			c.Num = w.pick("i", "f")
		}
		if w.one(4) {
			c.Lib = libs[w.r.Intn(len(libs))]
			if w.one(2) {
				c.Lib.N = ""
			}
		}
		if w.one(3) {
			c.Desc = w.pick("view desc", "v", "a much longer view description")
		}
		if w.one(3) {
			c.Agg = w.pick("drop", "anysum", "mono", "nonmono", "gauge", "hist", "mmsc", "bad")
		}
		if w.one(3) {
			c.Cfg = w.cfg()
		}
	}
	if w.p.name == "hist" && w.one(2) {
		c.Agg = w.pick("mmsc", "hist", "anysum")
		c.Cfg = w.cfg()
	}
	if w.p.small && w.one(3) {
		c.Cfg = w.cfg()
	}
	if w.one(2) {
		c.Keys.Has = true
		for n := w.r.Intn(3); n > 0; n-- {
			c.Keys.L = append(c.Keys.L, w.pick("a", "b", "c"))
		}
	}
	if w.one(3) || (w.p.names == nil && w.one(3)) {
		c.Ren = Ren{T: "suffix", S: w.pick("_x", "_y")}
		if w.one(3) {
			c.Ren = Ren{T: "const", S: w.pick("renamed", "a", "b")}
		}
	}
	return c
}

func (w *world) genHint() (string, Hint) {
	h := Hint{OK: true}
	obj := M{}
	if w.one(2) {
		h.Desc = w.pick("hint desc", "h", "a rather long hint description")
		obj["description"] = h.Desc
	}
	if !w.one(4) {
		h.Agg = w.pick("drop", "anysum", "mono", "nonmono", "gauge", "hist", "hist", "mmsc", "mmsc", "bad")
		if w.p.name == "hist" || w.p.name == "reuse" {
			h.Agg = w.pick("hist", "mmsc", "hist")
		}
		sp := map[string][]string{"drop": {"drop", "DROP"}, "anysum": {"sum", "Sum"}, "mono": {"monotonic_sum"}, "nonmono": {"nonmonotonic_sum"},
			"gauge": {"gauge", "Gauge"}, "hist": {"histogram", "exponential_histogram", "HISTOGRAM"}, "mmsc": {"minmaxsumcount", "MinMaxSumCount"}, "bad": {"median"}}[h.Agg]
		obj["aggregation"] = sp[w.r.Intn(len(sp))]
	}
	if w.one(2) {
		h.Tempo = w.pick("c", "d", "bad")
		if w.p.small {
			h.Tempo = "c"
		}
		obj["temporality"] = map[string]string{"c": "cumulative", "d": "Delta", "bad": "never"}[h.Tempo]
	}
	if w.one(2) {
		cf := M{}
		c := w.cfg()
		h.MX, h.Lim = c.MX, c.Lim
		if c.MX != 0 {
			cf["histogram"] = M{"max_size": c.MX}
		}
		if c.Lim != 0 {
			cf["cardinality_limit"] = c.Lim
		}
		obj["config"] = cf
	}
	b, _ := json.Marshal(obj)
	return string(b), h
}

func (w *world) genDesc() (Desc, Hint) {
	nl := w.nameList()
	d := Desc{Name: nl[w.r.Intn(len(nl))], Kind: w.p.kinds[w.r.Intn(len(w.p.kinds))], Num: w.pick("i", "f")}
	if w.one(3) {
		d.Unit = w.pick("ms", "By")
	}
	if w.p.names != nil && len(w.hs) > 0 && w.one(2) {
		// an earlier definition, perhaps slightly different
		d = w.hs[w.r.Intn(len(w.hs))].d
		if strings.Contains(d.Desc, "{") {
			d.Desc = ""
		}
		switch w.r.Intn(6) {
		case 0:
			d.Kind = w.p.kinds[w.r.Intn(len(w.p.kinds))]
		case 1:
			d.Num = w.pick("i", "f")
		case 2:
			d.Unit = w.pick("", "ms")
		case 3:
			d.Desc = w.pick("", "desc", "a longer description", "zesc")
		}
		return d, Hint{}
	}
	switch w.r.Intn(4) {
	case 0:
		d.Desc = w.pick("desc", "a longer description")
	case 1:
		if w.one(8) {
			d.Desc = w.pick("{oops", "not { json", "{\"aggregation\": 7}")
		}
	}
	if w.one(w.p.hints) {
		var h Hint
		d.Desc, h = w.genHint()
		return d, h
	}
	return d, Hint{}
}

// Attribute lists that differ, within each group, in ways that a hash of
// them may not see: order, type, nesting.
func at(k, t string, l ...string) Attr { return Attr{K: k, T: t, L: append([]string{}, l...)} }

// near are lists that a sloppy hash confuses.
var near = [][][]Attr{
	{{at("a", "i", "1")}, {at("a", "b", "true")}, {at("a", "f", "5e-324")}, {at("a", "I", "1")}, {at("a", "I", "2", "-1")}, {at("a", "B", "true")},
		{at("a", "B", "true", "false")}, {at("a", "B", "false", "true")}},
	{{at("a", "s", "1")}, {at("a", "i", "1")}, {at("a", "S", "1")}, {at("a", "I", "1")}, {at("a", "s", "true")}, {at("a", "b", "true")}},
	{{at("a", "S", "x", "y")}, {at("a", "S", "y", "x")}, {at("a", "S", "xy", "")}, {at("a", "S", "", "xy")}},
	{{at("a", "I", "1", "2", "3")}, {at("a", "I", "3", "2", "1")}, {at("a", "I", "6")}, {at("a", "i", "6")}},
	{{at("a", "F", "1", "0.5")}, {at("a", "F", "0.5", "1")}, {at("a", "F", "1", "0.5", "0")}},
	{{at("a", "i", "0")}, {at("a", "b", "false")}, {at("a", "f", "0")}, {at("a", "I")}, {at("a", "S")}, {at("a", "F")}, {at("a", "B")}, {at("a", "I", "0")}, {at("a", "I", "0", "0")}, {at("a", "B", "false")}},
	{{at("a", "i", "1"), at("b", "i", "2")}, {at("b", "i", "2"), at("a", "i", "1")}, {at("a", "i", "2"), at("b", "i", "1")}},
	{{at("a", "i", "1"), at("a", "i", "2")}, {at("a", "i", "2"), at("a", "i", "1")}},
	{{at("a", "i", "1"), at("b", "s", "x"), at("a", "i", "2")}, {at("a", "i", "2"), at("b", "s", "x"), at("a", "i", "1")}},
}

// Lists with the same 64-bit fingerprint, found by solving for them: the
// pairs of strings collide in farmhash, the numbers were chosen so that the
// mix of the key and them comes out equal.
const (
	s1a, s1b = "e_vlWuCtbwc", "vAs92651dc1"
	s2a, s2b = "MOSyVDeSx9c", "QsFEdo0qaq2"
	zc, zx   = "7272257942253756818", "8017912035378947383" // contribute 0 for the keys c and x
)

var collide = [][][]Attr{
	{{}, {at("c", "i", zc)}, {at("x", "i", zx)}, {at("c", "i", zc), at("x", "i", zx)}},
	{{at("a", "i", "1")}, {at("a", "i", "1"), at("c", "i", zc)}, {at("x", "i", zx), at("a", "i", "1")}},
	{{at("a", "i", "1"), at("b", "i", "2"), at("c", "s", "x")}, {at("b", "i", "2"), at("a", "i", "1"), at("c", "s", "x")}, {at("c", "s", "x"), at("b", "i", "2"), at("a", "i", "1")},
		{at("b", "i", "2"), at("c", "s", "x"), at("a", "i", "1")}, {at("a", "i", "1"), at("c", "s", "x"), at("b", "i", "2")}},
	{{at("a", "i", "1")}, {at("a", "f", "-6.786925264323635e-181")}, {at("b", "i", "4243119208242176266")}},
	{{at("a", "I", "1", "2")}, {at("a", "I", "3", "7799934419240747997")}, {at("a", "I", "4", "4", "891517464567970096")}, {at("a", "i", "1440846325140970310")}, {at("a", "f", "-1.1756023367034117e+52")}},
	{{at("a", "F", "1", "0.5")}, {at("a", "F", "3", "-5.266346740893978e-265")}, {at("a", "F", "4", "2", "-1.1450491360187299e-33")}, {at("a", "i", "-1307364271342952847")}, {at("a", "f", "8.910474779716096e-171")}},
	{{at("a", "b", "false")}, {at("a", "i", "-5110382924328399643")}, {at("a", "f", "-2.4098829920048185e+182")}},
	{{at("a", "b", "true")}, {at("a", "i", "3021279990961273798")}, {at("a", "f", "2.236986850482997e-108")}, {at("a", "I", "-6666769212642445216")}},
	{{at("a", "f", "0.5")}, {at("a", "i", "4958363651338649110")}},
	{{at("a", "s", "x")}, {at("a", "i", "-4503883598042011646")}},
	{{at("a", "S", "x", "y")}, {at("a", "I", "7", "-5779653462517397957")}, {at("a", "F", "1", "-1.8556246726746612e-21")}, {at("a", "i", "788323768237328391")}},
	{{at("a", "B", "true", "false")}, {at("a", "i", "-6795106676890069294")}, {at("a", "f", "-6.8263113475763e+66")}},
	{{at("a", "I")}, {at("a", "i", "-1077533620801664661")}},
	{{at("a", "S")}, {at("a", "i", "-2900209833538066566")}},
	{{at("a", "B")}, {at("a", "i", "-7686228504110473583")}},
	{{at("a", "s", s1a)}, {at("a", "s", s1b)}},
	{{at(s1a, "i", "1")}, {at(s1b, "i", "1")}},
	{{at("a", "S", s1a, s1b)}, {at("a", "S", s1b, s1a)}, {at("a", "S", s1a, s1a)}, {at("a", "S", s1b, s1b)}},
	{{at(s2a, "s", s1a), at("a", "i", "1")}, {at(s2b, "s", s1a), at("a", "i", "1")}, {at("a", "i", "1"), at(s2a, "s", s1b)}, {at("a", "i", "1"), at(s2b, "s", s1b)}},
	{{at("a", "s", s1a), at("b", "s", s1b)}, {at("a", "s", s1b), at("b", "s", s1a)}, {at("b", "s", s1a), at("a", "s", s1a)}},
	{{at("a", "s", s1a), at("a", "s", s1b)}, {at("a", "s", s1b), at("a", "s", s1a)}, {at("a", "s", s1b), at("a", "s", s1b)}},
}

func (w *world) genAttrs() []Attr {
	if w.coll != nil && (w.one(2) || w.p.attrs == "chain" && !w.one(8)) {
		l := w.coll[w.r.Intn(len(w.coll))]
		return append([]Attr{}, l...)
	}
	str := func(k string, v string) Attr { return Attr{K: k, T: "s", L: []string{v}} }
	num := func(k string, v int) Attr { return Attr{K: k, T: "i", L: []string{fmt.Sprint(v)}} }
	var r []Attr
	switch w.p.attrs {
	case "simple":
		r = append(r, num("a", w.r.Intn(2)))
		if w.one(2) {
			r = append(r, str("b", w.pick("x", "y")))
		}
		if w.p.name == "view" && w.one(10) {
			r = append(r, num("", 1))
		}
	case "many", "chain":
		r = append(r, num("a", w.r.Intn(5)))
		if w.one(3) {
			r = append(r, num("b", w.r.Intn(2)))
		}
	case "mixed", "wild":
		n := w.r.Intn(4)
		ks := []string{"a", "b", "c"}
		if w.p.attrs == "wild" {
			ks = []string{"a", "b", "a", "longkey", "longkex", "proc", "b", "a"}
			if w.one(5) {
				ks = append(ks, "")
			}
		}
		for ; n > 0; n-- {
			k := ks[w.r.Intn(len(ks))]
			t := w.pick("s", "i", "f", "b")
			if w.p.attrs == "wild" && w.one(3) {
				t = w.pick("S", "I", "F", "B")
			}
			vals := map[string][]string{"s": {"1", "true", "x", "longvalue", "longvaluf", ""}, "i": {"1", "0", "-1"}, "f": {"1", "0", "0.5"}, "b": {"true", "false"}}
			vl := vals[strings.ToLower(t)]
			a := Attr{K: k, T: t, L: []string{}}
			cnt := 1
			if t == strings.ToUpper(t) {
				cnt = w.r.Intn(3)
			}
			for ; cnt > 0; cnt-- {
				a.L = append(a.L, vl[w.r.Intn(len(vl))])
			}
			r = append(r, a)
		}
	}
	w.r.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	if r == nil {
		r = []Attr{}
	}
	return r
}

func kvsOf(as []Attr) []attribute.KeyValue {
	r := make([]attribute.KeyValue, 0, len(as)+2)
	for _, a := range as {
		r = append(r, kvOf(a))
	}
	return r
}

// value for an instrument: powers of two, zero, negative; quarters for floats.
func (w *world) genValue(d Desc) (int, string) {
	if w.one(w.p.bad) {
		if d.Num == "f" && !w.one(3) {
			return 4, w.pick("nan", "inf", "-inf")
		}
		return -4 * (1 << w.r.Intn(3)), ""
	}
	e := w.r.Intn(4)
	if w.p.name == "hist" {
		e = w.r.Intn(12)
		if w.one(2) {
			e = 6 + w.r.Intn(2)
		}
	}
	v := 1 << e
	if d.Num == "f" && w.one(2) {
		v <<= 2
	}
	if w.one(8) {
		v = 0
	}
	if (d.Kind != "sc" && d.Kind != "sh") && w.one(4) {
		v = -v
	}
	return v, ""
}

func fval(v int, bad string) float64 {
	switch bad {
	case "nan":
		return math.NaN()
	case "inf":
		return math.Inf(1)
	case "-inf":
		return math.Inf(-1)
	}
	return float64(v) / 4
}

func (w *world) newMeter(lib Lib) {
	m := w.mp.Meter(lib.N, metric.WithInstrumentationVersion(lib.V), metric.WithSchemaURL(lib.S))
	id := 0
	for i, x := range w.meters {
		if x == m {
			id = i + 1
		}
	}
	if id == 0 {
		w.meters = append(w.meters, m)
		w.libs = append(w.libs, lib)
		id = len(w.meters)
	}
	w.ev = append(w.ev, M{"e": "meter", "lib": lib, "id": id})
}

func (w *world) newInst(m int, d Desc, h Hint, ncb int) {
	mt := w.meters[m-1]
	var x any
	var err error
	dopt, uopt := metric.WithDescription(d.Desc), metric.WithUnit(d.Unit)
	first := w.ncb
	hid := len(w.hs) + 1
	var icbs []metric.Int64Callback
	var fcbs []metric.Float64Callback
	for j := 0; j < ncb; j++ {
		w.ncb++
		c := w.ncb
		w.cbHs[c], w.cbM[c] = []int{hid}, m
		if d.Num == "i" {
			icbs = append(icbs, func(_ context.Context, o metric.Int64Observer) error {
				defer func() {
					w.live = append(w.live, func() { o.Observe(77, metric.WithAttributes(attribute.Int("late", 1))) })
				}()
				return w.runCallback(c, nil, func(_ int, v int, _ string, kv []attribute.KeyValue) {
					o.Observe(int64(v), metric.WithAttributeSet(attribute.NewSet(kv...)))
				}, []int{hid})
			})
		} else {
			fcbs = append(fcbs, func(_ context.Context, o metric.Float64Observer) error {
				defer func() {
					w.live = append(w.live, func() { o.Observe(77, metric.WithAttributes(attribute.Int("late", 1))) })
				}()
				return w.runCallback(c, nil, func(_ int, v int, bad string, kv []attribute.KeyValue) {
					o.Observe(fval(v, bad), metric.WithAttributes(kv...))
				}, []int{hid})
			})
		}
	}
	_ = first
	switch d.Kind + d.Num {
	case "sci":
		x, err = mt.Int64Counter(d.Name, dopt, uopt)
	case "scf":
		x, err = mt.Float64Counter(d.Name, dopt, uopt)
	case "sui":
		x, err = mt.Int64UpDownCounter(d.Name, dopt, uopt)
	case "suf":
		x, err = mt.Float64UpDownCounter(d.Name, dopt, uopt)
	case "sgi":
		x, err = mt.Int64Gauge(d.Name, dopt, uopt)
	case "sgf":
		x, err = mt.Float64Gauge(d.Name, dopt, uopt)
	case "shi":
		x, err = mt.Int64Histogram(d.Name, dopt, uopt)
	case "shf":
		x, err = mt.Float64Histogram(d.Name, dopt, uopt)
	case "aci":
		o := []metric.Int64ObservableCounterOption{dopt, uopt}
		for _, c := range icbs {
			o = append(o, metric.WithInt64Callback(c))
		}
		x, err = mt.Int64ObservableCounter(d.Name, o...)
	case "acf":
		o := []metric.Float64ObservableCounterOption{dopt, uopt}
		for _, c := range fcbs {
			o = append(o, metric.WithFloat64Callback(c))
		}
		x, err = mt.Float64ObservableCounter(d.Name, o...)
	case "aui":
		o := []metric.Int64ObservableUpDownCounterOption{dopt, uopt}
		for _, c := range icbs {
			o = append(o, metric.WithInt64Callback(c))
		}
		x, err = mt.Int64ObservableUpDownCounter(d.Name, o...)
	case "auf":
		o := []metric.Float64ObservableUpDownCounterOption{dopt, uopt}
		for _, c := range fcbs {
			o = append(o, metric.WithFloat64Callback(c))
		}
		x, err = mt.Float64ObservableUpDownCounter(d.Name, o...)
	case "agi":
		o := []metric.Int64ObservableGaugeOption{dopt, uopt}
		for _, c := range icbs {
			o = append(o, metric.WithInt64Callback(c))
		}
		x, err = mt.Int64ObservableGauge(d.Name, o...)
	case "agf":
		o := []metric.Float64ObservableGaugeOption{dopt, uopt}
		for _, c := range fcbs {
			o = append(o, metric.WithFloat64Callback(c))
		}
		x, err = mt.Float64ObservableGauge(d.Name, o...)
	}
	same := len(w.hs) + 1
	for i := len(w.hs) - 1; i >= 0; i-- {
		if w.hs[i].x == x && w.hs[i].m == m {
			same = i + 1
		}
	}
	w.hs = append(w.hs, handle{x, d, m})
	if err != nil && err.Error() == "" {
		panic("a conflict without a message")
	}
	w.ev = append(w.ev, M{"e": "new", "m": m, "d": d, "hint": h, "err": err != nil, "same": same, "cbs": ncb})
}

func isSync(k string) bool { return k[0] == 's' }

func (w *world) handlesWhere(f func(handle) bool) []int {
	var r []int
	for i, h := range w.hs {
		if f(h) {
			r = append(r, i+1)
		}
	}
	return r
}

func (w *world) measure(hid int) {
	h := w.hs[hid-1]
	as := w.genAttrs()
	v, bad := w.genValue(h.d)
	ctx := context.Background()
	kvs := kvsOf(as)
	fast := w.one(3)
	list := as
	if w.perf.IgnoreCol || w.perf.InstLim < 100 {
		// no key twice
		set := attribute.NewSet(append([]attribute.KeyValue{}, kvs...)...)
		kvs = set.ToSlice()
		w.r.Shuffle(len(kvs), func(i, j int) { kvs[i], kvs[j] = kvs[j], kvs[i] })
		list = attrsOf(kvs)
	}
	argsok := true
	done := false
	if fast && len(kvs) > 0 {
		before := fmt.Sprint(attrsOf(kvs))
		arg := append(make([]attribute.KeyValue, 0, len(kvs)+1), kvs...)
		again := w.one(2)
		if again {
			// the same memory for one call after the other
			if cap(w.argbuf) < len(kvs)+1 {
				w.argbuf = make([]attribute.KeyValue, 0, 64)
			}
			arg = append(w.argbuf[:0], kvs...)
		}
		done = true
		switch x := h.x.(type) {
		case bypass.FastInt64Adder:
			x.AddWithKeyValues(ctx, int64(v), arg...)
		case bypass.FastFloat64Adder:
			x.AddWithKeyValues(ctx, fval(v, bad), arg...)
		case bypass.FastInt64Recorder:
			x.RecordWithKeyValues(ctx, int64(v), arg...)
		case bypass.FastFloat64Recorder:
			x.RecordWithKeyValues(ctx, fval(v, bad), arg...)
		default:
			done = false
		}
		argsok = fmt.Sprint(attrsOf(arg)) == before
		// the caller may reuse its slice
		for i := range arg {
			if !again {
				arg[i] = attribute.Int("clobbered", 1)
			}
		}
	}
	if !done {
		set := attribute.NewSet(append([]attribute.KeyValue{}, kvs...)...)
		list = attrsOf(set.ToSlice())
		var o metric.MeasurementOption = metric.WithAttributeSet(set)
		if w.one(2) {
			o = metric.WithAttributes(kvs...)
		}
		switch x := h.x.(type) {
		case metric.Int64Counter:
			x.Add(ctx, int64(v), o)
		case metric.Float64Counter:
			x.Add(ctx, fval(v, bad), o)
		case metric.Int64UpDownCounter:
			x.Add(ctx, int64(v), o)
		case metric.Float64UpDownCounter:
			x.Add(ctx, fval(v, bad), o)
		case metric.Int64Histogram:
			x.Record(ctx, int64(v), o)
		case metric.Float64Histogram:
			x.Record(ctx, fval(v, bad), o)
		case metric.Int64Gauge:
			x.Record(ctx, int64(v), o)
		case metric.Float64Gauge:
			x.Record(ctx, fval(v, bad), o)
		}
	}
	w.ev = append(w.ev, M{"e": "m", "h": hid, "a": list, "v": v, "bad": bad, "argsok": argsok})
}

// runCallback performs the observations of one callback run.
func (w *world) runCallback(c int, ob metric.Observer, observe func(hid int, v int, bad string, kv []attribute.KeyValue), hids []int) error {
	obs := []M{}
	// Callbacks that ran before this one have returned.
	w.stale, w.live = append(w.stale, w.live...), nil
	if w.one(4) {
		w.late()
	}
	if !w.nested && len(w.rds) > 1 && w.cbM[c] == 1 && w.one(6) {
		// Another reader collects meanwhile.  The first meter is the
		// first one to be collected, so nothing was output before.
		if r := 1 + w.r.Intn(len(w.rds)); r != w.inCol {
			runs, outer := w.runs, w.inCol
			errs := takeHandled()
			w.nested = true
			w.collect(r)
			w.nested = false
			w.runs, w.inCol = runs, outer
			putHandled(errs)
		}
	}
	for n := w.r.Intn(4); n > 0; n-- {
		hid := hids[w.r.Intn(len(hids))]
		if ob != nil && w.one(8) {
			// an instrument that was not declared
			if o := w.handlesWhere(func(h handle) bool { return !isSync(h.d.Kind) }); len(o) > 0 {
				hid = o[w.r.Intn(len(o))]
			}
		}
		as := w.genAttrs()
		v, bad := w.genValue(w.hs[hid-1].d)
		kvs := kvsOf(as)
		set := attribute.NewSet(append([]attribute.KeyValue{}, kvs...)...)
		observe(hid, v, bad, kvs)
		obs = append(obs, M{"h": hid, "a": attrsOf(set.ToSlice()), "v": v, "bad": bad})
	}
	if w.one(6) {
		// callbacks may use synchronous instruments of their meter
		if s := w.handlesWhere(func(h handle) bool { return isSync(h.d.Kind) && h.m == w.cbM[c] }); len(s) > 0 {
			w.measure(s[w.r.Intn(len(s))])
		}
	}
	fail := w.one(5)
	w.runs = append(w.runs, M{"c": c, "obs": obs, "fail": fail})
	if fail {
		return cbErr{c}
	}
	return nil
}

type wrapI struct {
	metric.Int64Observable
	in metric.Observable
}
type wrapF struct {
	metric.Float64Observable
	in metric.Observable
}

func (x wrapI) Unwrap() metric.Observable { return x.in }
func (x wrapF) Unwrap() metric.Observable { return x.in }

var foreignObs, _ = noop.NewMeterProvider().Meter("x").Int64ObservableCounter("x")
var foreignObsF, _ = noop.NewMeterProvider().Meter("x").Float64ObservableGauge("x")

func (w *world) register() {
	m := 1 + w.r.Intn(len(w.meters))
	own := w.handlesWhere(func(h handle) bool { return !isSync(h.d.Kind) && h.m == m })
	all := w.handlesWhere(func(h handle) bool { return !isSync(h.d.Kind) })
	var hs []int
	for n := 1 + w.r.Intn(3); n > 0 && len(own) > 0; n-- {
		hs = append(hs, own[w.r.Intn(len(own))])
	}
	if w.one(8) && len(all) > 0 {
		hs = append(hs, all[w.r.Intn(len(all))])
	}
	if len(hs) == 0 && !w.one(4) {
		return
	}
	// Instruments may come wrapped, as those of the global delegates do.
	via := func(h int) metric.Observable {
		switch x := w.hs[h-1].x.(type) {
		case metric.Int64Observable:
			if w.one(5) {
				return wrapI{x, x}
			}
			return x
		case metric.Float64Observable:
			if w.one(5) {
				return wrapF{x, x}
			}
			return x
		}
		panic("not observable")
	}
	var obs []metric.Observable
	for _, h := range hs {
		obs = append(obs, via(h))
	}
	bad := false
	w.ncb++
	c := w.ncb
	w.cbHs[c], w.cbM[c] = hs, m
	f := func(_ context.Context, ob metric.Observer) error {
		err := w.runCallback(c, ob, func(hid int, v int, bad string, kv []attribute.KeyValue) {
			o := metric.WithAttributes(kv...)
			if w.one(20) {
				ob.ObserveInt64(foreignObs, 99, o)
				ob.ObserveFloat64(wrapF{foreignObsF, foreignObsF}, 99, o)
			}
			switch x := via(hid).(type) {
			case metric.Int64Observable:
				ob.ObserveInt64(x, int64(v), o)
			case metric.Float64Observable:
				ob.ObserveFloat64(x, fval(v, bad), o)
			}
		}, hs)
		for _, h := range hs {
			switch x := w.hs[h-1].x.(type) {
			case metric.Int64Observable:
				w.live = append(w.live, func() { ob.ObserveInt64(x, 77, metric.WithAttributes(attribute.Int("late", 1))) })
			case metric.Float64Observable:
				w.live = append(w.live, func() { ob.ObserveFloat64(x, 77, metric.WithAttributes(attribute.Int("late", 1))) })
			}
		}
		return err
	}
	var cb metric.Callback = f
	switch w.r.Intn(14) {
	case 0:
		cb, bad = nil, true
	case 1:
		obs = append(obs, foreignObs)
		bad = true
	}
	reg, err := w.meters[m-1].RegisterCallback(cb, obs...)
	if err == nil {
		w.regs[c] = reg
		w.regIDs = append(w.regIDs, c)
	}
	if hs == nil {
		hs = []int{}
	}
	w.ev = append(w.ev, M{"e": "reg", "m": m, "hs": hs, "bad": bad, "ok": err == nil})
}

func (w *world) unregister() {
	if len(w.regIDs) == 0 {
		return
	}
	c := w.regIDs[w.r.Intn(len(w.regIDs))]
	err := w.regs[c].Unregister()
	w.ev = append(w.ev, M{"e": "unreg", "c": c, "ok": err == nil})
}

// late uses an observer after the callback that it was made for returned.
func (w *world) late() {
	if len(w.stale) != 0 {
		w.stale[w.r.Intn(len(w.stale))]()
	}
}

func scaled(n number.Number, k number.Kind) int {
	if k == number.Int64Kind {
		v := int64(n)
		if v > 1<<29 || v < -(1<<29) {
			return 999999999
		}
		return int(v)
	}
	f := 4 * n.CoerceToFloat64(k)
	if f != math.Trunc(f) || math.Abs(f) > 1<<29 {
		return 999999999
	}
	return int(f)
}

func buckets(b aggregation.Buckets) [][]int {
	r := [][]int{}
	for i := uint32(0); i < b.Len(); i++ {
		if b.At(i) != 0 {
			r = append(r, []int{int(b.Offset()) + int(i), int(b.At(i))})
		}
	}
	return r
}

func (w *world) points(in data.Instrument) ([]M, int) {
	r := []M{}
	now := -1
	nk := in.Descriptor.NumberKind
	for _, p := range in.Points {
		m := M{"a": attrsOf(p.Attributes.ToSlice()), "pos": [][]int{}, "neg": [][]int{}, "start": w.tm(p.Start), "end": w.tm(p.End)}
		now = m["end"].(int)
		m["t"] = map[aggregation.Temporality]string{aggregation.CumulativeTemporality: "c", aggregation.DeltaTemporality: "d"}[p.Temporality]
		switch a := p.Aggregation.(type) {
		case aggregation.Histogram:
			m["k"] = "hist"
			m["v"] = []int{int(a.Count()), scaled(a.Sum(), nk), scaled(a.Min(), nk), scaled(a.Max(), nk), int(a.ZeroCount()), int(a.Scale())}
			m["pos"], m["neg"] = buckets(a.Positive()), buckets(a.Negative())
		case aggregation.MinMaxSumCount:
			m["k"] = "mmsc"
			m["v"] = []int{int(a.Count()), scaled(a.Sum(), nk), scaled(a.Min(), nk), scaled(a.Max(), nk)}
		case aggregation.Sum:
			m["k"] = "nonmono"
			if a.IsMonotonic() {
				m["k"] = "mono"
			}
			m["v"] = []int{scaled(a.Sum(), nk)}
		case aggregation.Gauge:
			m["k"] = "gauge"
			m["v"] = []int{scaled(a.Gauge(), nk)}
		default:
			m["k"], m["v"] = "?", []int{}
		}
		r = append(r, m)
	}
	return r, now
}

func (w *world) output(out data.Metrics) ([]M, int) {
	r := []M{}
	now := -1
	for _, s := range out.Scopes {
		ins := []M{}
		for _, in := range s.Instruments {
			pts, n := w.points(in)
			if n >= 0 {
				now = n
			}
			d := in.Descriptor
			ins = append(ins, M{"name": d.Name, "desc": d.Description, "unit": d.Unit, "kind": kindName(d.Kind),
				"num": map[number.Kind]string{number.Int64Kind: "i", number.Float64Kind: "f"}[d.NumberKind], "pts": pts})
		}
		r = append(r, M{"lib": Lib{s.Library.Name, s.Library.Version, s.Library.SchemaURL}, "insts": ins})
	}
	return r, now
}

func (w *world) digest(out data.Metrics) string {
	n := len(w.times)
	o, _ := w.output(out)
	var ts []string
	for _, t := range w.times[n:] {
		ts = append(ts, t.String())
	}
	w.times = w.times[:n]
	strip(o)
	b, _ := json.Marshal(o)
	return string(b) + strings.Join(ts, ",")
}

func strip(o []M) {
	for _, s := range o {
		for _, in := range s["insts"].([]M) {
			for _, p := range in["pts"].([]M) {
				delete(p, "start")
				delete(p, "end")
			}
		}
	}
}

func (w *world) collect(r int) {
	w.runs, w.inCol = []M{}, r
	var in *data.Metrics
	if w.p.reuse && w.one(2) {
		in = w.reuse[r-1]
	}
	tb := time.Now()
	out := w.mrs[r-1].Produce(in)
	ta := time.Now()
	w.stale, w.live = append(w.stale, w.live...), nil
	o, now := w.output(out)
	w.ev = append(w.ev, M{"e": "col", "r": r, "runs": w.runs, "errs": takeHandled(), "out": o, "tb": w.tm(tb), "ta": w.tm(ta), "now": now})
	if in != nil || (w.p.reuse && w.one(3)) {
		// this output is given back for re-use later
		w.reuse[r-1] = &out
		return
	}
	w.keep = append(w.keep, kept{out, w.digest(out)})
}

func (w *world) run() M {
	p := w.p
	w.perf = Perf{Inactive: 0, Proc: "none"}
	if p.inactive {
		w.perf.Inactive = 1 + w.r.Intn(3)
	}
	if p.small {
		if w.one(2) {
			w.perf.InstLim = 1 + w.r.Intn(5)
		}
		if w.one(2) {
			w.perf.AggLim = 1 + w.r.Intn(5)
		}
	}
	if p.attrs == "chain" || p.attrs == "wild" && !w.one(3) {
		if w.coll = near[w.r.Intn(len(near))]; !w.one(3) {
			w.coll = collide[w.r.Intn(len(collide))]
		}
	}
	if w.one(4) && w.coll == nil {
		w.perf.IgnoreCol = true
	}
	if p.proc && w.one(2) {
		w.perf.Proc = w.pick("add", "drop")
	}
	if p.attrs == "many" && !w.perf.IgnoreCol && w.one(3) {
		w.coll = near[w.r.Intn(len(near))]
	}
	if p.attrs == "wild" && w.one(2) || p.attrs == "mixed" && w.one(5) {
		w.perf.AttrLim = 3 + w.r.Intn(6)
	}
	pf := sdkinstrument.Performance{IgnoreCollisions: w.perf.IgnoreCol, InactiveCollectionPeriods: uint32(w.perf.Inactive),
		InstrumentCardinalityLimit: uint32(w.perf.InstLim), AggregatorCardinalityLimit: uint32(w.perf.AggLim), AttributeSizeLimit: uint32(w.perf.AttrLim)}
	if w.perf.Proc != "none" {
		pf.MeasurementProcessor = proc(w.perf.Proc)
	}
	// documented defaults
	def := func(p *int, v int) {
		if *p == 0 {
			*p = v
		}
	}
	def(&w.perf.Inactive, 10)
	def(&w.perf.InstLim, 3000)
	def(&w.perf.AggLim, 2000)
	def(&w.perf.AttrLim, 8192)

	opts := []sdk.Option{sdk.WithResource(resource.Empty()), sdk.WithPerformance(pf)}
	for n := 1 + w.r.Intn(p.nreaders); n > 0; n-- {
		rd := w.genReader()
		w.rds = append(w.rds, rd)
		mr := sdk.NewManualReader(fmt.Sprint("r", n))
		w.mrs = append(w.mrs, mr)
		opts = append(opts, sdk.WithReader(mr, rd.options()...))
		w.reuse = append(w.reuse, nil)
	}
	t0 := time.Now()
	w.mp = sdk.NewMeterProvider(opts...)
	t1 := time.Now()
	if w.one(5) {
		// a collection before there is anything to collect
		w.collect(1 + w.r.Intn(len(w.rds)))
	}
	w.newMeter(libs[w.r.Intn(len(libs))])
	for n := 0; n < p.ops; n++ {
		switch x := w.r.Intn(20); {
		case len(w.hs) == 0 || (x < 3 && len(w.hs) < p.defs):
			if w.one(3) && len(w.libs) < p.meters || w.one(10) {
				w.newMeter(libs[w.r.Intn(len(libs))])
			}
			d, h := w.genDesc()
			ncb := 0
			if !isSync(d.Kind) && p.cbs && w.one(2) {
				ncb = 1 + w.r.Intn(2)
			}
			w.newInst(1+w.r.Intn(len(w.meters)), d, h, ncb)
		case x < 5 && p.cbs:
			w.register()
		case x == 5 && p.cbs:
			w.unregister()
		case x == 6 && p.cbs:
			w.late()
		case x < 15:
			if s := w.handlesWhere(func(h handle) bool { return isSync(h.d.Kind) }); len(s) > 0 {
				w.measure(s[w.r.Intn(len(s))])
			} else if w.one(2) {
				w.collect(1 + w.r.Intn(len(w.rds)))
			}
		default:
			w.collect(1 + w.r.Intn(len(w.rds)))
		}
	}
	for r := range w.rds {
		w.collect(r + 1)
	}
	ok := true
	for _, k := range w.keep {
		if w.digest(k.out) != k.dig {
			ok = false
		}
	}
	w.ev = append(w.ev, M{"e": "same", "ok": ok})
	// times: rank 0 is the start of the provider, known through the points
	w.rank(t0, t1)
	return M{"perf": w.perf, "readers": w.rds, "ev": w.ev}
}

// rank replaces times by their order.  The provider's start time is not
// observable by itself: it is the start of the first cumulative point, which
// must lie between t0 and t1; rank 0.  Without one, rank 0 is t0..t1.
func (w *world) rank(t0, t1 time.Time) {
	in := func(t time.Time) bool { return !t.Before(t0) && !t.After(t1) }
	var later []time.Time
	for _, t := range w.times {
		if !in(t) {
			later = append(later, t)
		}
	}
	// distinct times inside [t0, t1] are different ranks -1 (wrong) unless all equal
	var start *time.Time
	rank := func(t time.Time) int {
		if in(t) {
			if start == nil {
				x := t
				start = &x
			}
			if t.Equal(*start) {
				return 0
			}
			return -2
		}
		if t.Before(t0) {
			return -3
		}
		return 1 + sort.Search(len(later), func(i int) bool { return !later[i].Before(t) })
	}
	sort.Slice(later, func(i, j int) bool { return later[i].Before(later[j]) })
	fix := func(m M, ks ...string) {
		for _, k := range ks {
			if v := m[k].(int); v >= 0 {
				m[k] = rank(w.times[v])
			}
		}
	}
	for _, e := range w.ev {
		if e["e"] != "col" {
			continue
		}
		fix(e, "tb", "ta", "now")
		for _, s := range e["out"].([]M) {
			for _, in := range s["insts"].([]M) {
				for _, p := range in["pts"].([]M) {
					fix(p, "start", "end")
				}
			}
		}
	}
}

func main() {
	profs := flag.String("fam", "mix", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 1000, "programs")
	secs := flag.Float64("secs", 10, "time limit")
	outp := flag.String("out", "seq.ndjson", "")
	flag.Parse()
	otel.SetErrorHandler(quiet{})
	f, err := os.Create(*outp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	bw := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(bw)
	enc.SetEscapeHTML(false)
	ps := profiles()
	fl := strings.Split(*profs, ",")
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	kept, evs := 0, 0
	for i := 0; i < *n && time.Now().Before(deadline); i++ {
		p, ok := ps[fl[i%len(fl)]]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown profile", fl[i%len(fl)])
			os.Exit(3)
		}
		w := &world{r: rand.New(rand.NewSource(*seed*1000003 + int64(i))), p: p, regs: map[int]metric.Registration{}, cbHs: map[int][]int{}, cbM: map[int]int{}}
		ch := make(chan M, 1)
		go func() { ch <- w.attempt() }()
		var t M
		select {
		case t = <-ch:
		case <-time.After(30 * time.Second):
			// a call did not return
			t = M{"perf": Perf{Proc: "none"}, "readers": []M{}, "ev": []M{{"e": "hang"}}}
			t["fam"] = p.name
			t["seed"] = *seed*1000003 + int64(i)
			_ = enc.Encode(t)
			bw.Flush()
			f.Close()
			fmt.Fprintf(os.Stderr, "{\"programs\":%d,\"events\":%d}\n", kept, evs)
			os.Exit(0)
		}
		t["fam"] = p.name
		t["seed"] = *seed*1000003 + int64(i)
		if enc.Encode(t) != nil {
			os.Exit(3)
		}
		kept++
		evs += len(w.ev)
	}
	bw.Flush()
	f.Close()
	fmt.Fprintf(os.Stderr, "{\"programs\":%d,\"events\":%d}\n", kept, evs)
}

// attempt runs the program; a panic in the SDK is recorded as an event.
func (w *world) attempt() (t M) {
	defer func() {
		if r := recover(); r != nil {
			ev := []M{}
			for _, e := range w.ev {
				if e["e"] != "col" {
					ev = append(ev, e)
				}
			}
			ev = append(ev, M{"e": "panic", "what": fmt.Sprint(r)})
			t = M{"perf": w.perf, "readers": w.rds, "ev": ev}
		}
	}()
	return w.run()
}
