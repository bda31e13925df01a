// inst runs the builtin instrumentation over scripted sources (/proc files,
// runtime/metrics) and the real clocks, and writes what the sources said and
// what was collected, one program per line, for spec/Builtin.tla.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/instrumentation/cputime"
	"github.com/lightstep/otel-launcher-go/lightstep/instrumentation/host"
	rtm "github.com/lightstep/otel-launcher-go/lightstep/instrumentation/runtime"
	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	metrics "github.com/lightstep/otel-launcher-go/zzverif/vmetrics"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/sdk/resource"
)

type M = map[string]any

var began = time.Now()

type world struct {
	r    *rand.Rand
	ev   []M
	mr   *sdk.ManualReader
	mr2  *sdk.ManualReader
	mp   *sdk.MeterProvider
	dir  string
	mu   sync.Mutex
	errs int
}

func (w *world) Handle(error) { w.mu.Lock(); w.errs++; w.mu.Unlock() }
func (w *world) errors() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := w.errs
	w.errs = 0
	return n
}
func (w *world) one(n int) bool          { return w.r.Intn(n) == 0 }
func (w *world) pick(a ...string) string { return a[w.r.Intn(len(a))] }
func (w *world) emit(m M)                { w.ev = append(w.ev, m) }

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func (w *world) provider() {
	w.mr, w.mr2 = sdk.NewManualReader("r"), sdk.NewManualReader("r2")
	cum := view.WithDefaultAggregationTemporalitySelector(
		func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.CumulativeTemporality })
	w.mp = sdk.NewMeterProvider(sdk.WithResource(resource.Empty()), sdk.WithReader(w.mr, cum), sdk.WithReader(w.mr2, cum))
	otel.SetMeterProvider(w.mp)
	otel.SetErrorHandler(w)
}

func fnum(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

var kinds = map[sdkinstrument.Kind]string{sdkinstrument.AsyncCounter: "counter", sdkinstrument.AsyncUpDownCounter: "updown", sdkinstrument.AsyncGauge: "gauge"}

// collect returns the series of a collection; scale turns values to integers.
func (w *world) collect(f func(name, num string, v float64, m M)) []M {
	return series(w.mr, f)
}

func series(mr *sdk.ManualReader, f func(name, num string, v float64, m M)) []M {
	out := []M{}
	d := mr.Produce(nil)
	for _, s := range d.Scopes {
		for _, in := range s.Instruments {
			for _, p := range in.Points {
				var v float64
				var nk number.Kind = in.Descriptor.NumberKind
				num := func(n number.Number) { v = n.CoerceToFloat64(nk) }
				switch a := p.Aggregation.(type) {
				case aggregation.Sum:
					num(a.Sum())
				case aggregation.Gauge:
					num(a.Gauge())
				default:
					v = math.NaN()
				}
				at := []M{}
				for _, kv := range p.Attributes.ToSlice() {
					at = append(at, M{"k": string(kv.Key), "v": kv.Value.Emit()})
				}
				sort.Slice(at, func(i, j int) bool { return at[i]["k"].(string) < at[j]["k"].(string) })
				k, ok := kinds[in.Descriptor.Kind]
				if !ok {
					k = in.Descriptor.Kind.String()
				}
				ns := map[bool]string{true: "i", false: "f"}[nk == number.Int64Kind]
				m := M{"n": in.Descriptor.Name, "unit": string(in.Descriptor.Unit), "kind": k, "num": ns, "attrs": at, "scope": s.Library.Name}
				f(in.Descriptor.Name, ns, v, m)
				out = append(out, m)
			}
		}
	}
	return out
}

// ---- host ----

func (w *world) hosts() {
	w.provider()
	must(os.MkdirAll(filepath.Join(w.dir, "net"), 0o700))
	os.Setenv("HOST_PROC", w.dir)
	cpu := map[string]int{}
	fields := []string{"user", "nice", "system", "idle", "iowait", "irq", "softirq", "steal"}
	var tx, rx [3]int
	nics := 1 + w.r.Intn(3)
	if err := host.Start(host.WithMeterProvider(w.mp)); err != nil {
		w.emit(M{"e": "failed", "what": err.Error()})
		return
	}
	w.emit(M{"e": "started", "errs": w.errors()})
	write := func(name, text string) { must(os.WriteFile(filepath.Join(w.dir, name), []byte(text), 0o600)) }
	for n := 1 + w.r.Intn(5); n > 0; n-- {
		line := "cpu "
		for _, f := range fields {
			if w.one(2) {
				cpu[f] += w.r.Intn(1000)
			}
			line += fmt.Sprint(" ", cpu[f]*100)
		}
		// the kernel counts the time of guests in user and nice, too
		guest, gnice := 0, 0
		if w.one(2) {
			guest, gnice = w.r.Intn(cpu["user"]+1), w.r.Intn(cpu["nice"]+1)
		}
		write("stat", line+fmt.Sprintf(" %d %d\ncpu0 1 1 1 1 1 1 1 1 0 0\n", guest*100, gnice*100))
		// total is a power of two (in units of 1 MiB)
		const total = 1 << 10
		free := w.r.Intn(200)
		buf, cached, srec := w.r.Intn(100), w.r.Intn(200), w.r.Intn(50)
		avail := free + w.r.Intn(buf+cached+1)
		write("meminfo", fmt.Sprintf("MemTotal: %d kB\nMemFree: %d kB\nMemAvailable: %d kB\nBuffers: %d kB\nCached: %d kB\nSReclaimable: %d kB\n",
			total<<10, free<<10, avail<<10, buf<<10, cached<<10, srec<<10))
		dev := "Inter-|   Receive  |  Transmit\n face |bytes packets errs drop fifo frame compressed multicast|bytes packets errs drop fifo colls carrier compressed\n"
		st, sr := 0, 0
		for i := 0; i < nics; i++ {
			tx[i] += w.r.Intn(10000)
			rx[i] += w.r.Intn(10000)
			st, sr = st+tx[i], sr+rx[i]
			dev += fmt.Sprintf("  eth%d: %d 7 1 2 3 0 0 0 %d 9 4 5 6 0 0 0\n", i, rx[i], tx[i])
		}
		write("net/dev", dev)
		broken := ""
		if w.one(6) {
			broken = w.pick("stat", "net/dev")
			must(os.Remove(filepath.Join(w.dir, broken)))
		}
		c := M{}
		for _, f := range fields {
			c[f] = cpu[f]
		}
		w.emit(M{"e": "proc", "cpu": c, "total": total, "used": total - free - buf - cached - srec, "avail": avail, "tx": st, "rx": sr, "broken": broken != ""})
		out := w.collect(func(name, _ string, v float64, m M) {
			switch name {
			case "system.memory.usage":
				v /= 1 << 20
			case "system.memory.utilization":
				v *= total
			}
			if v == math.Trunc(v) && math.Abs(v) < 1<<30 {
				m["v"] = int(v)
			} else {
				m["v"] = -1
			}
		})
		w.emit(M{"e": "host", "out": out, "errs": w.errors()})
	}
}

// ---- runtime ----

var goNames = []string{
	"/cgo/go-to-c-calls:calls", "/cpu/classes/gc/mark/assist:cpu-seconds", "/cpu/classes/gc/mark/dedicated:cpu-seconds", "/cpu/classes/gc/pause:cpu-seconds",
	"/cpu/classes/gc/total:cpu-seconds", "/cpu/classes/idle:cpu-seconds", "/cpu/classes/scavenge/assist:cpu-seconds", "/cpu/classes/total:cpu-seconds",
	"/cpu/classes/user:cpu-seconds", "/gc/cycles/automatic:gc-cycles", "/gc/cycles/forced:gc-cycles", "/gc/cycles/total:gc-cycles",
	"/gc/gogc:percent", "/gc/gomemlimit:bytes", "/gc/heap/allocs-by-size:bytes", "/gc/heap/allocs:bytes", "/gc/heap/allocs:objects",
	"/gc/heap/frees-by-size:bytes", "/gc/heap/frees:bytes", "/gc/heap/frees:objects", "/gc/heap/goal:bytes", "/gc/heap/live:bytes", "/gc/heap/objects:objects",
	"/gc/heap/tiny/allocs:objects", "/gc/limiter/last-enabled:gc-cycle", "/gc/pauses:seconds", "/gc/scan/globals:bytes", "/gc/scan/heap:bytes",
	"/gc/scan/stack:bytes", "/gc/scan/total:bytes", "/gc/stack/starting-size:bytes", "/godebug/non-default-behavior/http2client:events",
	"/memory/classes/heap/free:bytes", "/memory/classes/heap/objects:bytes", "/memory/classes/metadata/mcache/free:bytes", "/memory/classes/metadata/mcache/inuse:bytes",
	"/memory/classes/other:bytes", "/memory/classes/total:bytes", "/sched/gomaxprocs:threads", "/sched/goroutines:goroutines", "/sched/latencies:seconds",
	"/sched/pauses/stopping/gc:seconds", "/sched/pauses/total/gc:seconds", "/sync/mutex/wait/total:seconds",
	// unheard of
	"/new/thing:bytes", "/gc/heap/other:bytes", "/sched/threads/total:threads", "/cpu/classes/idle:seconds", "/memory/classes:bytes",
}

func (w *world) goName() string {
	if w.one(5) {
		// another member of a family
		var p []string
		for n := 1 + w.r.Intn(3); n > 0; n-- {
			p = append(p, w.pick("aa", "total", "free", "gc", "user", "x-y"))
		}
		return strings.Replace(
			w.pick("/cpu/classes/@:cpu-seconds", "/gc/cycles/@:gc-cycles", "/memory/classes/@:bytes", "/gc/scan/@:bytes"), "@", strings.Join(p, "/"), 1)
	}
	return goNames[w.r.Intn(len(goNames))]
}

func (w *world) runtimes() {
	w.provider()
	seen := map[string]bool{}
	var ds []metrics.Description
	list := []M{}
	for n := 1 + w.r.Intn(25); n > 0; n-- {
		nm := w.goName()
		if len(ds) == 0 {
			nm = "/sched/goroutines:goroutines" // there is always something to report
		}
		if seen[nm] {
			continue
		}
		seen[nm] = true
		path, unit, _ := strings.Cut(nm, ":")
		segs := strings.Split(path[1:], "/")
		// the kinds that the Go runtime uses, mostly
		k := metrics.KindUint64
		if unit == "cpu-seconds" || unit == "seconds" {
			k = metrics.KindFloat64
		}
		if strings.Contains(nm, "by-size") || strings.Contains(nm, "pauses") || strings.Contains(nm, "latencies") {
			k = metrics.KindFloat64Histogram
		}
		if len(ds) > 0 && w.one(15) {
			k = []metrics.ValueKind{metrics.KindUint64, metrics.KindFloat64, metrics.KindFloat64Histogram, metrics.KindBad}[w.r.Intn(4)]
		}
		ds = append(ds, metrics.Description{Name: nm, Kind: k})
		list = append(list, M{"segs": segs, "unit": unit, "kind": []string{"bad", "i", "f", "hist"}[k]})
	}
	// instruments of one name have one kind of number
	fam := map[string]metrics.ValueKind{}
	for i := range ds {
		for _, p := range []string{"/cpu/classes/", "/gc/cycles/", "/memory/classes/", "/gc/scan/"} {
			if strings.HasPrefix(ds[i].Name, p) && (ds[i].Kind == metrics.KindUint64 || ds[i].Kind == metrics.KindFloat64) {
				if k, ok := fam[p]; ok {
					ds[i].Kind = k
					list[i]["kind"] = []string{"bad", "i", "f", "hist"}[k]
				} else {
					fam[p] = ds[i].Kind
				}
			}
		}
	}
	metrics.Script(ds)
	w.emit(M{"e": "all", "list": list})
	if err := rtm.Start(rtm.WithMeterProvider(w.mp)); err != nil {
		w.emit(M{"e": "failed", "what": err.Error()})
		return
	}
	w.emit(M{"e": "started", "errs": w.errors()})
	put := func() []string {
		vals := []string{}
		for _, d := range ds {
			v := float64(w.r.Intn(1000))
			if w.one(5) {
				v *= 1 << 40
			}
			if d.Kind == metrics.KindFloat64 {
				v += 0.25
			}
			metrics.Put(d.Name, d.Kind, v)
			vals = append(vals, fnum(v))
		}
		return vals
	}
	show := func(name, _ string, v float64, m M) {
		m["v"] = fnum(v)
		rest, ok := strings.CutPrefix(name, "process.runtime.go.")
		if !ok {
			rest = "?"
		}
		m["segs"] = strings.Split(rest, ".")
	}
	for n := 1 + w.r.Intn(3); n > 0; n-- {
		if w.one(4) {
			// two readers at once
			var va, vb []string
			var oa, ob []M
			metrics.Twice(func() { va = put() }, func() { vb = put() })
			var wg sync.WaitGroup
			wg.Add(2)
			go func() { defer wg.Done(); oa = series(w.mr, show) }()
			go func() { defer wg.Done(); ob = series(w.mr2, show) }()
			wg.Wait()
			metrics.Once()
			w.emit(M{"e": "both", "va": va, "vb": vb, "oa": oa, "ob": ob, "errs": w.errors()})
			continue
		}
		w.emit(M{"e": "vals", "vals": put()})
		w.emit(M{"e": "runtime", "out": w.collect(show), "errs": w.errors()})
	}
}

// ---- cputime ----

func usage() M {
	var ru syscall.Rusage
	must(syscall.Getrusage(syscall.RUSAGE_SELF, &ru))
	us := func(t syscall.Timeval) int { return int(t.Sec)*1000000 + int(t.Usec) }
	return M{"user": us(ru.Utime), "system": us(ru.Stime), "up": int(time.Since(began).Microseconds())}
}

func (w *world) cputimes() {
	w.provider()
	if err := cputime.Start(cputime.WithMeterProvider(w.mp)); err != nil {
		w.emit(M{"e": "failed", "what": err.Error()})
		return
	}
	w.emit(M{"e": "started", "errs": w.errors()})
	for n := 1 + w.r.Intn(3); n > 0; n-- {
		end := time.Now().Add(time.Duration(w.r.Intn(20)) * time.Millisecond)
		switch w.r.Intn(3) {
		case 0:
			x := 1.0
			for time.Now().Before(end) {
				for i := 0; i < 1000; i++ {
					x = math.Sin(x)
				}
			}
		case 1:
			f, err := os.Open("/dev/zero")
			must(err)
			b := make([]byte, 1<<20)
			for time.Now().Before(end) {
				f.Read(b)
			}
			f.Close()
		case 2:
			time.Sleep(time.Until(end))
		}
		lo := usage()
		out := w.collect(func(_, _ string, v float64, m M) { m["v"] = int(math.Round(v * 1e6)) })
		w.emit(M{"e": "cpu", "lo": lo, "hi": usage(), "out": out, "errs": w.errors()})
	}
}

func main() {
	fams := flag.String("fam", "host,runtime,cputime", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 1000, "programs")
	secs := flag.Float64("secs", 10, "time limit")
	outp := flag.String("out", "inst.ndjson", "")
	flag.Parse()
	f, err := os.Create(*outp)
	must(err)
	bw := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(bw)
	enc.SetEscapeHTML(false)
	dir, err := os.MkdirTemp("", "inst")
	must(err)
	defer os.RemoveAll(dir)
	fl := strings.Split(*fams, ",")
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	progs := 0
	for i := 0; i < *n && time.Now().Before(deadline); i++ {
		s := *seed*1000003 + int64(i)
		w := &world{r: rand.New(rand.NewSource(s)), dir: filepath.Join(dir, fmt.Sprint(i)), ev: []M{}}
		fam := fl[i%len(fl)]
		func() {
			defer func() {
				if r := recover(); r != nil {
					w.emit(M{"e": "panic", "what": fmt.Sprint(r)})
				}
			}()
			switch fam {
			case "host":
				w.hosts()
			case "runtime":
				w.runtimes()
			case "cputime":
				w.cputimes()
			default:
				must(fmt.Errorf("unknown family %s", fam))
			}
		}()
		w.mp.Shutdown(context.Background())
		os.RemoveAll(w.dir)
		must(enc.Encode(M{"fam": fam, "seed": s, "ev": w.ev}))
		progs++
	}
	bw.Flush()
	f.Close()
	fmt.Fprintf(os.Stderr, "{\"programs\":%d}\n", progs)
}
