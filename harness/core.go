// Command zzverif is the monitoring harness. check.py overlays this folder into the
// module under /repo (as /repo/zzverif), builds it in several variants (plain, race
// detector, re2_wasm, fake clock) and runs it; it drives only the public API.
package main

import (
	"bufio"
	"compress/gzip"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	_ "time/tzdata"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

var (
	flProp    = flag.String("prop", "", "property id")
	flSeed    = flag.Uint64("seed", 1, "seed")
	flTier    = flag.String("tier", "quick", "quick or thorough")
	flOut     = flag.String("out", "", "result file")
	flCorpus  = flag.String("corpus", "", "folder of corpora")
	flWorkers = flag.Int("workers", 0, "workers")
	flShard   = flag.Int("shard", 0, "shard number (index mod shards)")
	flShards  = flag.Int("shards", 1, "number of shards")
	flIndex   = flag.Int("index", -1, "run only this case")
	flProc    = flag.Int("proc", 0, "process number of a multi process check")
	flTrace   = flag.String("trace", "", "write the outcome of each case to this file")
	flScale   = flag.Float64("scale", 1, "scale of the case count")
)

// A Prop is the monitor of one property: Run generates case c.I from c.R, drives the
// library, and reports to c.
type Prop struct {
	Rule     string
	Quick    int
	Thorough int
	Setup    func()
	Run      func(c *Case)
	Finish   func(g *Global)
	RunAll   func(p *Prop, n int, g *Global) // instead of Run
	Serial   bool                            // run in one goroutine (cost is measured per process)
}

var props = map[string]*Prop{}

type Failure struct {
	Index int    `json:"index"`
	Key   string `json:"key"`
	Msg   string `json:"msg"`
}

type Worker struct {
	P        *dps.Parser
	counters map[string]int
	distinct map[uint64]struct{}
	samples  []string
	evals    int
	state    any
}

type Case struct {
	I    int
	R    *rand.Rand
	W    *Worker
	P    *dps.Parser
	fail []Failure
	desc string
}

type Global struct {
	mu       sync.Mutex
	Failures []Failure
	NFail    int
	Extra    map[string]any
	workers  []*Worker
}

var global = &Global{Extra: map[string]any{}}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func caseRand(i int) *rand.Rand {
	return rand.New(rand.NewPCG(*flSeed*0x9E3779B97F4A7C15+hash64(*flProp), uint64(i)*0xD1B54A32D192ED03+17))
}

// Eval counts one execution of the library that an oracle decided.
func (c *Case) Eval(n int) { c.W.evals += n }

// Seen registers a non-trivial case by its key.
func (c *Case) Seen(key string) {
	c.W.distinct[hash64(key)] = struct{}{}
	if c.I%97 == 0 && len(c.W.samples) < 3 && !slices.Contains(c.W.samples, key) {
		c.W.samples = append(c.W.samples, key)
	}
}

func (c *Case) Count(label string) { c.W.counters[label]++ }

func (c *Case) Fail(key, format string, a ...any) {
	c.fail = append(c.fail, Failure{c.I, key, fmt.Sprintf(format, a...)})
}

var progress atomic.Int64

func runCase(p *Prop, w *Worker, i int) {
	c := &Case{I: i, R: caseRand(i), W: w, P: w.P}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if s, ok := e.(string); ok && strings.HasPrefix(s, "harness:") {
					fmt.Fprintln(os.Stderr, s)
					os.Exit(4)
				}
				c.Fail("panic", "panic: %v\ncase: %s\n%s", e, c.desc, debug.Stack())
			}
		}()
		p.Run(c)
	}()
	progress.Add(1)
	if len(c.fail) > 0 {
		global.mu.Lock()
		global.NFail += len(c.fail)
		if len(global.Failures) < 200 {
			global.Failures = append(global.Failures, c.fail...)
		}
		global.mu.Unlock()
	}
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	f := func(t syscall.Timeval) float64 { return float64(t.Sec) + float64(t.Usec)/1e6 }
	return f(ru.Utime) + f(ru.Stime)
}

// watchdog ends the process when no case has finished for very long. Using no CPU at all
// meanwhile is a deadlock, burning CPU for 200 s in a call is a hang (normal calls take
// milliseconds); anything else is inconclusive.
func watchdog() {
	last, lastAt, lastCPU := progress.Load(), realNow(), cpuSeconds()
	for {
		time.Sleep(time.Second)
		if n := progress.Load(); n != last {
			last, lastAt, lastCPU = n, realNow(), cpuSeconds()
			continue
		}
		idle, cpu := realNow()-lastAt, cpuSeconds()-lastCPU
		if idle > 90 && cpu < 3 {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "VERIF-DEADLOCK: no call returned for %.0f s while using %.1f s of CPU\n%s\n", idle, cpu, buf)
			os.Exit(3)
		}
		if cpu > 200 && idle > 100 {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "VERIF-HANG: no call returned for %.0f s of CPU\n%s\n", cpu, buf)
			os.Exit(3)
		}
		if idle > 500 {
			fmt.Fprintln(os.Stderr, "VERIF-INCONCLUSIVE: no progress")
			os.Exit(4)
		}
	}
}

// order gives the case that comes i-th: each process of a multi process check has its own order.
func order(i, n int) int {
	if *flProc == 0 {
		return i
	}
	return (i*1000003 + *flProc*7919) % n
}

type Result struct {
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct_nontrivial"`
	Rule        string         `json:"rule"`
	Samples     []string       `json:"samples"`
	Counters    map[string]int `json:"counters"`
	Failures    []Failure      `json:"failures"`
	NFail       int            `json:"n_failures"`
	Cases       int            `json:"cases"`
	Extra       map[string]any `json:"extra,omitempty"`
}

func main() {
	flag.Parse()
	p := props[*flProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *flProp)
		os.Exit(4)
	}
	if p.Setup != nil {
		p.Setup()
	}
	n := p.Quick
	if *flTier == "thorough" {
		n = p.Thorough
		if n == 0 {
			n = 20 * p.Quick
		}
	}
	n = int(float64(n) * *flScale)
	nw := *flWorkers
	if nw <= 0 {
		nw = 8
	}
	if p.Serial {
		nw = 1
	}
	go watchdog()
	var trace *bufio.Writer
	if *flTrace != "" {
		f, err := os.Create(*flTrace)
		if err != nil {
			panic(err)
		}
		trace = bufio.NewWriter(f)
		traceW = trace
		defer f.Close()
	}
	workers := make([]*Worker, nw)
	for i := range workers {
		workers[i] = &Worker{P: &dps.Parser{}, counters: map[string]int{}, distinct: map[uint64]struct{}{}}
	}
	global.workers = workers
	if p.RunAll != nil {
		p.RunAll(p, n, global)
	} else if *flIndex >= 0 {
		runCase(p, workers[0], *flIndex)
	} else {
		var next atomic.Int64
		var wg sync.WaitGroup
		for _, w := range workers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1) - 1)
					if i >= n {
						return
					}
					j := order(i, n)
					if j%*flShards == *flShard {
						runCase(p, w, j)
					}
				}
			}()
		}
		wg.Wait()
	}
	if p.Finish != nil {
		p.Finish(global)
	}
	if trace != nil {
		trace.Flush()
	}
	res := Result{Rule: p.Rule, Counters: map[string]int{}, Cases: n, NFail: global.NFail, Extra: global.Extra}
	distinct := map[uint64]struct{}{}
	for _, w := range workers {
		res.Evaluations += w.evals
		for k, v := range w.counters {
			res.Counters[k] += v
		}
		for k := range w.distinct {
			distinct[k] = struct{}{}
		}
		res.Samples = append(res.Samples, w.samples...)
	}
	res.Distinct = len(distinct)
	if len(res.Samples) > 12 {
		res.Samples = res.Samples[:12]
	}
	sort.Slice(global.Failures, func(a, b int) bool { return global.Failures[a].Index < global.Failures[b].Index })
	res.Failures = global.Failures
	bt, _ := json.Marshal(res)
	if *flOut != "" {
		if err := os.WriteFile(*flOut, bt, 0o644); err != nil {
			panic(err)
		}
	} else {
		for _, f := range res.Failures {
			fmt.Printf("FAIL %d %s: %s\n", f.Index, f.Key, f.Msg)
		}
		fmt.Println(res.Evaluations, res.Distinct, res.NFail, res.Counters, res.Samples)
	}
}

var (
	traceW  *bufio.Writer
	traceMu sync.Mutex
)

// Trace writes a line of the outcome log, which check.py compares between processes.
func (c *Case) Trace(key, outcome string) {
	if traceW == nil {
		return
	}
	bt, _ := json.Marshal([]any{c.I, key, outcome})
	traceMu.Lock()
	traceW.Write(bt)
	traceW.WriteByte('\n')
	traceMu.Unlock()
}

func loadCorpus(name string, v any) {
	f, err := os.Open(filepath.Join(*flCorpus, name))
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := json.NewDecoder(z).Decode(v); err != nil {
		panic("harness: " + err.Error())
	}
}

// ---- outcomes ----

const wallLayout = "2006-01-02T15:04:05.999999999"

func wall(t time.Time) string { return t.Format(wallLayout) }

func outDate(d date.Date, err error) string {
	if err != nil {
		if d != (date.Date{}) {
			return fmt.Sprintf("ERR+%v", d)
		}
		return "ERR"
	}
	n, o := d.Time.Zone()
	return fmt.Sprintf("%s %s%+d %v %s", wall(d.Time), n, o, d.Period, d.Locale)
}

func outInstant(d date.Date, err error) string {
	if err != nil {
		return "ERR"
	}
	return fmt.Sprintf("%s %v", wall(d.Time.UTC()), d.Period)
}

func outSearch(lang string, rs []dps.SearchResult, err error) string {
	if err != nil {
		return "ERR"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "lang=%s", lang)
	for _, r := range rs {
		fmt.Fprintf(&sb, " [%q %s]", r.Text, outDate(r.Date, nil))
	}
	return sb.String()
}

// ---- random helpers ----

func pick[T any](r *rand.Rand, l []T) T { return l[r.IntN(len(l))] }

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

func between(r *rand.Rand, lo, hi int) int { return lo + r.IntN(hi-lo+1) }
