package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"slices"
	"strings"
	"sync"
	"time"

	dps "github.com/markusmobius/go-dateparser"
)

// ---------- P05: concurrency ----------
//
// Process 0 makes every call alone, on a Parser of its own: the expected outcomes. The other
// processes are built with the race detector and make the calls from many goroutines. The
// harness adds no synchronisation of its own between the goroutines (cases are divided
// statically, progress is kept in functions the race detector ignores), because every lock or
// atomic would order accesses and hide races.

const p05Routines = 24

type p05slot struct {
	n    int64
	kind int64 // current call: 0 none
	_    [48]byte
}

var (
	p05slots   [p05Routines]p05slot
	p05overlap [p05Routines][p05Routines + 1]int
	p05states  [p05Routines]map[uint64]int
)

//go:norace
func p05enter(g int, kind int64) {
	n := 1
	var in [16]int
	in[kind&15]++
	for i := range p05slots {
		if k := p05slots[i].kind; k != 0 && i != g {
			n++
			in[k&15]++
		}
	}
	p05slots[g].kind = kind
	p05overlap[g][n]++
	var h uint64
	for _, x := range in {
		h = h*31 + uint64(x)
	}
	p05states[g][h]++
}

//go:norace
func p05leave(g int) {
	p05slots[g].kind = 0
	p05slots[g].n++
}

//go:norace
func p05progress() (n int64) {
	for i := range p05slots {
		n += p05slots[i].n
	}
	return
}

func p05detect(s string) []string {
	for range 1 + len(s)%3 {
		runtime.Gosched()
	}
	l := [][]string{{"en", "fr"}, {"de", "en"}, {"en"}, {"ru", "en", "es"}}[hash64(s)%4]
	return slices.Clone(l)
}

func p05order(locale string) string {
	if len(locale)%2 == 0 {
		runtime.Gosched()
	} else {
		time.Sleep(20 * time.Microsecond)
	}
	return []string{"YMD", "DMY", "MDY"}[hash64(locale)%3]
}

type p05case struct {
	i      int
	k      *Call
	mode   int
	parser *dps.Parser
}

var p05modes = []string{"shared Parser", "shared Parser with detector", "shared Parser with parser types", "own Parser", "package function", "shared Parser with TryPreviousLocales"}

func p05gen(i int, cfgs []*dps.Configuration) *p05case {
	r := caseRand(i)
	pc := &p05case{i: i}
	pc.mode = pick(r, []int{0, 0, 0, 0, 1, 2, 3, 3, 4, 5})
	src := r
	if chance(r, 0.35) { // a hot call that many goroutines make
		src = rand.New(rand.NewPCG(*flSeed, uint64(r.IntN(40))))
	}
	k := genCall(src, true)
	if chance(src, 0.15) {
		a := pick(src, ambiguous)
		k = &Call{Entry: pick(src, []int{eParse, eSearchLang}), Str: strings.TrimSpace(strings.Repeat(a[1]+" 12 ", 1+src.IntN(3))), Kind: "ambiguous"}
		k.Cfg = &dps.Configuration{Locales: []string{a[0]}, CurrentTime: genNow(src, time.UTC)}
		k.Lang, _ = splitLocale(a[0])
	}
	if k.Cfg.Locales == nil && k.Cfg.Languages == nil && chance(src, 0.97) { // without them all locales are tried
		k.Cfg.Languages = []string{"en", pick(src, langs)}
	}
	if len(k.Str) > 200 {
		k.Str = strings.ToValidUTF8(k.Str[:200], "")
	}
	switch {
	case chance(r, 0.3):
		k.Cfg = pick(r, cfgs)
	case chance(r, 0.3):
		k.Cfg.DateOrder = p05order
	}
	if pc.mode == 5 {
		k.Cfg = k.Cfg.Clone()
		k.Cfg.TryPreviousLocales = true
	}
	pc.k = k
	return pc
}

func init() {
	props["P05"] = &Prop{
		Rule:     "the calls of P03 and words with several meanings, many of them made by several goroutines, are made by 24 goroutines on shared Parsers (plain, with detector, with ParserTypes, with TryPreviousLocales), own Parsers and the package functions, with shared Configurations and callbacks that yield, in several freshly started processes built with the race detector; reported races, deadlocks and outcomes that differ from the call made alone are violations; non-trivial: distinct call with a date or search result",
		Quick:    3000,
		Thorough: 60000,
		RunAll: func(p *Prop, n int, g *Global) {
			loadTables()
			loadCorpus("ambiguous.json.gz", &ambiguous)
			var cfgs []*dps.Configuration
			r := rand.New(rand.NewPCG(*flSeed, 99))
			for len(cfgs) < 12 {
				c := genCfg(r, "", true)
				if len(cfgs)%3 == 0 {
					c.DateOrder = p05order
				}
				if c.Locales == nil && c.Languages == nil {
					c.Languages, c.Locales = []string{"en", "fr", "de"}, nil
				}
				cfgs = append(cfgs, c)
			}
			types := []dps.ParserType{dps.RelativeTime, dps.AbsoluteTime, dps.Timestamp}
			shared := []*dps.Parser{{}, {DetectLanguagesFunction: p05detect}, {ParserTypes: types}}
			routines := p05Routines
			alone := *flProc == 0
			if alone {
				routines = 8
			}
			var lists [p05Routines][]*p05case
			next := 0
			for i := range n {
				j := order(i, n)
				if *flIndex >= 0 && j != *flIndex {
					continue
				}
				if !alone && *flIndex < 0 && (j+*flProc)%3 == 0 {
					continue
				}
				pc := p05gen(j, cfgs)
				if alone && pc.mode == 5 {
					continue
				}
				if *flIndex >= 0 && !alone { // replay: all goroutines
					for g := range lists {
						lists[g] = append(lists[g], pc)
					}
					continue
				}
				lists[next%routines] = append(lists[next%routines], pc)
				next++
			}
			type row struct {
				pc  *p05case
				out string
			}
			var rows [p05Routines][]row
			start := make(chan struct{})
			var wg sync.WaitGroup
			for g := range routines {
				p05states[g] = map[uint64]int{}
				wg.Add(1)
				go func() {
					defer wg.Done()
					own := &dps.Parser{}
					rg := rand.New(rand.NewPCG(uint64(*flProc), uint64(g)))
					<-start
					for _, pc := range lists[g] {
						ps := own
						switch {
						case alone && pc.mode == 1:
							ps = &dps.Parser{DetectLanguagesFunction: p05detect}
						case alone && pc.mode == 2:
							ps = &dps.Parser{ParserTypes: slices.Clone(types)}
						case alone:
							ps = &dps.Parser{}
						case pc.mode < 3:
							ps = shared[pc.mode]
						case pc.mode == 5:
							ps = shared[0]
						}
						if !alone {
							switch rg.IntN(6) {
							case 0:
								runtime.Gosched()
							case 1:
								time.Sleep(time.Duration(rg.IntN(200)) * time.Microsecond)
							}
						}
						p05enter(g, int64(1+pc.mode+8*min(1, pc.k.Entry)))
						var out string
						func() {
							defer func() {
								if e := recover(); e != nil {
									out = fmt.Sprintf("panic: %v", e)
								}
							}()
							if pc.mode == 4 && !alone {
								out = pc.k.DoPkg()
							} else {
								out = pc.k.Do(ps)
							}
						}()
						p05leave(g)
						rows[g] = append(rows[g], row{pc, out})
					}
				}()
			}
			stop := make(chan struct{})
			go func() {
				for {
					select {
					case <-stop:
						return
					case <-time.After(time.Second):
						progress.Store(p05progress())
					}
				}
			}()
			close(start)
			wg.Wait()
			close(stop)
			w := g.workers[0]
			c := &Case{W: w}
			for _, l := range rows {
				for _, x := range l {
					c.I = x.pc.i
					c.Eval(1)
					key := x.pc.k.String() + " " + p05modes[x.pc.mode]
					if strings.HasPrefix(x.out, "panic: ") {
						c.Fail("panic", "%s: %s", key, x.out)
					}
					if x.pc.mode != 5 {
						c.Trace(key, x.out)
					}
					if outcomeClass(x.out) != "error" {
						c.Seen(key)
					}
					if !alone {
						c.Count(p05modes[x.pc.mode])
					}
				}
			}
			g.Failures, g.NFail = c.fail, len(c.fail)
			if !alone {
				states := map[uint64]bool{}
				most := 0
				for i := range routines {
					for k, v := range p05overlap[i] {
						if v > 0 && k > most {
							most = k
						}
						switch {
						case k == 1:
							w.counters["calls started while no other ran"] += v
						case k > 1:
							w.counters["calls started while others ran"] += v
						}
					}
					for s := range p05states[i] {
						states[s] = true
					}
				}
				g.Extra["most_calls_at_once"] = most
				g.Extra["distinct_sets_of_calls_in_flight"] = len(states)
			}
		},
	}
}
