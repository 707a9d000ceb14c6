// Builds the frozen corpora of localized names and phrases: candidates come from ICU and from
// the locale tables of the pinned tree, their meaning is stated independently of the parser
// (month number, weekday, shift), and a candidate is kept only if the pinned tree already
// returns exactly that meaning for every value that was tried.
//
//	go run -overlay ... ./zz dump.json icu.json OUTDIR
package main

import (
	"compress/gzip"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	dps "github.com/markusmobius/go-dateparser"
)

type L struct {
	Name, DateOrder string
	NoWordSpacing   bool
	Order           int
	Translations    map[string][]string
	RelativeType    map[string]string
	Rx              [][2]string
}

type Month struct {
	L string   `json:"l"`
	T string   `json:"t"`
	M int      `json:"m"`
	Z int      `json:"z,omitempty"` // digit zero
	W []string `json:"w,omitempty"`
	U bool     `json:"u,omitempty"` // understood without naming the locale
	F bool     `json:"f,omitempty"` // understood with the layout "2 January 2006"
	I bool     `json:"i,omitempty"` // from ICU
}
type Weekday struct {
	L string `json:"l"`
	T string `json:"t"`
	W int    `json:"w"`
	U bool   `json:"u,omitempty"`
}
type Rel struct {
	L  string `json:"l"`
	T  string `json:"t"` // {n} is the number
	K  string `json:"k"` // unit
	S  int    `json:"s"` // shift of fixed phrases, sign of numbered ones
	Ns []int  `json:"n,omitempty"`
	U  bool   `json:"u,omitempty"`
	I  bool   `json:"i,omitempty"`
}

func digits(s string, zero int) string {
	if zero == 0 || zero == 48 {
		return s
	}
	var sb strings.Builder
	for _, r := range s {
		if r >= '0' && r <= '9' {
			r = rune(zero) + r - '0'
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

func (m Month) text(d, y int) string {
	t := time.Date(y, time.Month(m.M), d, 0, 0, 0, 0, time.UTC)
	s := strings.Replace(m.T, "{d}", digits(fmt.Sprint(d), m.Z), 1)
	s = strings.Replace(s, "{y}", digits(fmt.Sprint(y), m.Z), 1)
	if m.W != nil {
		s = strings.Replace(s, "{w}", m.W[t.Weekday()], 1)
	}
	return s
}

func shift(now time.Time, unit string, n int) time.Time {
	switch unit {
	case "decade":
		return now.AddDate(10*n, 0, 0)
	case "year":
		return now.AddDate(n, 0, 0)
	case "month":
		return now.AddDate(0, n, 0)
	case "week":
		return now.AddDate(0, 0, 7*n)
	case "day":
		return now.AddDate(0, 0, n)
	case "hour":
		return now.Add(time.Duration(n) * time.Hour)
	case "minute":
		return now.Add(time.Duration(n) * time.Minute)
	case "second":
		return now.Add(time.Duration(n) * time.Second)
	}
	panic(unit)
}

func save(dir, name string, v any) {
	f, _ := os.Create(filepath.Join(dir, name))
	z, _ := gzip.NewWriterLevel(f, 9)
	json.NewEncoder(z).Encode(v)
	z.Close()
	f.Close()
}

var months = map[string]int{"january": 1, "february": 2, "march": 3, "april": 4, "may": 5, "june": 6, "july": 7, "august": 8, "september": 9, "october": 10, "november": 11, "december": 12}
var weekdays = map[string]int{"sunday": 0, "monday": 1, "tuesday": 2, "wednesday": 3, "thursday": 4, "friday": 5, "saturday": 6}

func parallel[T any](in []T, keep func(p *dps.Parser, x *T) bool) []T {
	ok := make([]bool, len(in))
	var wg sync.WaitGroup
	ch := make(chan int, 100)
	for range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := &dps.Parser{}
			for i := range ch {
				ok[i] = keep(p, &in[i])
			}
		}()
	}
	for i := range in {
		ch <- i
	}
	close(ch)
	wg.Wait()
	var out []T
	for i := range in {
		if ok[i] {
			out = append(out, in[i])
		}
	}
	return out
}

func main() {
	var dump struct{ Locales []L }
	bt, _ := os.ReadFile(os.Args[1])
	if err := json.Unmarshal(bt, &dump); err != nil {
		panic(err)
	}
	type icuLoc struct {
		Dates []struct {
			T string
			M int
			Z int
			W []string
		}
		Weekdays   [][2]any
		Rel, Fixed [][3]any
	}
	icu := map[string]icuLoc{}
	bt, _ = os.ReadFile(os.Args[2])
	if err := json.Unmarshal(bt, &icu); err != nil {
		panic(err)
	}
	out := os.Args[3]
	sort.Slice(dump.Locales, func(a, b int) bool { return dump.Locales[a].Name < dump.Locales[b].Name })
	rxT := regexp.MustCompile(`^(in )?(\d+) (\w+?)s?( ago)?$`)
	rxN := regexp.MustCompile(`^(in )?\$1 (\w+?)s?( ago)?$`)
	rxPlain := regexp.MustCompile(`^\(\?i\)(.*)\(\\d\+\[\.,\]\?\\d\*\)(.*)$`)
	var ms []Month
	var ws []Weekday
	var fx, rel []Rel
	nskip := 0
	for _, l := range dump.Locales {
		var keys []string
		for k := range l.Translations {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			v := l.Translations[k]
			if len(v) != 1 {
				continue
			}
			if m, ok := months[v[0]]; ok {
				ms = append(ms, Month{L: l.Name, T: "{d} " + k + " {y}", M: m})
				if strings.HasPrefix(l.DateOrder, "M") {
					ms = append(ms, Month{L: l.Name, T: k + " {d}, {y}", M: m})
				} else if strings.HasPrefix(l.DateOrder, "Y") {
					ms = append(ms, Month{L: l.Name, T: "{y} " + k + " {d}", M: m})
				}
			}
			if w, ok := weekdays[v[0]]; ok {
				ws = append(ws, Weekday{L: l.Name, T: k, W: w})
			}
		}
		keys = keys[:0]
		for k := range l.RelativeType {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			p := rxT.FindStringSubmatch(l.RelativeType[k])
			if p == nil || (p[1] == "") == (p[4] == "") {
				nskip++
				continue
			}
			var n int
			fmt.Sscan(p[2], &n)
			if p[4] != "" {
				n = -n
			}
			fx = append(fx, Rel{L: l.Name, T: k, K: p[3], S: n})
		}
		for _, r := range l.Rx {
			p, q := rxPlain.FindStringSubmatch(r[0]), rxN.FindStringSubmatch(r[1])
			if p == nil || q == nil || (q[1] == "") == (q[3] == "") {
				nskip++
				continue
			}
			a, b := strings.ReplaceAll(p[1], `\.`, "."), strings.ReplaceAll(p[2], `\.`, ".")
			if strings.ContainsAny(a+b, `\()[]?*+|^$`) {
				nskip++
				continue
			}
			s := 1
			if q[3] != "" {
				s = -1
			}
			rel = append(rel, Rel{L: l.Name, T: a + "{n}" + b, K: q[2], S: s})
		}
		x := icu[l.Name]
		for _, d := range x.Dates {
			ms = append(ms, Month{L: l.Name, T: d.T, M: d.M, Z: d.Z, W: d.W, I: true})
		}
		seen := map[string]bool{}
		for _, w := range ws {
			if w.L == l.Name {
				seen[w.T] = true
			}
		}
		for _, w := range x.Weekdays {
			if t := w[0].(string); !seen[t] {
				seen[t] = true
				ws = append(ws, Weekday{L: l.Name, T: t, W: int(w[1].(float64))})
			}
		}
		conflict := map[string]map[string]bool{}
		for _, f := range x.Fixed {
			k := f[0].(string)
			if conflict[k] == nil {
				conflict[k] = map[string]bool{}
			}
			conflict[k][fmt.Sprint(f[1], f[2])] = true
		}
		for _, f := range x.Fixed {
			k := f[0].(string)
			if len(conflict[k]) == 1 {
				fx = append(fx, Rel{L: l.Name, T: k, K: f[1].(string), S: int(f[2].(float64)), I: true})
				delete(conflict, k)
			}
		}
		idx := map[string]int{}
		var order []Rel
		meaning := map[string]map[string]bool{}
		for _, f := range x.Rel {
			t := f[0].(string)
			n := int(f[2].(float64))
			s := 1
			if n < 0 {
				s, n = -1, -n
			}
			if strings.Count(t, fmt.Sprint(n)) != 1 {
				continue
			}
			tt := strings.Replace(t, fmt.Sprint(n), "{n}", 1)
			key := fmt.Sprint(tt, f[1], s)
			if meaning[tt] == nil {
				meaning[tt] = map[string]bool{}
			}
			meaning[tt][fmt.Sprint(f[1], s)] = true
			if j, ok := idx[key]; ok {
				order[j].Ns = append(order[j].Ns, n)
			} else {
				idx[key] = len(order)
				order = append(order, Rel{L: l.Name, T: tt, K: f[1].(string), S: s, Ns: []int{n}, I: true})
			}
		}
		for _, r := range order {
			if len(meaning[r.T]) == 1 {
				rel = append(rel, r)
			}
		}
	}
	fmt.Println("candidates: months", len(ms), "weekdays", len(ws), "fixed", len(fx), "rel", len(rel), "skipped", nskip)
	now := time.Date(2019, 10, 16, 13, 14, 15, 0, time.UTC)
	check := func(p *dps.Parser, cfg *dps.Configuration, s string, want time.Time) bool {
		d, err := p.Parse(cfg, s)
		return err == nil && d.Time.Equal(want)
	}
	ms = parallel(ms, func(p *dps.Parser, m *Month) bool {
		r := rand.New(rand.NewPCG(1, uint64(len(m.T))))
		cfg := &dps.Configuration{Locales: []string{m.L}, CurrentTime: now}
		for d := 1; d <= 31; d++ {
			for k := range 3 {
				y := []int{1000 + r.IntN(9000), 1900 + r.IntN(200), 2000 + d}[k]
				want := time.Date(y, time.Month(m.M), d, 0, 0, 0, 0, time.UTC)
				if int(want.Month()) != m.M {
					continue
				}
				if !check(p, cfg, m.text(d, y), want) {
					return false
				}
			}
		}
		m.U, m.F = true, strings.HasPrefix(m.T, "{d} ") && strings.HasSuffix(m.T, " {y}") && !m.I
		def := &dps.Configuration{CurrentTime: now}
		if m.M == int(now.Month()) { // not the month that a weekday would get
			def.CurrentTime = now.AddDate(0, 6, 0)
		}
		pc := &dps.Parser{ParserTypes: []dps.ParserType{dps.CustomFormat}}
		for d := 1; d <= 28 && (m.U || m.F); d += 3 {
			y := 1000 + r.IntN(9000)
			want := time.Date(y, time.Month(m.M), d, 0, 0, 0, 0, time.UTC)
			if m.U && !check(p, def, m.text(d, y), want) {
				m.U = false
			}
			if m.F {
				dt, err := pc.Parse(cfg, m.text(d, y), "2 January 2006")
				m.F = err == nil && dt.Time.Equal(want)
			}
		}
		return true
	})
	ws = parallel(ws, func(p *dps.Parser, w *Weekday) bool {
		cfg := &dps.Configuration{Locales: []string{w.L}}
		w.U = true
		for k := range 14 {
			cfg.CurrentTime = now.AddDate(0, 0, k)
			want := time.Date(2019, 10, 16+k, 0, 0, 0, 0, time.UTC)
			for int(want.Weekday()) != w.W {
				want = want.AddDate(0, 0, -1)
			}
			if !check(p, cfg, w.T, want) {
				return false
			}
			if k < 3 && w.U {
				w.U = check(p, &dps.Configuration{CurrentTime: cfg.CurrentTime}, w.T, want)
			}
		}
		return true
	})
	keepRel := func(p *dps.Parser, x *Rel) bool {
		cfg := &dps.Configuration{Locales: []string{x.L}}
		nows := []time.Time{now, time.Date(2020, 2, 29, 3, 4, 5, 6000, time.UTC), time.Date(2021, 12, 31, 23, 59, 59, 0, time.UTC)}
		x.U = true
		try := func(t string, n int) bool {
			for i, nw := range nows {
				cfg.CurrentTime = nw
				want := shift(nw, x.K, n)
				if !check(p, cfg, t, want) {
					return false
				}
				if i == 0 && x.U {
					x.U = check(p, &dps.Configuration{CurrentTime: nw}, t, want)
				}
			}
			return true
		}
		if !strings.Contains(x.T, "{n}") {
			return try(x.T, x.S)
		}
		if x.Ns != nil {
			var ok []int
			for _, n := range x.Ns {
				if try(strings.Replace(x.T, "{n}", fmt.Sprint(n), 1), n*x.S) {
					ok = append(ok, n)
				}
			}
			x.Ns = ok
			return len(ok) > 0
		}
		for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 19, 20, 21, 24, 25, 30, 31, 45, 60, 70, 99, 100, 101, 111, 150, 199} {
			if !try(strings.Replace(x.T, "{n}", fmt.Sprint(n), 1), n*x.S) {
				return false
			}
		}
		return true
	}
	fx = parallel(fx, keepRel)
	rel = parallel(rel, keepRel)
	fmt.Println("kept: months", len(ms), "weekdays", len(ws), "fixed", len(fx), "rel", len(rel))
	save(out, "months.json.gz", ms)
	save(out, "weekdays.json.gz", ws)
	save(out, "fixed.json.gz", fx)
	save(out, "rel.json.gz", rel)
	lo := map[string]string{}
	for _, l := range dump.Locales {
		lo[l.Name] = l.DateOrder
	}
}
