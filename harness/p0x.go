package main

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// ---------- P01: totality and bounded work ----------

var ambiguous [][2]string

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// heapGuard ends the process when a single call needs more memory than any sane call.
func heapGuard(limit uint64) {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(20 * time.Millisecond)
		metrics.Read(s)
		if v := s[0].Value.Uint64(); v > limit {
			fmt.Fprintf(os.Stderr, "VERIF-MEMORY: live heap of %d MB during case %q\n", v>>20, current())
			os.Exit(3)
		}
	}
}

var (
	curMu   sync.Mutex
	curCase string
)

func setCurrent(s string) { curMu.Lock(); curCase = s; curMu.Unlock() }
func current() string     { curMu.Lock(); defer curMu.Unlock(); return curCase }

func hostileCfg(c *Case, locale string) *dps.Configuration {
	r := c.R
	cfg := genCfg(r, locale, false)
	if cfg == nil {
		return nil
	}
	if chance(r, 0.25) {
		cfg.CurrentTime = pick(r, []time.Time{
			{}, time.Unix(0, 0), time.Unix(-1, 0), time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC),
			time.Date(-4713, 11, 24, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC),
			time.Date(100000, 2, 29, 0, 0, 0, 0, time.FixedZone("", 86399)), time.Date(between(r, -2, 4), 1, 2, 3, 0, 0, 0, time.UTC),
			time.Date(between(r, 3770, 3810), 3, 2, 3, 0, 0, 0, time.UTC), time.Date(between(r, 610, 640), 3, 2, 3, 0, 0, 0, time.UTC), time.Date(between(r, 1, 12000), 7, 2, 3, 0, 0, 0, time.UTC), time.Date(2024, 2, 29, 0, 0, 0, 0, time.Local), time.Unix(1<<40, 5),
		})
	}
	if chance(r, 0.1) {
		bad := pick(r, []string{"", "Y", "YYY", "ymd", "DMYX", "\x00", "ÄMD", "DM", "MMDDYYYY", "D.M.Y"})
		cfg.DateOrder = func(string) string { return bad }
	}
	if chance(r, 0.05) {
		cfg.PreferredDayOfMonth = dps.PreferredDayOfMonth(r.IntN(256))
		cfg.PreferredMonthOfYear = dps.PreferredMonthOfYear(r.IntN(256))
		cfg.PreferredDateSource = dps.PreferredDateSource(r.IntN(256))
	}
	if chance(r, 0.05) {
		cfg.RequiredParts = pick(r, [][]string{{}, {""}, {"DAY"}, {"week"}, {"day", "day"}})
	}
	if chance(r, 0.05) {
		cfg.SkipTokens = pick(r, [][]string{{}, {""}, {" "}, {"1"}, {":"}, {"a", "b"}})
	}
	if chance(r, 0.05) {
		x := pick(r, [][]string{{"xx"}, {""}, {"en", "en-GB"}, {"en", "en"}, {"EN"}, {"en-"}, {"-"}, {}})
		switch r.IntN(3) {
		case 0:
			cfg.Locales = x
		case 1:
			cfg.Languages = x
		default:
			cfg.DefaultLanguages = x
		}
	}
	if chance(r, 0.03) {
		cfg.Region = pick(r, []string{"", "XX", "001", " gb ", "\xff"})
	}
	return cfg
}

func init() {
	maxRatio := 0.0
	props["P01"] = &Prop{
		Rule:     "valid, mutated, random and adversarial strings (thousand-fold repetitions, long lists of words with several meanings, invalid UTF-8), hostile configurations and layouts are given to the six entry points in serial processes; a watchdog observes panics, deadlocks, CPU use and live heap, and the bytes allocated by each call are compared to a bound that grows quadratically with the string; non-trivial: distinct string",
		Quick:    8000,
		Thorough: 400000,
		Serial:   true,
		Setup: func() {
			loadTables()
			loadCorpus("ambiguous.json.gz", &ambiguous)
			go heapGuard(3 << 30)
		},
		Run: func(c *Case) {
			r := c.R
			k := genCall(r, false)
			switch r.IntN(10) {
			case 0, 1: // repetition of few tokens
				n := pick(r, []int{2, 5, 10, 20, 30, 40, 60, 100, 200})
				var unit []string
				locale := ""
				for range 1 + r.IntN(3) {
					switch r.IntN(4) {
					case 0, 1:
						a := pick(r, ambiguous)
						if locale == "" {
							locale = a[0]
						}
						if a[0] != locale && chance(r, 0.8) {
							continue
						}
						unit = append(unit, a[1])
					case 2:
						unit = append(unit, pick(r, soup))
					default:
						unit = append(unit, pick(r, []string{"(", ")", ".", ":", "1", "1.1", "1:1", "-", "\u0301", "\xff", "one", "in", "ago", "\u00a0", "12:00", "EST", "31.", "a.", "+0530", "'"}))
					}
				}
				if len(unit) == 0 {
					a := pick(r, ambiguous)
					unit, locale = []string{a[1]}, a[0]
				}
				sep := pick(r, []string{" ", "", ", ", "\n"})
				entry := pick(r, []int{eParse, eParse, eSearchLang, eSearch, eJalali, eHijri, ePop})
				if locale != "" { // each word with two meanings doubles the work until the library's limit
					limit := 8
					if chance(r, 0.15) {
						limit = 40
					}
					if entry == eSearch || entry == eSearchLang {
						limit = min(limit, 5)
						if chance(r, 0.05) {
							limit = 16
						}
					}
					n = max(1, min(n, limit/len(unit)))
				}
				k = &Call{Str: strings.Repeat(strings.Join(unit, sep)+sep, n), Cfg: &dps.Configuration{}, Kind: "repeat", Entry: entry}
				k.Lang = "en"
				if locale != "" {
					k.Cfg.Locales = []string{locale}
					k.Lang, _ = splitLocale(locale)
				} else {
					k.Cfg.Languages = []string{"en", "ru", "zh"}
				}
			case 2: // long texts
				var sb strings.Builder
				for sb.Len() < 100+r.IntN(1200) {
					t, _, _ := genText(r)
					sb.WriteString(t)
					sb.WriteString(pick(r, []string{" ", ". ", "\n", ", "}))
				}
				k.Str, k.Kind = sb.String(), "long"
				k.Entry = pick(r, []int{eParse, eSearch, eSearchLang, eSearchLang})
				k.Lang = pick(r, langs[:30])
				k.Cfg = &dps.Configuration{Languages: []string{"en", pick(r, langs)}}
			default:
				if k.Cfg != nil {
					loc := ""
					if len(k.Cfg.Locales) == 1 {
						loc = k.Cfg.Locales[0]
					}
					k.Cfg = hostileCfg(c, loc)
				}
				if chance(r, 0.05) {
					k.Formats = append(k.Formats, pick(r, []string{"", "x", "2006 2006", "Jan January 1 01 _2 02", "\xff", "MST -0700", "_2006", "__2 002"}))
				}
				if chance(r, 0.02) {
					k.Entry = ePop
				}
				if chance(r, 0.03) && k.Cfg != nil { // leap days of other calendars
					k.Str, k.Kind, k.Entry, k.Formats = pick(r, []string{"30 اسفند", "۳۰ اسفند", "30 اسفند 10:20"}), "leap day", eJalali, nil
					k.Cfg.PreferredDateSource = dps.PreferredDateSource(r.IntN(3))
					if chance(r, 0.5) { // the ends of the calendar
						k.Cfg.CurrentTime = time.Date(pick(r, []int{between(r, 3792, 3801), between(r, 555, 565)}), time.Month(between(r, 1, 12)), 9, 0, 0, 0, 0, time.UTC)
					}
				}
			}
			c.desc = k.String()
			setCurrent(c.desc)
			p := c.P
			if chance(r, 0.1) {
				p = &dps.Parser{}
				for range r.IntN(4) {
					p.ParserTypes = append(p.ParserTypes, dps.ParserType(r.IntN(7)))
				}
			}
			if chance(r, 0.05) {
				d := pick(r, [][]string{nil, {}, {"en"}, {"xx"}, {"en", "en"}, {"", "fr"}})
				p = &dps.Parser{DetectLanguagesFunction: func(string) []string { return d }}
			}
			before := allocated()
			t0 := cpuSeconds()
			k.Do(p)
			if dt := cpuSeconds() - t0; dt > 1 && os.Getenv("VSLOW") != "" {
				fmt.Fprintf(os.Stderr, "SLOW %.1f len=%d %s %.300q\n", dt, len(k.Str), k.Kind, c.desc)
			}
			used := float64(allocated() - before)
			c.Eval(1)
			c.Seen(k.Str)
			c.Count(k.Kind)
			// Bytes per call: measured maxima on the pinned tree are about a tenth of this.
			n := float64(len(k.Str)) + 40
			bound := 8e8 + 6e4*n*n
			if ratio := used / bound; ratio > maxRatio {
				maxRatio = ratio
				global.Extra["largest_share_of_allocation_bound"] = math.Round(ratio*1000) / 1000
				global.Extra["largest_share_case"] = fmt.Sprintf("%.0f bytes allocated, %.200s", used, c.desc)
			}
			if used > bound {
				c.Fail("work", "a call on a string of %d bytes allocated %.0f MB (bound %.0f MB): %s", len(k.Str), used/1e6, bound/1e6, c.desc)
			}
		},
	}

	// ---------- P02: shape of results ----------
	props["P02"] = &Prop{
		Rule:     "random calls of every kind; the monitor checks the error/date/period/locale contract of each result; non-trivial: distinct call that returned a date or found something",
		Quick:    24000,
		Thorough: 1000000,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			k := genCall(r, false)
			c.desc = k.String()
			timeAsPeriod := k.Cfg != nil && k.Cfg.ReturnTimeAsPeriod
			checkDate := func(d date.Date, locale bool) {
				if d.Time.IsZero() {
					c.Fail("zero", "%s: no error but the zero time", c.desc)
				}
				if int(d.Period) < int(date.Second) || int(d.Period) > int(date.Year) {
					c.Fail("period", "%s: undefined period %d", c.desc, d.Period)
				}
				if !timeAsPeriod && d.Period != date.Day && d.Period != date.Month && d.Period != date.Year {
					c.Fail("period", "%s: period %v without ReturnTimeAsPeriod", c.desc, d.Period)
				}
				if locale {
					if _, ok := localeIdx[d.Locale]; !ok || !dps.IsKnownLocale(d.Locale) {
						c.Fail("locale", "%s: locale %q is not known", c.desc, d.Locale)
					}
				}
			}
			one := func(d date.Date, err error, locale bool) {
				c.Eval(1)
				if err != nil {
					if d != (date.Date{}) {
						c.Fail("both", "%s: error %v together with date %v", c.desc, err, d)
					}
					if err.Error() == "" {
						c.Fail("message", "%s: empty error message", c.desc)
					}
					c.Count("error")
					return
				}
				c.Count("date")
				c.Seen(c.desc)
				checkDate(d, locale)
			}
			switch k.Entry {
			case eParse:
				d, err := c.P.Parse(k.Cfg, k.Str, k.Formats...)
				one(d, err, len(k.Formats) == 0)
			case eJalali:
				d, err := dps.ParseJalali(k.Cfg, k.Str)
				one(d, err, false)
			case eHijri:
				d, err := dps.ParseHijri(k.Cfg, k.Str)
				one(d, err, false)
			case eSearch, eSearchLang:
				lang := k.Lang
				var rs []dps.SearchResult
				var err error
				if k.Entry == eSearch {
					lang, rs, err = c.P.Search(k.Cfg, k.Str)
				} else {
					rs, err = c.P.SearchWithLanguage(k.Cfg, k.Lang, k.Str)
				}
				c.Eval(1)
				if err != nil && len(rs) > 0 {
					c.Fail("both", "%s: error %v together with results", c.desc, err)
				}
				if err == nil {
					if _, ok := localeIdx[lang]; !ok {
						c.Fail("locale", "%s: language %q is not known", c.desc, lang)
					}
					c.Count("searched")
				} else {
					c.Count("search error")
				}
				for _, s := range rs {
					c.Seen(c.desc)
					c.Count("found")
					checkDate(s.Date, false)
					if s.Date.Locale != lang {
						c.Fail("locale", "%s: locale of the result %q is %q, language is %q", c.desc, s.Text, s.Date.Locale, lang)
					}
				}
			case ePop:
				_, n, o := dps.PopTzOffset(k.Str)
				c.Eval(1)
				if n == "" && o != 0 {
					c.Fail("tz", "%s: offset %d without name", c.desc, o)
				}
			}
		},
	}

	// ---------- P03: determinism ----------
	props["P03"] = &Prop{
		Rule:     "random calls are made on a new Parser, on a Parser used for everything before, through the package functions and twice in a row, in several processes that run the same calls in different orders; all outcomes of a call must be equal; non-trivial: distinct call with a date or search result",
		Quick:    9000,
		Thorough: 150000,
		Setup:    loadTables,
		Run: func(c *Case) {
			k := genCall(c.R, true)
			if k.Entry != ePop && chance(c.R, 0.03) { // two locales of very different kind
				k.Cfg.Locales, k.Cfg.Languages = nil, nil
			}
			c.desc = k.String()
			a := k.Do(c.P)
			c.Trace(c.desc, a)
			c.Eval(1)
			c.Count(outcomeClass(a))
			if outcomeClass(a) != "error" {
				c.Seen(c.desc)
			}
			same := func(how, b string) {
				c.Eval(1)
				if a != b {
					c.Fail("differs", "%s gives %s on a used Parser and %s %s", c.desc, a, b, how)
				}
			}
			if k.Entry != eSearch || c.I%10 == 0 {
				same("on a new Parser", k.Do(&dps.Parser{}))
			}
			if c.I%2 == 0 {
				same("by the package function", k.DoPkg())
			}
			if c.I%3 == 0 {
				same("when repeated", k.Do(c.P))
			}
		},
	}

	// ---------- P04: host clock and zone ----------
	props["P04"] = &Prop{
		Rule:     "the same calls run in processes with different (simulated) host clocks and TZ settings; with CurrentTime all processes must return the same instant and period, without it each must return what CurrentTime = its clock in UTC gives; non-trivial: distinct call that returned a date",
		Quick:    3500,
		Thorough: 60000,
		Setup:    loadTables,
		Run: func(c *Case) {
			k := genCall(c.R, true)
			if k.Entry == ePop {
				return
			}
			c.desc = k.String()
			run := func(k *Call) string {
				switch k.Entry {
				case eParse:
					return outInstant(c.P.Parse(k.Cfg, k.Str, k.Formats...))
				case eJalali:
					return outInstant(dps.ParseJalali(k.Cfg, k.Str))
				case eHijri:
					return outInstant(dps.ParseHijri(k.Cfg, k.Str))
				}
				var rs []dps.SearchResult
				var err error
				lang := k.Lang
				if k.Entry == eSearch {
					lang, rs, err = c.P.Search(k.Cfg, k.Str)
				} else {
					rs, err = c.P.SearchWithLanguage(k.Cfg, lang, k.Str)
				}
				if err != nil {
					return "ERR"
				}
				s := "lang=" + lang
				for _, x := range rs {
					s += fmt.Sprintf(" [%q %s]", x.Text, outInstant(x.Date, nil))
				}
				return s
			}
			a := run(k)
			c.Eval(1)
			c.Count("fixed " + outcomeClass(a))
			if a != "ERR" {
				c.Seen(c.desc)
			}
			c.Trace(c.desc, a)
			if k.Entry == eSearch || k.Entry == eSearchLang {
				return // a search without CurrentTime takes dates of the text as base
			}
			now := time.Now()
			k.Cfg.CurrentTime = now.UTC()
			want := run(k)
			k.Cfg.CurrentTime = time.Time{}
			got := run(k)
			c.Eval(2)
			c.Count("clock " + outcomeClass(got))
			if got != want {
				c.Fail("clock", "%s without CurrentTime, host clock %s: %s, but %s with CurrentTime = the same moment in UTC", c.desc, now, got, want)
			}
		},
	}

	// ---------- P06: caller's data ----------
	type held struct {
		name string
		full []string // up to capacity
		copy []string
		hdr  reflect.SliceHeader
	}
	props["P06"] = &Prop{
		Rule:     "random calls (valid and invalid configurations, successful and failing) with slices that have spare capacity filled with sentinels; a deep snapshot taken before must equal the configuration and layouts afterwards; Clone is compared by reflection over all fields and then each side is changed; non-trivial: distinct call",
		Quick:    24000,
		Thorough: 800000,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			k := genCall(r, false)
			if k.Cfg == nil {
				return
			}
			spare := func(s []string) []string {
				if s == nil {
					return nil
				}
				f := make([]string, len(s), len(s)+3)
				copy(f, s)
				x := f[:cap(f)]
				for i := len(s); i < len(x); i++ {
					x[i] = "sentinel" + strconv.Itoa(i)
				}
				return f
			}
			if chance(r, 0.5) && k.Cfg.RequiredParts == nil {
				k.Cfg.RequiredParts = pick(r, [][]string{{"Day"}, {"YEAR", "month"}, {"year", "day"}, {}})
			}
			if chance(r, 0.3) && k.Cfg.SkipTokens == nil {
				k.Cfg.SkipTokens = pick(r, [][]string{{"T", "t"}, {"zz", "aa", "t"}, {}})
			}
			if chance(r, 0.1) {
				k.Cfg.DefaultLanguages = []string{"fr", "en", "de"}
			}
			k.Cfg.TryPreviousLocales = chance(r, 0.2)
			if chance(r, 0.1) {
				k.Cfg.PreferredDayOfMonth = 7
			}
			k.Formats = spare(k.Formats)
			v := reflect.ValueOf(k.Cfg).Elem()
			var hs []held
			for i := 0; i < v.NumField(); i++ {
				if f := v.Field(i); f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.String {
					s := spare(f.Interface().([]string))
					f.Set(reflect.ValueOf(s))
					hs = append(hs, held{name: v.Type().Field(i).Name, full: s[:cap(s)], copy: append([]string{}, s[:cap(s)]...)})
				}
			}
			hs = append(hs, held{name: "layouts", full: k.Formats[:cap(k.Formats)], copy: append([]string{}, k.Formats[:cap(k.Formats)]...)})
			before := *k.Cfg
			c.desc = k.String()
			p := c.P
			if chance(r, 0.3) {
				det := []string{"fr", "en", "de", "x"}[:3]
				hs = append(hs, held{name: "result of DetectLanguagesFunction", full: det[:4], copy: append([]string{}, det[:4]...)})
				p = &dps.Parser{DetectLanguagesFunction: func(string) []string { return det }}
			}
			out := k.Do(p)
			c.Eval(1)
			c.Seen(c.desc)
			c.Count(entryNames[k.Entry] + " " + outcomeClass(out))
			for _, h := range hs {
				if !reflect.DeepEqual(append([]string{}, h.full...), h.copy) {
					c.Fail("modified", "%s changed %s: %q was %q (including spare capacity)", c.desc, h.name, h.full, h.copy)
				}
			}
			a := reflect.ValueOf(before)
			for i := 0; i < v.NumField(); i++ {
				x, y := a.Field(i), v.Field(i)
				same := true
				switch x.Kind() {
				case reflect.Func:
					same = x.Pointer() == y.Pointer()
				case reflect.Slice:
					same = x.Len() == y.Len() && x.Cap() == y.Cap() && x.Pointer() == y.Pointer()
				default:
					same = reflect.DeepEqual(x.Interface(), y.Interface())
				}
				if !same {
					c.Fail("modified", "%s changed field %s", c.desc, v.Type().Field(i).Name)
				}
			}
			// Clone
			cl := k.Cfg.Clone()
			c.Eval(1)
			cv := reflect.ValueOf(cl).Elem()
			for i := 0; i < v.NumField(); i++ {
				name := v.Type().Field(i).Name
				x, y := v.Field(i), cv.Field(i)
				switch x.Kind() {
				case reflect.Func:
					if x.Pointer() != y.Pointer() {
						c.Fail("clone", "Clone of %s differs in %s", showCfg(k.Cfg), name)
					}
				case reflect.Slice:
					s, t := x.Interface().([]string), y.Interface().([]string)
					if len(s) != len(t) || strings.Join(s, "|") != strings.Join(t, "|") {
						c.Fail("clone", "Clone of %s has %s = %q", showCfg(k.Cfg), name, t)
						continue
					}
					orig := append([]string{}, s[:cap(s)]...)
					for j := range t[:cap(t)] {
						t[:cap(t)][j] = "changed"
					}
					if !reflect.DeepEqual(orig, append([]string{}, s[:cap(s)]...)) {
						c.Fail("clone", "%s of a Clone shares memory with the original", name)
					}
					if len(s) > 0 {
						old := s[0]
						s[0] = "other"
						if len(t) > 0 && t[0] == "other" {
							c.Fail("clone", "%s of a Clone shares memory with the original", name)
						}
						s[0] = old
					}
				default:
					if !reflect.DeepEqual(x.Interface(), y.Interface()) {
						c.Fail("clone", "Clone of %s has %s = %v", showCfg(k.Cfg), name, y.Interface())
					}
				}
			}
		},
	}
}

func realNow() float64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return float64(tv.Sec) + float64(tv.Usec)/1e6
}
