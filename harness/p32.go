package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// wordEnt is a phrase with words of a language that are neither month nor weekday names.
type wordEnt struct {
	L string `json:"l"`
	T string `json:"t"` // {n} number, {D} complete date, {h} {H} {m} {s} time, {Y} {M} {d} numbers of the date
	C string `json:"c"` // unit, num, fixed, am, pm, time, full, skip
	K string `json:"k"` // unit
	S int    `json:"s"` // direction
	N int    `json:"n"` // amount, or minute of the day
}

var words []wordEnt

func init() {
	monthForms := map[string][]monthEnt{}
	props["P32"] = &Prop{
		Rule:     "every phrase of the frozen table of words (amounts of every unit word with and without words of direction, number words and halves, words for before and after noon, noon and midnight, notations of times and dates with words of units, words without meaning in dates) with random numbers, dates, times and current times is parsed with its locale; the result must have exactly the date, time and period that the phrase states; non-trivial: distinct table entry",
		Quick:    76000,
		Thorough: 76000 * 20,
		Setup: func() {
			loadTables()
			loadCorpus("words.json.gz", &words)
			for _, m := range months {
				if m.F && m.W == nil {
					monthForms[m.L] = append(monthForms[m.L], m)
				}
			}
		},
		Run: func(c *Case) {
			r := c.R
			i := c.I % len(words)
			e := words[i]
			loc := time.UTC
			if chance(r, 0.5) {
				loc = time.FixedZone("XX", between(r, -48, 56)*900)
			}
			now := genNow(r, loc)
			cfg := &dps.Configuration{CurrentTime: now, Locales: []string{e.L}, ReturnTimeAsPeriod: chance(r, 0.3)}
			if chance(r, 0.1) {
				lang, region := splitLocale(e.L)
				cfg.Locales, cfg.Languages, cfg.Region = nil, []string{lang}, region
			}
			s, period := e.T, date.Day
			var want time.Time
			if e.K != "" {
				num := e.N
				if e.C == "unit" {
					num = between(r, 1, 199)
					if chance(r, 0.4) {
						num = between(r, 1, 12)
					}
					s = strings.Replace(s, "{n}", strconv.Itoa(num), 1)
				}
				want = shift(now, e.K, e.S*num)
				switch {
				case e.K == "month":
					period = date.Month
				case e.K == "year" || e.K == "decade":
					period = date.Year
				case cfg.ReturnTimeAsPeriod && e.K == "hour":
					period = date.Hour
				case cfg.ReturnTimeAsPeriod && e.K == "minute":
					period = date.Minute
				case cfg.ReturnTimeAsPeriod && e.K == "second":
					period = date.Second
				}
			} else {
				y, mo := between(r, 1900, 2100), between(r, 1, 12)
				h, m, sec := between(r, 1, 12), between(r, 0, 59), between(r, 0, 59)
				d := between(r, 13, lastDay(y, mo))
				part := map[byte]string{'Y': strconv.Itoa(y), 'M': fmt.Sprintf("%02d", mo), 'D': strconv.Itoa(d)}
				order := localeIdx[e.L].D
				if order == "" {
					order = "MDY"
				}
				D := part[order[0]] + "-" + part[order[1]] + "-" + part[order[2]]
				if f := monthForms[e.L]; f != nil && strings.Contains(s, "{D}") && chance(r, 0.5) {
					x := pick(r, f)
					mo = x.M
					d = between(r, 13, lastDay(y, mo))
					D = x.text(d, y)
				}
				H := h % 12
				if e.C == "pm" || ((e.C == "full" || e.C == "skip") && chance(r, 0.5)) {
					H += 12
				}
				has := func(x string) bool { return strings.Contains(e.T, x) }
				switch {
				case e.C == "time":
					H, m, sec = e.N/60, e.N%60, 0
				case !has("{h}") && !has("{H}"):
					H, m, sec = 0, 0, 0
				case !has("{m}"):
					m, sec = 0, 0
				case !has("{s}"):
					sec = 0
				}
				s = strings.NewReplacer("{D}", D, "{h}", strconv.Itoa(h), "{H}", strconv.Itoa(H), "{m}", fmt.Sprintf("%02d", m), "{s}", fmt.Sprintf("%02d", sec),
					"{Y}", strconv.Itoa(y), "{M}", strconv.Itoa(mo), "{d}", strconv.Itoa(d)).Replace(s)
				want = time.Date(y, time.Month(mo), d, H, m, sec, 0, time.UTC)
				period = date.None
			}
			dt, err := c.P.Parse(cfg, s)
			c.Eval(1)
			c.Seen(strconv.Itoa(i))
			c.Count(e.C)
			msg := ""
			switch {
			case err != nil:
				msg = err.Error()
			case wall(dt.Time) != wall(want):
				msg = "got " + wall(dt.Time)
			case dt.Locale != e.L:
				msg = "locale of the result is " + dt.Locale
			case period != date.None && dt.Period != period:
				msg = "period " + dt.Period.String()
			}
			if msg != "" {
				c.Fail(e.C, "%q %s: %s, want %s", s, showCfg(cfg), msg, wall(want))
			}
		},
	}
}
