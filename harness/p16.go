package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// ---------- P16: the period ----------

func clockPeriod(clock int) date.Period {
	switch clock {
	case 1:
		return date.Hour
	case 2:
		return date.Minute
	}
	return date.Second
}

// period is the one of the finest stated part.
func (p Partial) period(withTime bool) date.Period {
	if withTime && p.Clock > 0 {
		return clockPeriod(p.Clock)
	}
	switch {
	case p.D != 0 || p.W >= 0:
		return date.Day
	case p.M != 0:
		return date.Month
	case p.Y != 0:
		return date.Year
	}
	return date.Day
}

func init() {
	type word struct {
		s string
		p date.Period
	}
	words := []word{
		{"now", date.Second}, {"today", date.Day}, {"yesterday", date.Day}, {"tomorrow", date.Day}, {"last week", date.Day}, {"next week", date.Day},
		{"this week", date.Day}, {"last month", date.Month}, {"next month", date.Month}, {"this month", date.Month}, {"last year", date.Year},
		{"next year", date.Year}, {"this year", date.Year}, {"day before yesterday", date.Day}, {"a decade ago", date.Year}, {"an hour ago", date.Hour},
		{"a minute ago", date.Minute}, {"a second ago", date.Second}, {"in an hour", date.Hour}, {"1 month, 1 week ago", date.Day}, {"1 year, 1 month ago", date.Month},
	}
	relUnitPeriod := []date.Period{date.Year, date.Year, date.Month, date.Day, date.Day, date.Hour, date.Minute, date.Second}
	props["P16"] = &Prop{
		Rule:     "strings that state known parts (English, ten other languages, relative phrases of every unit set, timestamps, layouts, digits without separators, Jalali, Hijri) are parsed with and without ReturnTimeAsPeriod; the period must be that of the finest stated part and must not depend on the preferences; non-trivial: distinct (string, option)",
		Quick:    40000,
		Thorough: 1200000,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			now := genNow(r, genLoc(r))
			cfg, _ := cfgEn(r, now)
			cfg.Locales, cfg.Languages = nil, []string{"en"}
			if chance(r, 0.2) {
				cfg.DefaultTimezone = genLoc(r)
			}
			cfg.PreferredDateSource = dps.PreferredDateSource(r.IntN(3))
			cfg.PreferredDayOfMonth = dps.PreferredDayOfMonth(r.IntN(3))
			cfg.PreferredMonthOfYear = dps.PreferredMonthOfYear(r.IntN(3))
			cfg.PreserveEndOfMonth = chance(r, 0.3)
			withTime := chance(r, 0.5)
			cfg.ReturnTimeAsPeriod = withTime
			call := func() (date.Date, error) { return date.Date{}, nil }
			kind, s := "", ""
			var want date.Period
			fine := func(p date.Period) date.Period { // hours and finer count only with the option
				if p.IsTime() && !withTime {
					return date.Day
				}
				return p
			}
			switch k := r.IntN(20); {
			case k < 8:
				var p Partial
				ok := false
				for !ok {
					b := r.IntN(16)
					p, ok = genPartialDate(r, b&1 != 0, b&2 != 0, b&4 != 0, chance(r, 0.2), b&8 != 0)
					if p.M == 0 && p.D != 0 && (p.D < 13 || p.D > 28) {
						ok = false // a small number alone may be the month; a large one may not exist
					}
				}
				s, kind, want = p.Text, p.Kind, p.period(withTime)
			case k < 10:
				p, l := genPartialLang(c)
				cfg.Languages = []string{l}
				s, kind, want = p.Text, p.Kind, p.period(withTime)
			case k < 15:
				p := genRelPhrase(r, false)
				s, kind, want = p.Text, "relative", date.Year
				for _, u := range p.units { // also those with the amount zero
					want = min(want, relUnitPeriod[u])
				}
				if p.H >= 0 {
					kind = "relative and time of day"
					want = min(want, clockPeriod(p.clock))
				}
				want = fine(want)
			case k < 16:
				w := pick(r, words)
				s, kind, want = w.s, "words", fine(w.p)
				if w.p == date.Day && chance(r, 0.4) {
					s, kind = s+" at 10:30", "words and time of day"
					want = fine(date.Minute)
				}
			case k < 17:
				s, kind, want = strconv.Itoa(between(r, 1e9, 9e9)), "timestamp", fine(date.Second)
				if s += pick(r, []string{"", "123", "123456"}); len(s) == 10 && chance(r, 0.4) {
					s, kind = "-"+s, "negative timestamp"
				}
			case k < 18:
				y, m, d := genDay(r, 1000, 2999)
				t := time.Date(y, time.Month(m), d, r.IntN(24), r.IntN(60), 0, 0, time.UTC)
				l := pick(r, []struct {
					l string
					p date.Period
				}{
					{"2006|01|02", date.Day}, {"02 Jan 2006", date.Day}, {"January 2 2006", date.Day}, {"2006-01", date.Month}, {"Jan 2006", date.Month},
					{"01 (2006)", date.Month}, {"2006", date.Year}, {"year 2006", date.Year}, {"[2006]", date.Year}, {"2006-01-02 15:04", date.Day}, {"Monday, 2 January 2006", date.Day},
				})
				s, kind, want = t.Format(l.l), "layout", l.p
				cfg.ReturnTimeAsPeriod = false
				call = func() (date.Date, error) { return c.P.Parse(cfg, s, "wrong 2006", l.l) }
			case k < 19:
				y, m, d := genDay(r, 1000, 2999)
				s, kind, want = fmt.Sprintf("%04d%02d%02d", y, m, d), "digits", date.Day
				cfg.DateOrder = dps.YMD
			default:
				cfg.DateOrder = dps.YMD
				full := chance(r, 0.6)
				clock := chance(r, 0.4)
				if chance(r, 0.5) {
					y, m, d := between(r, 1300, 1450), between(r, 1, 12), between(r, 1, 29)
					s, kind, want = fmt.Sprintf("%d %s %d", y, faMonths[m-1], d), "Jalali", date.Day
					if !full {
						s, want = fmt.Sprintf("%d %s", y, faMonths[m-1]), date.Month
					}
					call = func() (date.Date, error) { return dps.ParseJalali(cfg, s) }
				} else {
					y, m, d := between(r, 1400, 1480), between(r, 1, 12), between(r, 1, 29)
					s, kind, want = fmt.Sprintf("%d-%02d-%02d", y, m, d), "Hijri", date.Day
					if !full {
						s, want = fmt.Sprintf("%d-%02d", y, m), date.Month
					}
					call = func() (date.Date, error) { return dps.ParseHijri(cfg, s) }
				}
				if clock {
					s += " 10:30:15"
					kind += " and time"
					if withTime {
						want = date.Second
					}
				}
			}
			c.desc = fmt.Sprintf("%q %s", s, showCfg(cfg))
			var d date.Date
			var err error
			if kind == "layout" || strings.HasPrefix(kind, "Jalali") || strings.HasPrefix(kind, "Hijri") {
				d, err = call()
			} else {
				d, err = c.P.Parse(cfg, s)
			}
			c.Eval(1)
			c.Seen(s + fmt.Sprint(withTime))
			c.Count(kind)
			c.Count("period " + want.String())
			if err != nil {
				c.Fail(kind, "%s: %v [%s]", c.desc, err, kind)
			} else if d.Period != want {
				c.Fail(kind, "%s: got period %s, want %s [%s]", c.desc, d.Period, want, kind)
			}
		},
	}
}
