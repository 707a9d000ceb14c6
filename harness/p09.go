package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
)

// shift moves now by n units: calendar arithmetic for days and more, elapsed time below.
func shift(now time.Time, unit string, n int) time.Time {
	switch unit {
	case "decade":
		return now.AddDate(10*n, 0, 0)
	case "year":
		return now.AddDate(n, 0, 0)
	case "month":
		return now.AddDate(0, n, 0)
	case "week":
		return now.AddDate(0, 0, 7*n)
	case "day":
		return now.AddDate(0, 0, n)
	case "hour":
		return now.Add(time.Duration(n) * time.Hour)
	case "minute":
		return now.Add(time.Duration(n) * time.Minute)
	case "second":
		return now.Add(time.Duration(n) * time.Second)
	}
	panic("harness: unit " + unit)
}

func init() {
	fixedLoc := func(c *Case) *time.Location {
		if chance(c.R, 0.5) {
			return time.UTC
		}
		return time.FixedZone("XX", between(c.R, -48, 56)*900)
	}
	check := func(c *Case, cfg *dps.Configuration, s, what string, want time.Time, locale string) {
		dt, err := c.P.Parse(cfg, s)
		c.Eval(1)
		switch {
		case err != nil:
			c.Fail(what, "%q %s: %v, want %s", s, showCfg(cfg), err, wall(want))
		case wall(dt.Time) != wall(want):
			c.Fail(what, "%q %s: got %s (%s), want %s", s, showCfg(cfg), wall(dt.Time), dt.Locale, wall(want))
		case locale != "" && dt.Locale != locale:
			c.Fail(what, "%q %s: locale of the result is %s", s, showCfg(cfg), dt.Locale)
		}
	}

	// ---------- P09 ----------
	props["P09"] = &Prop{
		Rule:     "every localized month name notation (with and without weekday) and weekday name of the frozen tables, with random valid days (month ends weighted), years and current times, is parsed with its locale, and a sample of those that are unambiguous without; the result must be exactly that date; non-trivial: distinct table entry",
		Quick:    48000,
		Thorough: 48000 * 30,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			n := len(months) + len(wdays)
			i := c.I % n
			now := genNow(r, fixedLoc(c))
			cfg := &dps.Configuration{CurrentTime: now}
			if i < len(months) {
				m := months[i]
				y := between(r, 1000, 9999)
				if chance(r, 0.5) {
					y = between(r, 1900, 2100)
				}
				d := between(r, 1, lastDay(y, m.M))
				switch r.IntN(6) {
				case 0:
					d = lastDay(y, m.M)
				case 1:
					d = between(r, 1, 12)
				}
				want := time.Date(y, time.Month(m.M), d, 0, 0, 0, 0, time.UTC)
				s := m.text(d, y)
				cfg.Locales = []string{m.L}
				lang, region := splitLocale(m.L)
				if chance(r, 0.1) {
					cfg.Locales, cfg.Languages, cfg.Region = nil, []string{lang}, region
				}
				check(c, cfg, s, "month", want, m.L)
				c.Seen("m" + strconv.Itoa(i))
				c.Count("month name")
				if m.W != nil {
					c.Count("month and weekday name")
				}
				if m.U && i%16 == c.I/n%16 {
					cfg := &dps.Configuration{CurrentTime: now}
					// Without naming the locale a short number may be read in another way by a
					// more common language; the tables were made with days up to 28.
					if d <= 28 {
						check(c, cfg, s, "month without locale", want, "")
						c.Count("without locale")
					}
				}
				return
			}
			w := wdays[i-len(months)]
			c.Seen("w" + strconv.Itoa(i))
			c.Count("weekday name")
			want := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, time.UTC)
			for int(want.Weekday()) != w.W {
				want = want.AddDate(0, 0, -1)
			}
			cfg.Locales = []string{w.L}
			check(c, cfg, w.T, "weekday", want, w.L)
			if w.U && i%16 == c.I/n%16 {
				check(c, &dps.Configuration{CurrentTime: now}, w.T, "weekday without locale", want, "")
				c.Count("without locale")
			}
		},
	}

	// ---------- P11 ----------
	props["P11"] = &Prop{
		Rule:     "every localized relative phrase of the frozen tables (words for yesterday, last month and so on, and numbered patterns with random numbers 0-199) and random current times with any fixed offset is parsed with its locale; the result must be the current time shifted by that amount; non-trivial: distinct table entry",
		Quick:    46000,
		Thorough: 46000 * 30,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			n := len(fixeds) + len(rels)
			i := c.I % n
			now := genNow(r, fixedLoc(c))
			cfg := &dps.Configuration{CurrentTime: now}
			e, num := relEnt{}, 1
			s := ""
			if i < len(fixeds) {
				e = fixeds[i]
				s, num = e.T, e.S
				c.Count("fixed phrase")
			} else {
				e = rels[i-len(fixeds)]
				num = between(r, 0, 199)
				if chance(r, 0.4) {
					num = between(r, 0, 12)
				}
				if e.Ns != nil {
					num = pick(r, e.Ns)
				}
				s = strings.Replace(e.T, "{n}", strconv.Itoa(num), 1)
				num *= e.S
				c.Count("numbered phrase")
			}
			c.Count("unit " + e.K)
			c.Seen(fmt.Sprint(i))
			cfg.Locales = []string{e.L}
			if chance(r, 0.1) {
				lang, region := splitLocale(e.L)
				cfg.Locales, cfg.Languages, cfg.Region = nil, []string{lang}, region
			}
			if chance(r, 0.2) {
				cfg.PreferredDateSource = dps.Past // some phrases state no direction, so not Future
			}
			check(c, cfg, s, "relative", shift(now, e.K, num), e.L)
		},
	}
}
