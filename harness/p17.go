package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// ---------- P17: timestamps ----------

// isSplit tells that the digits of s are those of the year, month, day and time of t.
func isSplit(s string, t time.Time) bool {
	two := func(n int) (l []string) {
		l = append(l, fmt.Sprintf("%02d", n))
		if n < 10 {
			l = append(l, strconv.Itoa(n))
		}
		return
	}
	if t.Nanosecond() != 0 {
		return false
	}
	years := []string{fmt.Sprintf("%04d", t.Year())}
	if t.Year() >= 1969 && t.Year() <= 2068 {
		years = append(years, fmt.Sprintf("%02d", t.Year()%100))
	}
	date := [][]string{years, two(int(t.Month())), two(t.Day())}
	clock := [][]string{two(t.Hour()), two(t.Minute()), two(t.Second())}
	clockText := func(rest string) bool {
		left := []string{rest}
		for k := 0; ; k++ {
			for _, x := range left {
				if x == "" {
					// what is not stated is zero
					return k > 2 || k == 2 && t.Second() == 0 || k == 1 && t.Minute()+t.Second() == 0 || k == 0 && t.Hour()+t.Minute()+t.Second() == 0
				}
			}
			if k == 3 {
				return false
			}
			var next []string
			for _, x := range left {
				for _, c := range clock[k] {
					if strings.HasPrefix(x, c) {
						next = append(next, x[len(c):])
					}
				}
			}
			left = next
		}
	}
	for _, p := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		for _, a := range date[p[0]] {
			for _, b := range date[p[1]] {
				for _, c := range date[p[2]] {
					if strings.HasPrefix(s, a+b+c) && clockText(s[len(a+b+c):]) {
						return true
					}
				}
			}
		}
	}
	return false
}

func genDigits(c *Case, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + c.R.IntN(10))
	}
	if chance(c.R, 0.3) && n >= 8 {
		y, m, d := genDay(c.R, 1000, 2999)
		copy(b, fmt.Sprintf("%04d%02d%02d", y, m, d))
	}
	return string(b)
}

func init() {
	types := [][]dps.ParserType{
		nil, {dps.Timestamp}, {dps.NegativeTimestamp, dps.Timestamp}, {dps.Timestamp, dps.AbsoluteTime}, {dps.Timestamp, dps.NegativeTimestamp, dps.NoSpacesTime},
	}
	props["P17"] = &Prop{
		Rule:     "10, 13 and 16 digits (all ranges, leading zeros, white space around), with a minus sign for 10, in random locales and configurations of all kinds (zones, orders, strict parsing, layouts, lists of parser types) must give the instant that the digits say; digit strings of other lengths up to 24 must give an error or a split of their digits; non-trivial: distinct string",
		Quick:    60000,
		Thorough: 1500000,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			cfg := genCfg(r, pick(r, locales).N, false)
			if cfg == nil || len(cfg.Locales) == 0 && len(cfg.Languages) == 0 {
				if chance(r, 0.7) { // all locales take long
					cfg = &dps.Configuration{Languages: []string{"en"}, CurrentTime: genNow(r, genLoc(r))}
				}
			}
			sec := int64(r.IntN(1e10))
			switch r.IntN(6) {
			case 0:
				sec = int64(r.IntN(1e6))
			case 1:
				sec = 9999999999 - int64(r.IntN(1e6))
			case 2:
				sec = int64(1<<31 + between(r, -3, 3))
			}
			frac := r.IntN(1e6)
			s, kind := "", ""
			var want time.Time
			p := &dps.Parser{}
			switch r.IntN(8) {
			case 0, 1:
				s, kind, want = fmt.Sprintf("%010d", sec), "seconds", time.Unix(sec, 0)
			case 2, 3:
				s, kind, want = fmt.Sprintf("%010d%03d", sec, frac/1000), "milliseconds", time.Unix(sec, int64(frac/1000)*1e6)
			case 4:
				s, kind, want = fmt.Sprintf("%010d%06d", sec, frac), "microseconds", time.Unix(sec, int64(frac)*1e3)
			case 5:
				s, kind, want = fmt.Sprintf("-%010d", sec), "negative", time.Unix(-sec, 0)
			default:
				n := between(r, 5, 24)
				for n == 10 || n == 13 || n == 16 {
					n = between(r, 5, 24)
				}
				s = genDigits(c, n)
				kind = "other length"
				if cfg != nil {
					cfg.DefaultTimezone = nil
				}
				d, err := c.P.Parse(cfg, s)
				c.Eval(1)
				c.Seen(s)
				c.Count(kind)
				if err == nil && !isSplit(s, d.Time) {
					c.Fail(kind, "%q %s: got %s, which is no split of these digits", s, showCfg(cfg), wall(d.Time))
				}
				return
			}
			tp := pick(r, types)
			if kind == "negative" && len(tp) > 0 {
				tp = pick(r, [][]dps.ParserType{{dps.NegativeTimestamp}, {dps.NegativeTimestamp, dps.AbsoluteTime}, {dps.Timestamp, dps.NegativeTimestamp}})
			}
			p.ParserTypes = tp
			if tp == nil {
				p = c.P
			}
			var formats []string
			if chance(r, 0.1) {
				formats = pick(r, [][]string{{time.RFC3339}, {"January 2, 2006", "02.01.2006"}, {"Mon 2 Jan"}})
			}
			text := s
			if chance(r, 0.2) {
				text = pick(r, []string{" ", "\t", "\n", ""}) + s + pick(r, []string{" ", "  ", "\n", ""})
			}
			c.desc = fmt.Sprintf("%q %s types %v layouts %q", text, showCfg(cfg), tp, formats)
			d, err := p.Parse(cfg, text, formats...)
			c.Eval(1)
			c.Seen(s)
			c.Count(kind)
			wantPeriod := date.Day
			if cfg != nil && cfg.ReturnTimeAsPeriod {
				wantPeriod = date.Second
			}
			if err != nil {
				c.Fail(kind, "%s: %v, want %s", c.desc, err, want.UTC())
			} else if !d.Time.Equal(want) {
				c.Fail(kind, "%s: got %s, want %s", c.desc, d.Time, want.UTC())
			} else if d.Period != wantPeriod {
				c.Fail(kind, "%s: got period %s", c.desc, d.Period)
			}
		},
	}

	props["P19"] = &Prop{
		Rule:     "eight and fourteen digits that are a valid date (and time) in the date order (each of the six orders in any letter case, or the locale's) must be that date; every result for 5 to 14 random, date-like and hostile digits must be a split of them; non-trivial: distinct (string, order)",
		Quick:    40000,
		Thorough: 1200000,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			cfg := &dps.Configuration{CurrentTime: genNow(r, genLoc(r)), Languages: []string{"en"}}
			cfg.StrictParsing = chance(r, 0.1)
			cfg.PreferredDateSource = dps.PreferredDateSource(r.IntN(3))
			cfg.PreferredMonthOfYear = dps.PreferredMonthOfYear(r.IntN(3))
			cfg.PreferredDayOfMonth = dps.PreferredDayOfMonth(r.IntN(3))
			if chance(r, 0.2) {
				cfg.DefaultTimezone = genLoc(r)
			}
			order, how := pick(r, orderNames), "DateOrder"
			if chance(r, 0.3) {
				ent := pick(r, locales)
				order, how = ent.D, "locale"
				if order == "" {
					order = "MDY"
				}
				cfg.Languages, cfg.Locales = nil, []string{ent.N}
				if chance(r, 0.2) {
					bad := pick(r, badOrders)
					cfg.DateOrder = func(string) string { return bad }
				}
			} else {
				given := mixCase(r, order)
				cfg.DateOrder = func(string) string { return given }
			}
			y, m, d := genDay(r, 1000, 9999)
			if chance(r, 0.5) {
				y = between(r, 1900, 2099)
				d = min(d, lastDay(y, m))
			}
			part := map[byte]string{'Y': fmt.Sprintf("%04d", y), 'M': fmt.Sprintf("%02d", m), 'D': fmt.Sprintf("%02d", d)}
			s := part[order[0]] + part[order[1]] + part[order[2]]
			want := time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)
			kind := "eight digits"
			switch r.IntN(5) {
			case 0:
				h, mi, sec := genClock(r)
				s += fmt.Sprintf("%02d%02d%02d", h, mi, sec)
				want = time.Date(y, time.Month(m), d, h, mi, sec, 0, time.UTC)
				kind = "fourteen digits"
			case 1:
				n := pick(r, []int{5, 6, 7, 8, 9, 11, 12, 14})
				s, kind = genDigits(c, n), "any digits"
			case 2: // two-digit years, missing zeros, times of any length
				s = strings.TrimLeft(part[order[0]], "0") + strings.TrimLeft(part[order[1]], "0") + strings.TrimLeft(part[order[2]], "0")
				if chance(r, 0.5) {
					part['Y'] = part['Y'][2:]
					s = part[order[0]] + part[order[1]] + part[order[2]]
				}
				if chance(r, 0.4) {
					h, mi, sec := genClock(r)
					s += pick(r, []string{strconv.Itoa(h), fmt.Sprintf("%02d", h), fmt.Sprintf("%02d%02d", h, mi), fmt.Sprintf("%d%d%d", h, mi, sec)})
				}
				kind = "any digits"
				if len(s) == 10 || len(s) == 13 || len(s) < 5 {
					return
				}
			}
			text := s
			if chance(r, 0.1) {
				text = " " + s + "\n"
			}
			c.desc = fmt.Sprintf("%q order %s (%s) %s", text, order, how, showCfg(cfg))
			dt, err := c.P.Parse(cfg, text)
			c.Eval(1)
			c.Seen(s + order)
			c.Count(kind + ", " + order + ", " + how)
			if kind == "any digits" {
				if err == nil {
					c.Count("any digits, understood")
					if !isSplit(s, dt.Time) {
						c.Fail(kind, "%s: got %s, which is no split of these digits", c.desc, wall(dt.Time))
					}
				}
				return
			}
			if err != nil {
				c.Fail(kind, "%s: %v, want %s", c.desc, err, wall(want))
			} else if wall(dt.Time) != wall(want) {
				c.Fail(kind, "%s: got %s, want %s", c.desc, wall(dt.Time), wall(want))
			}
		},
	}
}
