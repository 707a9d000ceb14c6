package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
)

// ---------- P10: relative dates ----------

// relPhrase is an English relative phrase with its amounts, in the units of relUnits.
type relPhrase struct {
	Text   string
	Amount [8]float64 // decade .. second
	Dir    int        // -1 ago, 1 in, 0 not stated
	H, M   int        // time of day, H < 0: none
	S      int
	clock  int // finest part of the time of day (2 minute, 3 second)
	frac   bool
	units  []int
}

var numberWords = []string{"", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve"}

var unitMax = [8]int{19, 190, 2000, 8000, 60000, 200000, 2000000, 20000000}

func genRelPhrase(r *rand.Rand, fractions bool) relPhrase {
	p := relPhrase{H: -1}
	n := pick(r, []int{1, 1, 1, 1, 2, 2, 3, 4, 8})
	var units []int
	for u := range 8 {
		units = append(units, u)
	}
	r.Shuffle(8, func(a, b int) { units[a], units[b] = units[b], units[a] })
	units = units[:n]
	if chance(r, 0.8) { // largest first
		for i := range units {
			for j := i + 1; j < n; j++ {
				if units[j] < units[i] {
					units[i], units[j] = units[j], units[i]
				}
			}
		}
	}
	p.units = units
	fracAt := -1
	if fractions && chance(r, 0.25) {
		fracAt = r.IntN(n)
	}
	var parts []string
	for i, u := range units {
		hi := unitMax[u]
		switch r.IntN(4) {
		case 0:
			hi = 3
		case 1:
			hi = 15
		case 2:
			hi = min(hi, 100)
		}
		hi = max(1, hi/n)
		a := r.IntN(hi + 1)
		w := strconv.Itoa(a)
		word := pick(r, enUnits[u])
		full := len(word) > 3 || word == "day"
		glue := pick(r, []string{" ", " ", " ", "", "  "})
		if i == fracAt && u < 7 {
			f := pick(r, []float64{0.5, 0.25, 0.75, 0.125})
			if u == 0 || u == 3 {
				f = 0.5
			}
			w = strconv.FormatFloat(float64(a)+f, 'f', -1, 64)
			p.Amount[u] = float64(a) + f
			p.frac = true
		} else {
			p.Amount[u] = float64(a)
			if a >= 1 && a <= 12 && full && chance(r, 0.2) {
				w, glue = numberWords[a], " "
			} else if a == 1 && full && chance(r, 0.5) {
				w, glue = "a", " "
				if word[0] == 'h' {
					w = "an"
				}
			}
		}
		parts = append(parts, w+glue+word)
	}
	sep := pick(r, []string{" ", " ", ", ", " and ", ","})
	s := strings.Join(parts, sep)
	if n > 1 && chance(r, 0.3) {
		s = strings.Join(parts[:n-1], ", ") + " and " + parts[n-1]
	}
	switch r.IntN(5) {
	case 0, 1:
		p.Dir = -1
		s += pick(r, []string{" ago", " ago", " before"})
	case 2, 3:
		p.Dir = 1
		switch r.IntN(4) {
		case 0:
			s += " after"
		default:
			s = "in " + s
		}
	}
	if chance(r, 0.15) && p.Dir != 0 {
		p.H, p.M = r.IntN(24), r.IntN(60)
		p.clock = 2
		at := pick(r, []string{" at ", " "})
		switch r.IntN(3) {
		case 0:
			h, ap := h12(p.H)
			s += fmt.Sprintf("%s%d:%02d %s", at, h, p.M, ap)
		case 1:
			p.S = r.IntN(60)
			p.clock = 3
			s += fmt.Sprintf("%s%02d:%02d:%02d", at, p.H, p.M, p.S)
		default:
			s += fmt.Sprintf("%s%02d:%02d", at, p.H, p.M)
		}
	}
	switch r.IntN(6) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		s = strings.ToUpper(s[:1]) + s[1:]
	}
	p.Text = s
	return p
}

// units in whole numbers: a fraction of a year is twelfths, of a month thirtieths, and so on.
func (p relPhrase) whole() (y, m, d, h, mi, s int) {
	part := func(x, per float64) (int, float64) {
		x *= per
		f := math.Floor(x)
		return int(f), x - f
	}
	y, f := part(p.Amount[0]*10+p.Amount[1], 1)
	rest := func(f float64, from int) {
		per := []float64{12, 30, 24, 60, 60}
		to := []*int{&m, &d, &h, &mi, &s}
		for k := from; k < 5; k++ {
			a := 0
			a, f = part(f, per[k])
			*to[k] += a
		}
	}
	rest(f, 0)
	for k, x := range []float64{p.Amount[2], p.Amount[3]*7 + p.Amount[4], p.Amount[5], p.Amount[6]} {
		a, f := part(x, 1)
		*[]*int{&m, &d, &h, &mi}[k] += a
		rest(f, k+1)
	}
	s += int(p.Amount[7])
	return
}

// eval is the model: calendar arithmetic by the components, then elapsed time.
func (p relPhrase) eval(now time.Time, dir int, keepEnd bool) time.Time {
	y, m, d, h, mi, s := p.whole()
	y, m, d = dir*y, dir*m, dir*d
	Y, M, D := now.Date()
	mm := Y*12 + int(M) - 1 + 12*y + m
	ty, tm := mm/12, mm%12
	if tm < 0 {
		ty, tm = ty-1, tm+12
	}
	if keepEnd {
		D = min(D, lastDay(ty, tm+1))
	}
	// days count on from the (possibly overflowing) day of the target month
	t := time.Date(ty, time.Month(tm+1), D+d, now.Hour(), now.Minute(), now.Second(), now.Nanosecond(), now.Location())
	t = t.Add(time.Duration(dir) * (time.Duration(h)*time.Hour + time.Duration(mi)*time.Minute + time.Duration(s)*time.Second))
	if p.H >= 0 {
		Y, M, D := t.Date()
		t = time.Date(Y, M, D, p.H, p.M, p.S, 0, t.Location())
	}
	return t
}

func init() {
	words := []struct {
		s string
		d int
	}{{"now", 0}, {"today", 0}, {"yesterday", -1}, {"tomorrow", 1}, {"just now", 0}, {"day before yesterday", -2}, {"day after tomorrow", 2}}

	props["P10"] = &Prop{
		Rule:     "English phrases of one to eight units (decades to seconds, digits, number words, one fractional amount, several spellings, orders and separators), with ago/in/before/after/later or no direction, optional time of day, random CurrentTime (IANA zones included), DefaultTimezone, PreferredDateSource and PreserveEndOfMonth are compared to independent calendar arithmetic; non-trivial: distinct phrase",
		Quick:    40000,
		Thorough: 1500000,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			now := genNow(r, genLoc(r))
			cfg := &dps.Configuration{CurrentTime: now, Languages: []string{"en"}}
			if chance(r, 0.15) {
				cfg.Languages = nil
			}
			base := now
			if chance(r, 0.3) {
				cfg.DefaultTimezone = genLoc(r)
				base = now.In(cfg.DefaultTimezone)
			}
			cfg.PreferredDateSource = dps.PreferredDateSource(r.IntN(3))
			cfg.PreserveEndOfMonth = chance(r, 0.4)
			var want time.Time
			var s, kind string
			if chance(r, 0.1) {
				w := pick(r, words)
				s, kind = w.s, "word"
				want = base.AddDate(0, 0, w.d)
				if w.d == 0 {
					want = base
				}
				if chance(r, 0.3) && w.s != "now" && w.s != "just now" {
					h, m, _ := genClock(r)
					s += fmt.Sprintf("%s%02d:%02d", pick(r, []string{" at ", " ", ", "}), h, m)
					Y, M, D := want.Date()
					want = time.Date(Y, M, D, h, m, 0, 0, base.Location())
				}
				if chance(r, 0.3) {
					s = strings.ToUpper(s[:1]) + s[1:]
				}
			} else {
				p := genRelPhrase(r, true)
				dir := p.Dir
				kind = "ago"
				switch {
				case dir == 1:
					kind = "in"
				case dir == 0:
					kind = "no direction"
					dir = -1
					if cfg.PreferredDateSource == dps.Future {
						dir = 1
					}
				}
				if p.frac {
					kind += ", fraction"
				}
				if p.H >= 0 {
					kind += ", time of day"
				}
				s = p.Text
				want = p.eval(base, dir, cfg.PreserveEndOfMonth)
				// Months are moved by the calendar first: skip moments whose intermediate wall
				// clock may not exist.
				_, _, _, h, mi, sec := p.whole()
				mid := want.Add(-time.Duration(dir) * (time.Duration(h)*time.Hour + time.Duration(mi)*time.Minute + time.Duration(sec)*time.Second))
				if !steady(mid, 26) && base.Location() != time.UTC {
					c.Count("skipped: zone change")
					return
				}
			}
			if !steady(want, 26) && base.Location() != time.UTC {
				c.Count("skipped: zone change")
				return
			}
			c.desc = fmt.Sprintf("%q %s", s, showCfg(cfg))
			d, err := c.P.Parse(cfg, s)
			c.Eval(1)
			c.Seen(s)
			c.Count(kind)
			if err != nil {
				c.Fail(kind, "%s: %v, want %s", c.desc, err, want)
			} else if !d.Time.Equal(want) || wall(d.Time) != wall(want) {
				c.Fail(kind, "%s: got %s (%s), want %s", c.desc, d.Time, d.Locale, want)
			}
		},
	}
}
