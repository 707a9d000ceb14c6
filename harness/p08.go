package main

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"strconv"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
)

// wallIn gives the moment with the given wall clock in loc, and whether it exists there.
func wallIn(w time.Time, loc *time.Location) (time.Time, bool) {
	t := time.Date(w.Year(), w.Month(), w.Day(), w.Hour(), w.Minute(), w.Second(), w.Nanosecond(), loc)
	return t, wall(t) == wall(w)
}

// steady tells that the zone of t has the same offset during the given number of hours around it.
func steady(t time.Time, hours int) bool {
	_, a := t.Add(-time.Duration(hours) * time.Hour).Zone()
	_, b := t.Zone()
	_, c := t.Add(time.Duration(hours) * time.Hour).Zone()
	return a == b && b == c
}

// ---------- P08: date order ----------

func mixCase(r *rand.Rand, s string) string {
	switch r.IntN(3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return s
	}
	b := []byte(strings.ToLower(s))
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' && chance(r, 0.5) {
			b[i] -= 32
		}
	}
	return string(b)
}

var orderNames = []string{"YMD", "YDM", "MYD", "MDY", "DYM", "DMY"}

// greedy reads the numbers from left to right, giving each the first component of the order
// that is free and that it can be. It returns false when a number would fit nothing.
func greedy(order string, nums []string) (map[byte]int, bool) {
	got := map[byte]int{}
	for _, s := range nums {
		n, _ := strconv.Atoi(s)
		ok := false
		for i := range 3 {
			o := order[i]
			if _, taken := got[o]; taken {
				continue
			}
			fits := o == 'Y' && (len(s) == 4 || len(s) == 2) || len(s) <= 2 && (o == 'D' && n >= 1 && n <= 31 || o == 'M' && n >= 1 && n <= 12)
			if fits {
				got[o], ok = n, true
				break
			}
		}
		if !ok {
			return nil, false
		}
	}
	return got, true
}

func validYMD(y, m, d int) bool {
	return m >= 1 && m <= 12 && d >= 1 && d <= lastDay(y, m)
}

func century(y int) int {
	if y < 69 {
		return 2000 + y
	}
	return 1900 + y
}

var badOrders = []string{"", "Y", "XYZ", "DMM", "DDMMYY", "D-M-Y", "YMDX", "MD", "日月年"}

func init() {
	props["P08"] = &Prop{
		Rule:     "random numeric dates (4 and 2 digit years, padded or not, four separators, in any of the six layouts) are parsed and searched with per-locale DateOrder callbacks (valid in any letter case, invalid) or without in all locales; the result must be the reading that the effective order gives, or, when the order cannot place the numbers, an error or another assignment of exactly these numbers; the callback must be asked about known locales only, among them that of the result; in several locales with several orders the result is that of the first locale which can read the string in its order; non-trivial: distinct (locale, order, string)",
		Quick:    30000,
		Thorough: 1000000,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			y, m, d := genDay(r, 1800, 2199)
			if chance(r, 0.4) {
				d = between(r, 1, 12)
			}
			nows := genNow(r, pick(r, []*time.Location{time.UTC, time.FixedZone("XX", between(r, -40, 50)*900)}))
			cfg := &dps.Configuration{CurrentTime: nows}
			ent := pick(r, locales)
			if chance(r, 0.3) {
				ent = localeIdx["en"]
			}
			loc := ent.N
			cfg.Locales = []string{loc}
			order := ent.D
			if order == "" {
				order = "MDY"
			}
			asked := map[string]bool{}
			how := "locale"
			switch r.IntN(5) {
			case 0: // the locale's order
			case 1: // invalid order: ignored
				bad := pick(r, badOrders)
				how = "invalid"
				cfg.DateOrder = func(l string) string { asked[l] = true; return bad }
			default:
				how = "DateOrder"
				o := pick(r, orderNames)
				given := mixCase(r, o)
				other := pick(r, orderNames)
				order = o
				cfg.DateOrder = func(l string) string {
					asked[l] = true
					if l == loc {
						return given
					}
					return other
				}
			}
			// layout of the string
			layout := order
			if chance(r, 0.4) {
				layout = pick(r, orderNames)
			}
			ys := strconv.Itoa(y)
			short := chance(r, 0.25)
			if short {
				ys = fmt.Sprintf("%02d", y%100)
			}
			part := map[byte]string{'Y': ys, 'M': dnum(r, m), 'D': dnum(r, d)}
			nums := []string{part[layout[0]], part[layout[1]], part[layout[2]]}
			sep := pick(r, []string{"/", "-", ".", "/"})
			s := strings.Join(nums, sep)
			want, fits := greedy(order, nums)
			decided := fits
			if fits && len(strconv.Itoa(want['Y'])) < 4 && !short {
				decided = false // a two digit number went into the year before the year itself came
			}
			year := 0
			if decided {
				year = want['Y']
				if short {
					year = century(year)
				}
				if !validYMD(year, want['M'], want['D']) {
					decided = false
				}
			}
			kind := "same layout"
			if layout != order {
				kind = "other layout"
			}
			if !decided {
				kind = "not in order"
			}
			c.desc = fmt.Sprintf("%q locale %s order %s (%s) now %s", s, loc, order, how, nows.Format(time.RFC3339))
			isReading := func(t time.Time) bool {
				for _, p := range []string{"012", "021", "102", "120", "201", "210"} {
					a, _ := strconv.Atoi(nums[p[0]-'0'])
					b, _ := strconv.Atoi(nums[p[1]-'0'])
					e, _ := strconv.Atoi(nums[p[2]-'0'])
					if (t.Year() == a || len(nums[p[0]-'0']) <= 2 && t.Year()%100 == a) && int(t.Month()) == b && t.Day() == e {
						return true
					}
				}
				return false
			}
			if chance(r, 0.12) && sep != "." && how != "locale" && how != "invalid" && !short {
				// search
				text := pick(r, []string{"The meeting was on %s and", "Published %s", "It is about %s"})
				loc = "en"
				cfg.Locales = nil
				rs, err := c.P.SearchWithLanguage(cfg, "en", fmt.Sprintf(text, s))
				c.Eval(1)
				c.Count("search " + kind)
				c.Seen("search " + order + s)
				if kind == "not in order" {
					return
				}
				if err != nil || len(rs) != 1 || rs[0].Date.Time.Year() != year || int(rs[0].Date.Time.Month()) != want['M'] || rs[0].Date.Time.Day() != want['D'] {
					c.Fail("search", "searching %q: %s: %s", fmt.Sprintf(text, s), c.desc, outSearch("en", rs, err))
				}
				return
			}
			if chance(r, 0.3) {
				c.severalOrders(s, nows)
				return
			}
			hh, mm := 0, 0
			if chance(r, 0.3) {
				hh, mm, _ = genClock(r)
				clock := fmt.Sprintf("%02d:%02d", hh, mm)
				switch {
				case chance(r, 0.5):
					s = s + " " + clock
					c.Count("with time behind")
				case !strings.Contains(s, ".") && chance(r, 0.3):
					s = clock + ". " + s
					c.Count("with time in a sentence in front")
				default:
					s = clock + " " + s
					c.Count("with time in front")
				}
				c.desc = fmt.Sprintf("%q locale %s order %s (%s) now %s", s, loc, order, how, nows.Format(time.RFC3339))
			}
			dt, err := c.P.Parse(cfg, s)
			c.Eval(1)
			c.Count(how + ", " + kind)
			c.Seen(loc + order + s)
			for l := range asked {
				if _, ok := localeIdx[l]; !ok {
					c.Fail("asked", "%s: DateOrder was called with %q, which is no locale", c.desc, l)
				}
			}
			if err == nil && cfg.DateOrder != nil && !asked[dt.Locale] {
				c.Fail("asked", "%s: DateOrder was not called for locale %s of the result", c.desc, dt.Locale)
			}
			switch {
			case decided && err != nil:
				c.Fail(kind, "%s: %v, want %04d-%02d-%02d", c.desc, err, year, want['M'], want['D'])
			case decided:
				if dt.Time.Year() != year || int(dt.Time.Month()) != want['M'] || dt.Time.Day() != want['D'] || dt.Time.Hour() != hh || dt.Time.Minute() != mm || dt.Time.Second() != 0 {
					c.Fail(kind, "%s: got %s, want %04d-%02d-%02d %02d:%02d", c.desc, wall(dt.Time), year, want['M'], want['D'], hh, mm)
				}
			case err == nil && !isReading(dt.Time):
				c.Fail(kind, "%s: got %s, which is no reading of these numbers", c.desc, wall(dt.Time))
			}
			if err == nil && dt.Locale != loc {
				c.Fail("locale", "%s: locale %s", c.desc, dt.Locale)
			}
		},
	}
}

// severalOrders parses s in several locales, for which the callback has different orders: the
// result must be that of the first locale which reads s in its own order.
func (c *Case) severalOrders(s string, now time.Time) {
	r := c.R
	orders := map[string]string{}
	var locs, langs []string
	for n := between(r, 2, 4); len(locs) < n; {
		ent := pick(r, locales)
		lang, _ := splitLocale(ent.N)
		if slices.Contains(langs, lang) {
			continue
		}
		langs = append(langs, lang)
		locs = append(locs, ent.N)
		switch r.IntN(5) {
		case 0:
			orders[ent.N] = ""
		case 1:
			orders[ent.N] = pick(r, badOrders)
		default:
			orders[ent.N] = mixCase(r, pick(r, orderNames))
		}
	}
	cfg := &dps.Configuration{CurrentTime: now, Locales: locs, UseGivenOrder: true}
	cfg.DateOrder = func(l string) string { return orders[l] }
	want := "ERR"
	for _, l := range locs {
		o := orders[l]
		one := &dps.Configuration{CurrentTime: now, Locales: []string{l}, DateOrder: func(string) string { return o }}
		dt, err := c.P.Parse(one, s)
		c.Eval(1)
		if err == nil {
			want = fmt.Sprint(wall(dt.Time), dt.Period, dt.Locale)
			if l != locs[0] {
				c.Count("several orders, not the first")
			}
			break
		}
	}
	dt, err := c.P.Parse(cfg, s)
	c.Eval(1)
	got := "ERR"
	if err == nil {
		got = fmt.Sprint(wall(dt.Time), dt.Period, dt.Locale)
	}
	c.Count("several orders")
	c.Seen(fmt.Sprint("several", s, orders))
	if got != want {
		c.Fail("several orders", "%q locales %v orders %v now %s: got %s, want %s", s, locs, orders, now.Format(time.RFC3339), got, want)
	}
}
