package main

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// ---------- P18: custom layouts ----------

// genLayout gives a Go layout, and whether it states a zone.
func genLayout(r *rand.Rand) (layout string, zone string) {
	layout = pick(r, []string{
		"2006-01-02", "02/01/2006", "01/02/2006", "2 January 2006", "January 2, 2006", "Jan _2 2006", "Monday, 2 January 2006", "Mon 2 Jan 2006", "20060102",
		"2006.1.2", "2006-002", "02Jan2006", "2006年01月02日", "2 de January de 2006", "2006|2|1", "02.01.06", "January 2 '06", "[2006] 02 {01}", "day 2 of January, 2006", "2006 __2",
	})
	if chance(r, 0.7) {
		layout += pick(r, []string{" ", "T", " at ", " | ", ", ", "/", "  "})
		layout += pick(r, []string{
			"15:04:05", "15:04", "3:04PM", "03:04:05 pm", "150405", "15.04", "15:04:05.000", "15:04:05.999999999", "15h04m05s", "3 PM", "15:04:05,000000", "15",
		})
		switch r.IntN(6) {
		case 0:
			zone = " -0700"
		case 1:
			zone = "Z07:00"
		case 2:
			zone = " -07:00"
		case 3:
			zone = " MST"
		}
	}
	return layout + zone, zone
}

var stdLayouts = []string{
	time.ANSIC, time.UnixDate, time.RubyDate, time.RFC822, time.RFC822Z, time.RFC850, time.RFC1123, time.RFC1123Z, time.RFC3339, time.RFC3339Nano, time.DateTime,
}

func init() {
	var plain []monthEnt
	var abbr []tzEnt
	// layouts for translated dates, with a day, without a day, without a year
	local := []string{"2 January 2006", "2 January 2006 15:04:05", "2 January 2006 15:04", "January 2006", "2 January"}
	props["P18"] = &Prop{
		Rule:     "random composed and standard layouts with random times, zones and precisions, between layouts that do not match, and layouts of which several match; month names of all locales that are known to be translated for a layout, frozen; layouts without day, month or year; the result must be the time that was formatted; non-trivial: distinct (string, layouts)",
		Quick:    50000,
		Thorough: 1500000,
		Setup: func() {
			loadTables()
			for _, m := range months {
				if m.F {
					plain = append(plain, m)
				}
			}
			for _, z := range zoneNames() {
				s := "2006-01-02 15:04 " + z.Name
				t, err := time.ParseInLocation("2006-01-02 15:04 MST", s, time.FixedZone(z.Name, z.Offset))
				if err != nil {
					continue
				}
				if n, o := t.Zone(); n == z.Name && o == z.Offset && z.Name == strings.ToUpper(z.Name) {
					abbr = append(abbr, z)
				}
			}
		},
		Run: func(c *Case) {
			r := c.R
			cfg := genCfg(r, "", true)
			cfg.StrictParsing, cfg.RequiredParts = false, nil
			now := cfg.CurrentTime
			y, m, d := genDay(r, 1001, 9998)
			if chance(r, 0.5) {
				y = between(r, 1970, 2067)
				d = min(d, lastDay(y, m))
			}
			h, mi, s := genClock(r)
			t := time.Date(y, time.Month(m), d, h, mi, s, r.IntN(1e9), time.UTC)
			dflt := time.UTC
			if cfg.DefaultTimezone != nil {
				dflt = cfg.DefaultTimezone
			}
			check := func(kind, text string, formats []string, want time.Time, loc *time.Location, period date.Period) {
				c.desc = fmt.Sprintf("%q %s layouts %q", text, showCfg(cfg), formats)
				got, err := c.P.Parse(cfg, text, formats...)
				c.Eval(1)
				c.Seen(text + strings.Join(formats, "\x00"))
				c.Count(kind)
				if err != nil {
					c.Fail(kind, "%s: %v, want %s", c.desc, err, wall(want))
					return
				}
				w, _ := wallIn(want, loc)
				if wall(got.Time) != wall(w) || !got.Time.Equal(w) {
					c.Fail(kind, "%s: got %s, want %s", c.desc, got.Time, w)
				} else if got.Period != period {
					c.Fail(kind, "%s: got period %s, want %s", c.desc, got.Period, period)
				}
			}
			switch k := r.IntN(10); {
			case k < 5: // complete layouts
				l, zone := genLayout(r)
				loc := dflt
				if chance(r, 0.15) {
					l = pick(r, stdLayouts)
					zone = ""
					switch {
					case strings.Contains(l, "MST"):
						zone = " MST"
					case strings.Contains(l, "Z07:00"):
						zone = "Z07:00"
					case strings.Contains(l, "-0700"):
						zone = " -0700"
					}
				}
				if strings.Contains(l, "06") && !strings.Contains(l, "2006") && (y < 1969 || y > 2068) {
					return
				}
				switch zone {
				case " MST":
					z := pick(r, abbr)
					loc = time.FixedZone(z.Name, z.Offset)
				case "":
				default:
					loc = time.FixedZone("", between(r, -48, 56)*900)
				}
				x, ok := wallIn(t, loc)
				if !ok {
					return
				}
				text := x.Format(l)
				var formats []string
				for range r.IntN(4) {
					o, _ := genLayout(r)
					if chance(r, 0.2) {
						o = pick(r, []string{"", "nonsense", "2006", "15:04", "January", time.Kitchen})
					}
					if chance(r, 0.2) {
						o = strings.NewReplacer("01", "02", "02", "01").Replace(l)
					}
					formats = append(formats, o)
				}
				formats = append(formats, l)
				for range r.IntN(2) {
					o, _ := genLayout(r)
					formats = append(formats, o)
				}
				// the first one that matches
				var first string
				for _, f := range formats {
					if _, err := time.ParseInLocation(f, text, loc); err == nil {
						first = f
						break
					}
				}
				want, _ := time.ParseInLocation(first, text, loc)
				if first != l {
					a := time.Date(2007, 8, 9, 0, 0, 0, 0, time.UTC).Format(first)
					if !strings.Contains(a, "07") || !strings.Contains(a, "8") && !strings.Contains(a, "Aug") || !strings.Contains(a, "9") {
						return // states less than a date
					}
					c.Count("other layout matches first")
				} else if again, err := time.ParseInLocation(l, text, loc); err != nil || again.Format(l) != text {
					return // does not round trip in the library itself
				}
				if z, o := want.Zone(); zone == "" && first == l && (z != "" || o != 0) && loc != dflt {
					return
				}
				if zone == "" {
					// text that ends like a zone
					if _, n, _ := dps.PopTzOffset(text); n != "" {
						c.Count("skipped: ends like a zone")
						return
					}
				}
				_, o := want.Zone()
				kind := "complete, " + map[string]string{"": "no zone", " MST": "abbreviation", " -0700": "offset", " -07:00": "offset", "Z07:00": "offset"}[zone]
				if !slices.Contains(stdLayouts, l) {
					kind += ", composed"
				}
				check(kind, text, formats, want, time.FixedZone("", o), date.Day)
			case k < 7: // layouts that state less
				l := pick(r, []string{"January 2006", "01/2006", "2006-01", "Jan 06", "2006", "in 2006", "January 2", "02.01", "2 Jan 15:04", "2006-01 (15h)", "January", "Jan 2 3:04PM",
					"2006 3PM", "2006 at 3:04PM", "Jan 2006 3PM", "2006-01 03 PM", "January 03:04PM", "3:04PM 2006", "2006 15h", "Jan 2 3PM", "01 2006 3PM", "2 January 3:04 PM"})
				if strings.Contains(l, "06") && !strings.Contains(l, "2006") && (y < 1969 || y > 2068) {
					return
				}
				text := t.Format(l)
				if _, n, _ := dps.PopTzOffset(text); n != "" {
					return
				}
				has := time.Date(2006, 5, 17, 22, 33, 44, 0, time.UTC).Format(l)
				p := Partial{W: -1, H: -1}
				period := date.Year
				if strings.Contains(has, "06") {
					p.Y = y
				}
				if strings.Contains(has, "5") || strings.Contains(has, "May") {
					p.M = m
					period = date.Month
				}
				if strings.Contains(has, "17") {
					p.D = d
					period = date.Day
				}
				rd := *cfg
				want := p.complete(now, &rd)
				w := want[0]
				if m == 2 && d == 29 && p.Y == 0 && p.D != 0 && !leap(now.Year()) {
					ly := now.Year()
					for !leap(ly) {
						if cfg.PreferredDateSource == dps.Past {
							ly--
						} else {
							ly++
						}
					}
					if cfg.PreferredDateSource == dps.CurrentPeriod && len(want) == 1 {
						ly = want[0].Year()
					} else if cfg.PreferredDateSource == dps.CurrentPeriod {
						return // two years are as close
					}
					w = time.Date(ly, 2, 29, 0, 0, 0, 0, time.UTC)
				}
				clock := t
				u, _ := time.Parse(l, text)
				clock = u
				w = time.Date(w.Year(), w.Month(), w.Day(), clock.Hour(), clock.Minute(), clock.Second(), clock.Nanosecond(), time.UTC)
				for _, g := range []time.Time{w, w.AddDate(0, 0, 1-w.Day()), w.AddDate(0, 0, 1-w.YearDay())} { // also what is completed on the way
					if _, ok := wallIn(g, dflt); !ok {
						return
					}
				}
				check("partial", text, []string{"wrong 2006", l}, w, dflt, period)
			default: // translated
				e := pick(r, plain)
				cfg = &dps.Configuration{CurrentTime: now, DefaultTimezone: cfg.DefaultTimezone, Locales: []string{e.L}, PreferredDayOfMonth: cfg.PreferredDayOfMonth, PreferredMonthOfYear: cfg.PreferredMonthOfYear}
				d = min(d, 28)
				l := pick(r, local)
				name := strings.TrimSuffix(strings.TrimPrefix(e.T, "{d} "), " {y}")
				w := time.Date(y, time.Month(e.M), d, h, mi, s, 0, time.UTC)
				if !strings.Contains(l, "05") {
					w = w.Truncate(time.Minute)
				}
				if !strings.Contains(l, "04") {
					w = w.Truncate(24 * time.Hour)
				}
				text := strings.Replace(w.Format(strings.Replace(l, "January", "*", 1)), "*", name, 1)
				p := Partial{W: -1, H: -1, Y: y, M: e.M, D: d}
				period := date.Day
				if !strings.Contains(l, "2006") {
					p.Y = 0
				}
				if !strings.HasPrefix(l, "2") {
					p.D, period = 0, date.Month
				}
				x := p.complete(now, cfg)[0]
				w = time.Date(x.Year(), x.Month(), x.Day(), w.Hour(), w.Minute(), w.Second(), 0, time.UTC)
				if _, ok := wallIn(w, dflt); !ok {
					return
				}
				formats := []string{l}
				if chance(r, 0.3) {
					formats = []string{"2006-01-02", "January 2, 2006", l, "2006"}
				}
				check("translated "+l, text, formats, w, dflt, period)
			}
		},
	}
}
