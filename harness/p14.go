package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
)

// ---------- P14: preferred date source ----------

func init() {
	srcName := []string{"current period", "past", "future"}
	props["P14"] = &Prop{
		Rule:     "days and months without year, months, weekdays, times and dates with two-digit years (with a zone in the string, DefaultTimezone or neither; also close to CurrentTime; in English, and as Jalali and Hijri dates with their own years and centuries) are parsed under the three preferences; the result must be the one that an independent search among all candidate moments gives, and on the wanted side of CurrentTime; complete dates must not move; non-trivial: distinct (string, CurrentTime)",
		Quick:    50000,
		Thorough: 1500000,
		Setup: func() {
			loadTables()
			loadCalendars()
		},
		Run: func(c *Case) {
			r := c.R
			if chance(r, 0.15) {
				calendarSource(c)
				return
			}
			now := genNow(r, genLoc(r))
			cfg, _ := cfgEn(r, now)
			cfg.Locales, cfg.Languages = nil, []string{"en"}
			src := dps.PreferredDateSource(r.IntN(3))
			cfg.PreferredDateSource = src
			// where the wall clock of the string counts
			loc := now.Location()
			zone := ""
			kinds := []string{"day and month", "day and month", "weekday", "time", "two-digit year", "month", "complete"}
			kind := pick(r, kinds)
			clock := kind == "time" || chance(r, 0.4)
			switch r.IntN(4) {
			case 0:
				cfg.DefaultTimezone = genLoc(r)
				loc = cfg.DefaultTimezone
			case 1:
				if clock {
					o := pick(r, tzOffsets)
					zone = " " + pick(r, []string{o.Name, o.Name[3:]})
					loc = time.FixedZone("", o.Offset)
					if chance(r, 0.3) {
						cfg.DefaultTimezone = genLoc(r) // has no effect
					}
				}
			}
			// "today" is the day where CurrentTime is. Leave out the hours in which it is another
			// day in the zone of the string.
			if a, b := now, now.In(loc); a.Day() != b.Day() {
				c.Count("skipped: other day in the zone")
				return
			}
			h, mi, s := 0, 0, 0
			text := ""
			base := now
			if chance(r, 0.5) { // near now
				base = now.In(loc).Add(time.Duration(between(r, -3*86400, 3*86400)) * time.Second)
			}
			y, m, d := genDay(r, 1990, 2060)
			if chance(r, 0.5) {
				Y, M, D := base.Date()
				y, m, d = Y, int(M), D
			}
			if clock {
				h, mi, s = genClock(r)
				if chance(r, 0.4) {
					b := now.In(loc).Add(time.Duration(between(r, -4000, 4000)) * time.Second)
					h, mi, s = b.Clock()
				}
				switch r.IntN(3) {
				case 0:
					text = fmt.Sprintf("%02d:%02d:%02d", h, mi, s)
				case 1:
					s = 0
					text = fmt.Sprintf("%02d:%02d", h, mi)
				default:
					s = 0
					hh, ap := h12(h)
					text = fmt.Sprintf("%d:%02d %s", hh, mi, strings.ToLower(ap))
				}
			}
			at := func(Y, M, D int) time.Time { // wall clock
				return time.Date(Y, time.Month(M), D, h, mi, s, 0, time.UTC)
			}
			inst := func(w time.Time) time.Time {
				t, _ := wallIn(w, loc)
				return t
			}
			str := ""
			var cand []time.Time // all moments that the string may mean, as wall clocks
			var def time.Time    // the one in the current period
			sep := pick(r, []string{" ", " at "})
			join := func(day string) {
				str = day
				if clock {
					str += sep + text + zone
				}
			}
			Y0 := now.Year()
			switch kind {
			case "complete":
				join(pick(r, dateFmts[:16]).f(r, y, m, d))
				cand, def = []time.Time{at(y, m, d)}, at(y, m, d)
			case "day and month":
				if chance(r, 0.1) {
					m, d = 2, 29
				}
				mn := monthName(r, m)
				day := pick(r, []string{fmt.Sprintf("%d %s", d, mn), fmt.Sprintf("%s %02d", mn, d), fmt.Sprintf("%s %s", ordinal(d), mn)})
				if chance(r, 0.1) {
					day = pick(r, dayFull) + ", " + day // the weekday does not decide
				}
				join(day)
				for Y := Y0 - 9; Y <= Y0+9; Y++ {
					if d <= lastDay(Y, m) {
						cand = append(cand, at(Y, m, d))
						if Y == Y0 {
							def = at(Y, m, d)
						}
					}
				}
				if m == 2 && d == 29 {
					if def.IsZero() && src == dps.CurrentPeriod {
						return // P13
					}
				}
			case "month":
				if !clock {
					cfg.PreferredDayOfMonth = dps.Current
				}
				join(monthName(r, m))
				for Y := Y0 - 2; Y <= Y0+2; Y++ {
					cand = append(cand, at(Y, m, clampDay(Y, m, now.Day())))
				}
				def = cand[2]
			case "weekday":
				w := r.IntN(7)
				if chance(r, 0.3) {
					w = int(now.Weekday())
				}
				join(pick(r, []string{dayFull[w], dayAbbr[w]}))
				Y, M, D := now.Date()
				for k := -7; k <= 7; k++ {
					t := at(Y, int(M), D+k)
					if int(t.Weekday()) == w {
						switch {
						case k == 0:
							def = t
						case k < 0 && k > -7:
							def = t
						}
						if k != 0 {
							cand = append(cand, t)
						}
					}
				}
				// a weekday equal to today's is a full week away
				var pickDay time.Time
				for _, t := range cand {
					before := t.Before(at(Y, int(M), D))
					if src == dps.Past && before || src == dps.Future && !before && pickDay.IsZero() {
						pickDay = t
					}
				}
				if src == dps.CurrentPeriod {
					pickDay = def
				}
				cand, def = []time.Time{pickDay}, pickDay
			case "time":
				str = text + zone
				Y, M, D := now.Date()
				for k := -2; k <= 2; k++ {
					cand = append(cand, at(Y, int(M), D+k))
				}
				def = cand[2]
			case "two-digit year":
				if m == 2 && d == 29 {
					return // may not exist a century later
				}
				if chance(r, 0.5) {
					y = now.Year() + between(r, -1, 1)
				}
				yy := y % 100
				mn := monthName(r, m)
				day := pick(r, []string{fmt.Sprintf("%02d/%02d/%02d", m, d, yy), fmt.Sprintf("%d %s %02d", d, mn, yy), fmt.Sprintf("%s %d, %02d", mn, d, yy)})
				join(day)
				cy := century(yy)
				if !validYMD(cy, m, d) {
					return
				}
				def = at(cy, m, d)
				cand = []time.Time{at(cy-100, m, d), def, at(cy+100, m, d)}
				if src == dps.Past { // moved by one century only when it is on the wrong side
					cand = cand[:2]
				} else if src == dps.Future {
					cand = cand[1:]
				}
			}
			today, M, D := now.Date()
			if _, ok := wallIn(at(today, int(M), D), now.Location()); !ok {
				c.Count("skipped: zone change")
				return
			}
			for _, w := range append(cand, def) {
				if t, ok := wallIn(w, loc); !ok || !steady(t, 3) && loc != time.UTC {
					c.Count("skipped: zone change")
					return
				}
				if _, ok := wallIn(w, now.Location()); !ok {
					c.Count("skipped: zone change")
					return
				}
			}
			want := def
			if len(cand) > 1 {
				found := false
				switch src {
				case dps.Past:
					for _, w := range cand {
						if !inst(w).After(now) {
							want, found = w, true
						}
					}
					if !found && kind == "two-digit year" {
						want = cand[0] // cannot be reached with one century
					}
				case dps.Future:
					for i := len(cand) - 1; i >= 0; i-- {
						if !inst(cand[i]).Before(now) {
							want, found = cand[i], true
						}
					}
					if !found && kind == "two-digit year" {
						want = cand[1]
					}
				}
				for _, w := range cand {
					if inst(w).Equal(now) {
						c.Count("skipped: exactly now")
						return
					}
				}
			}
			c.desc = fmt.Sprintf("%q %s", str, showCfg(cfg))
			dt, err := c.P.Parse(cfg, str)
			c.Eval(1)
			c.Seen(str + strconv.FormatInt(now.UnixNano(), 36))
			c.Count(kind + ", " + srcName[src])
			if want.Equal(def) {
				c.Count("not moved")
			} else {
				c.Count("moved")
			}
			if err != nil {
				c.Fail(kind, "%s: %v, want %s", c.desc, err, wall(want))
			} else if wall(dt.Time) != wall(want) || !dt.Time.Equal(inst(want)) {
				c.Fail(kind, "%s: got %s, want %s (%s, %s)", c.desc, dt.Time, inst(want), kind, srcName[src])
			}
		},
	}
}

// calendarSource does the same for dates of the other calendars: without year, or with the
// last two digits of the year.
func calendarSource(c *Case) {
	r := c.R
	jalali := chance(r, 0.6)
	k, parse, name, pivot := &hijriCal, dps.ParseHijri, "ParseHijri", 89
	if jalali {
		k, parse, name, pivot = &persian, dps.ParseJalali, "ParseJalali", 60
	}
	now := genNow(r, genLoc(r))
	src := dps.PreferredDateSource(r.IntN(3))
	cfg := &dps.Configuration{CurrentTime: now, PreferredDateSource: src}
	loc := now.Location()
	if chance(r, 0.3) {
		cfg.DefaultTimezone = genLoc(r)
		loc = cfg.DefaultTimezone
	}
	ny, nm, nd, ok := k.from(now)
	if !ok || ny-1 <= k.lo || ny+1 >= k.hi {
		return
	}
	if a, b := now, now.In(loc); a.Day() != b.Day() {
		c.Count("skipped: other day in the zone")
		return
	}
	p := calParts{y: between(r, max(k.lo, 1300), min(k.hi, 1499)), m: between(r, 1, 12), d: between(r, 1, 29), day: true, month: true, h: -1}
	if chance(r, 0.4) { // near now
		p.y, p.m, p.d = ny, nm, max(1, min(29, nd+between(r, -1, 1)))
	}
	if chance(r, 0.4) {
		p.h, p.mi, p.s = genClock(r)
		if chance(r, 0.4) {
			p.h, p.mi, p.s = now.In(loc).Add(time.Duration(between(r, -4000, 4000)) * time.Second).Clock()
		}
	}
	kind, text := "", ""
	var years []int // from the first to the last one that the string may mean
	if chance(r, 0.5) {
		kind = "day and month"
		years = []int{ny - 1, ny, ny + 1}
		if !jalali {
			text = fmt.Sprintf(pick(r, []string{"%d/%d", "%02d-%02d", "%d %d"}), p.d, p.m)
		} else {
			text = fmt.Sprintf("%d %s", p.d, faMonths[p.m-1])
			if chance(r, 0.3) {
				text = faOrdinals[p.d] + " " + faMonths[p.m-1]
			}
		}
	} else {
		kind = "two-digit year"
		y := p.y%100 + 1400
		if p.y%100 > pivot {
			y -= 100
		}
		years = []int{y - 100, y, y + 100}
		text = fmt.Sprintf("%02d/%02d/%02d", p.d, p.m, y%100)
		if jalali && chance(r, 0.5) {
			text = fmt.Sprintf("%d %s %02d", p.d, faMonths[p.m-1], y%100)
		}
	}
	if p.h >= 0 {
		text += fmt.Sprintf(" %02d:%02d:%02d", p.h, p.mi, p.s)
	}
	if z := pick(r, []int{0, 0x660, 0x6F0}); z != 0 {
		text = localDigits(text, z)
	}
	// all candidates
	cand := make([]time.Time, 3)
	today, M, D := now.Date()
	for i, y := range years {
		if y < k.lo || y > k.hi || k.bad[y] || p.d > k.length(y, p.m) {
			if i != 1 && (src == dps.CurrentPeriod || src == dps.Past && i == 2 || src == dps.Future && i == 0) {
				continue
			}
			c.Count("skipped: outside of the calendar")
			return
		}
		w := k.day(y, p.m, p.d).Add(time.Duration(max(p.h, 0)*3600+p.mi*60+p.s) * time.Second)
		var ok bool
		if cand[i], ok = wallIn(w, loc); !ok || !steady(cand[i], 3) && loc != time.UTC {
			c.Count("skipped: zone change")
			return
		}
	}
	if _, ok := wallIn(time.Date(today, M, D, p.h, p.mi, p.s, 0, time.UTC), now.Location()); p.h >= 0 && !ok {
		return
	}
	want := cand[1]
	if src == dps.Past && want.After(now) {
		want = cand[0]
	} else if src == dps.Future && want.Before(now) {
		want = cand[2]
	}
	for _, t := range cand {
		if t.Equal(now) {
			c.Count("skipped: exactly now")
			return
		}
	}
	c.desc = fmt.Sprintf("%s(%s, %q)", name, showCfg(cfg), text)
	dt, err := parse(cfg, text)
	c.Eval(1)
	c.Seen(name + text + strconv.FormatInt(now.UnixNano(), 36))
	c.Count(fmt.Sprintf("%s %s, %s", name, kind, []string{"current period", "past", "future"}[src]))
	if err != nil {
		c.Fail(kind, "%s: %v, want %s", c.desc, err, want)
	} else if !dt.Time.Equal(want) || wall(dt.Time) != wall(want) {
		c.Fail(kind, "%s = %s, want %s", c.desc, dt.Time, want)
	}
}
