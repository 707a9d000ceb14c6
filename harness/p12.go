package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"time"
	"unicode/utf8"

	dps "github.com/markusmobius/go-dateparser"
)

// ---------- P12: time zones ----------

// offsetNotations gives every notation of a known offset (named like "UTC+05:30").
func offsetNotations(name string) []string {
	sign, hh, mm := name[3:4], name[4:6], name[7:9]
	var l []string
	for _, p := range []string{"UTC", "GMT", ""} {
		l = append(l, p+sign+hh+":"+mm, p+sign+hh+mm)
	}
	for _, p := range []string{"UTC", "GMT"} {
		if hh[0] == '0' {
			l = append(l, p+sign+hh[1:]+":"+mm)
			if mm == "00" {
				l = append(l, p+sign+hh[1:])
			}
		} else if mm == "00" {
			l = append(l, p+sign+hh)
		}
	}
	return l
}

// zoneNames gives the abbreviations that stand for one offset.
func zoneNames() (l []tzEnt) {
	for _, z := range tzNames {
		if z.Name != "LMT" && z.Name != "zzz" {
			l = append(l, z)
		}
	}
	return
}

// nearTransition gives a wall clock close to a change of the zone's offset.
func nearTransition(r *rand.Rand, loc *time.Location) (time.Time, bool) {
	t := time.Date(between(r, 1975, 2036), time.Month(between(r, 1, 12)), between(r, 1, 28), 0, 0, 0, 0, loc)
	_, end := t.ZoneBounds()
	if end.IsZero() {
		return time.Time{}, false
	}
	end = end.Add(time.Duration(between(r, -5*3600, 5*3600)) * time.Second)
	Y, M, D := end.Date()
	return time.Date(Y, M, D, end.Hour(), end.Minute(), end.Second(), 0, time.UTC), true
}

// offsetsAt gives the offsets that are in force in loc while its clocks show w; none in a gap.
func offsetsAt(w time.Time, loc *time.Location) (l []int) {
	for h := -30; h <= 30; h += 1 {
		t := w.Add(time.Duration(h) * time.Hour).In(loc)
		_, o := t.Zone()
		m := w.Add(-time.Duration(o) * time.Second).In(loc)
		if _, o2 := m.Zone(); o2 == o {
			dup := false
			for _, x := range l {
				dup = dup || x == o
			}
			if !dup {
				l = append(l, o)
			}
		}
	}
	return
}

func init() {
	var names []tzEnt
	isName := map[string]bool{}
	props["P12"] = &Prop{
		Rule:     "complete dates with times in all notations, followed by every known offset in every notation and every known abbreviation in any letter case, or by none with DefaultTimezone or a zoned CurrentTime, weighted towards changes of the zone's offset; wall clock and offset must be as stated; PopTzOffset must take exactly the zone off and leave other strings alone; non-trivial: distinct string and zone",
		Quick:    36000,
		Thorough: 1200000,
		Setup: func() {
			loadTables()
			names = zoneNames()
			for _, z := range tzNames {
				isName[strings.ToUpper(z.Name)] = true
			}
		},
		Run: func(c *Case) {
			r := c.R
			now := genNow(r, genLoc(r))
			cfg, _ := cfgEn(r, now)
			if c.I < 4 {
				// The names with an accent lose it before zones are looked for (a known finding).
				name := []string{"SEČ", "SELČ", "VEČ", "ZEČ"}[c.I]
				s := "31 March 2015 10:00 " + name
				d, err := c.P.Parse(&dps.Configuration{Languages: []string{"en"}, CurrentTime: time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)}, s)
				c.Eval(1)
				want := map[string]int{"SEČ": 3600, "SELČ": 7200, "VEČ": 7200, "ZEČ": 0}[name]
				if _, o := d.Time.Zone(); err != nil || o != want || wall(d.Time) != "2015-03-31T10:00:00" {
					c.Fail("name with accent", "Parse(%q) = %s, want offset %d", s, outDate(d, err), want)
				}
			}
			f := genFull(r, 1000, 9999, 1)
			for f.Parts == 0 || strings.Contains(f.Label, "|before|") {
				f = genFull(r, 1000, 9999, 1)
			}
			if c.I%3 == 2 {
				// no zone in the string
				loc := genLoc(r)
				if chance(r, 0.5) {
					cfg.DefaultTimezone = loc
				} else {
					cfg.CurrentTime = now.In(loc)
				}
				w := f.T
				s := f.Text
				if chance(r, 0.7) {
					if t, ok := nearTransition(r, loc); ok {
						w = t
						s = w.Format(pick(r, []string{"2006-01-02 15:04:05", "2 January 2006 15:04:05", "Jan 2, 2006 3:04:05 PM", "2006-01-02T15:04:05", "Monday, 2 January 2006 at 15:04:05"}))
					}
				}
				offs := offsetsAt(w, loc)
				c.desc = fmt.Sprintf("%q %s", s, showCfg(cfg))
				d, err := c.P.Parse(cfg, s)
				c.Eval(1)
				c.Seen(s + loc.String())
				kind := "CurrentTime's zone"
				if cfg.DefaultTimezone != nil {
					kind = "DefaultTimezone"
				}
				switch len(offs) {
				case 0:
					c.Count(kind + ", skipped wall clock")
					return
				case 2:
					c.Count(kind + ", repeated wall clock")
				default:
					c.Count(kind)
				}
				if err != nil {
					c.Fail(kind, "%s: %v", c.desc, err)
					return
				}
				_, o := d.Time.Zone()
				ok := false
				for _, x := range offs {
					ok = ok || x == o
				}
				if wall(d.Time) != wall(w) || !ok {
					c.Fail(kind, "%s: got %s%+d, want %s%+d", c.desc, wall(d.Time), o, wall(w), offs)
				}
				return
			}
			var zone, name, kind string
			off := 0
			if chance(r, 0.5) {
				e := pick(r, tzOffsets)
				zone, off, name = pick(r, offsetNotations(e.Name)), e.Offset, e.Name
				kind = "offset"
			} else {
				e := names[r.IntN(len(names))]
				zone, off, name = e.Name, e.Offset, e.Name
				kind = "name"
			}
			plain := zone
			switch r.IntN(6) {
			case 0:
				zone = strings.ToLower(zone)
			case 1:
				zone = mixCase(r, zone)
			}
			if chance(r, 0.3) {
				cfg.DefaultTimezone = genLoc(r)
			}
			sep := " "
			if zone[0] == '+' || zone[0] == '-' {
				if sep = pick(r, []string{" ", ""}); chance(r, 0.05) {
					kind = "bare offset"
				}
			} else if chance(r, 0.1) && len(f.Text) > 0 && f.Text[len(f.Text)-1] >= '0' && f.Text[len(f.Text)-1] <= '9' {
				sep = ""
			}
			tail := ""
			s := f.Text + sep + zone + tail
			if kind == "name" && chance(r, 0.1) {
				s = f.Text + " (" + zone + ")"
				kind = "name in brackets"
			}
			// PopTzOffset
			clean, n, o := dps.PopTzOffset(s)
			c.Eval(1)
			if !strings.EqualFold(n, name) || o != off || (kind != "name in brackets" && strings.TrimRight(clean, " ") != f.Text) {
				c.Fail("pop", "PopTzOffset(%q) = %q, %q, %d; want %q, %q, %d", s, clean, n, o, f.Text, name, off)
			}
			clean, n, o = dps.PopTzOffset(f.Text)
			if clean != f.Text || n != "" || o != 0 {
				c.Fail("pop", "PopTzOffset(%q) = %q, %q, %d for a string without zone", f.Text, clean, n, o)
			}
			if chance(r, 0.2) { // before the zone there may be any character
				pre := pick(r, []string{"\u00a0", "年", "г. ", "，", "é ", "\u3000", "„", "٣"})
				s := f.Text + pre + plain
				clean, n, o := dps.PopTzOffset(s)
				c.Eval(1)
				c.Count("PopTzOffset after a non-ASCII character")
				if !strings.EqualFold(n, name) || o != off || !utf8.ValidString(clean) || clean != f.Text+pre {
					c.Fail("pop", "PopTzOffset(%q) = %q, %q, %d; want %q, %q, %d", s, clean, n, o, f.Text+pre, name, off)
				}
			}
			if strings.Contains(name, "Č") {
				return
			}
			c.desc = fmt.Sprintf("%q %s", s, showCfg(cfg))
			d, err := c.P.Parse(cfg, s)
			c.Eval(1)
			c.Seen(s)
			c.Count(kind)
			if err != nil {
				c.Fail(kind, "%s: %v; want %s%+d", c.desc, err, wall(f.T), off)
				return
			}
			if _, o := d.Time.Zone(); wall(d.Time) != wall(f.T) || o != off {
				c.Fail(kind, "%s: got %s%+d (%s), want %s%+d", c.desc, wall(d.Time), o, d.Locale, wall(f.T), off)
			}
			// words that are no zone
			if chance(r, 0.1) {
				var w []byte
				for range between(r, 3, 6) {
					w = append(w, byte('A'+r.IntN(26)))
				}
				if !isName[string(w)] {
					s := f.Text + " " + string(w)
					clean, n, o := dps.PopTzOffset(s)
					c.Eval(1)
					c.Count("PopTzOffset of an unknown word")
					if clean != s || n != "" || o != 0 {
						c.Fail("pop", "PopTzOffset(%q) = %q, %q, %d for a word that is no zone", s, clean, n, o)
					}
				}
			}
		},
	}
}
