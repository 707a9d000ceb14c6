package main

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
)

// Partial is a string that states some parts of a date.
type Partial struct {
	Text       string
	Kind       string
	Y, M, D, W int // 0 (W: -1): not stated
	H, Mi, S   int // H -1: no time
	Us         int
	Clock      int // finest part of the time: 1 hour, 2 minute, 3 second, 4 fraction
	ShortYear  bool
}

// month names that are written the same way with every number, for partial dates of other languages
type lang struct {
	code   string
	months []string // of a full date
	format string   // of day and month
	my     string   // of month and year
}

var partialLangs = []lang{
	{"fr", []string{"", "janvier", "février", "mars", "avril", "mai", "juin", "juillet", "août", "septembre", "octobre", "novembre", "décembre"}, "{d} {m}", "{m} {y}"},
	{"es", []string{"", "enero", "febrero", "marzo", "abril", "mayo", "junio", "julio", "agosto", "septiembre", "octubre", "noviembre", "diciembre"}, "{d} de {m}", "{m} de {y}"},
	{"de", []string{"", "Januar", "Februar", "März", "April", "Mai", "Juni", "Juli", "August", "September", "Oktober", "November", "Dezember"}, "{d}. {m}", "{m} {y}"},
	{"it", []string{"", "gennaio", "febbraio", "marzo", "aprile", "maggio", "giugno", "luglio", "agosto", "settembre", "ottobre", "novembre", "dicembre"}, "{d} {m}", "{m} {y}"},
	{"ru", []string{"", "января", "февраля", "марта", "апреля", "мая", "июня", "июля", "августа", "сентября", "октября", "ноября", "декабря"}, "{d} {m}", "{m} {y}"},
	{"pt", []string{"", "janeiro", "fevereiro", "março", "abril", "maio", "junho", "julho", "agosto", "setembro", "outubro", "novembro", "dezembro"}, "{d} de {m}", "{m} de {y}"},
	{"nl", []string{"", "januari", "februari", "maart", "april", "mei", "juni", "juli", "augustus", "september", "oktober", "november", "december"}, "{d} {m}", "{m} {y}"},
	{"pl", []string{"", "stycznia", "lutego", "marca", "kwietnia", "maja", "czerwca", "lipca", "sierpnia", "września", "października", "listopada", "grudnia"}, "{d} {m}", "{m} {y}"},
	{"tr", []string{"", "Ocak", "Şubat", "Mart", "Nisan", "Mayıs", "Haziran", "Temmuz", "Ağustos", "Eylül", "Ekim", "Kasım", "Aralık"}, "{d} {m}", "{m} {y}"},
	{"ja", []string{"", "1月", "2月", "3月", "4月", "5月", "6月", "7月", "8月", "9月", "10月", "11月", "12月"}, "{m}{d}日", "{y}年{m}"},
}

// genPartialDate gives a string with the wanted parts (day, month, year, weekday, time).
func genPartialDate(r *rand.Rand, day, month, year, weekday, clock bool) (Partial, bool) {
	y, m, d := genDay(r, 1000, 2999)
	if chance(r, 0.6) {
		y = between(r, 1950, 2090)
		d = min(d, lastDay(y, m))
	}
	if !year && day && month && chance(r, 0.1) {
		m, d = 2, 29
	}
	p := Partial{W: -1, H: -1}
	mn := monthName(r, m)
	switch {
	case day && month && year:
		if weekday {
			return p, false
		}
		p.Text = pick(r, dateFmts[:13]).f(r, y, m, d)
		p.Kind = "complete"
	case day && month:
		p.Text = pick(r, []string{
			fmt.Sprintf("%s %s", dnum(r, d), mn), fmt.Sprintf("%s %s", mn, dnum(r, d)), fmt.Sprintf("%s %s", ordinal(d), mn),
			fmt.Sprintf("%s %s", mn, ordinal(d)), fmt.Sprintf("%s of %s", ordinal(d), mn), fmt.Sprintf("%s-%s", dnum(r, d), mn),
		})
		p.Kind = "day and month"
		if weekday {
			p.W = r.IntN(7)
			p.Text = pick(r, [][]string{dayFull, dayAbbr}[r.IntN(2)][p.W:p.W+1]) + pick(r, []string{" ", ", "}) + p.Text
		}
	case month && year:
		p.Text = pick(r, []string{
			fmt.Sprintf("%s %d", mn, y), fmt.Sprintf("%s, %d", mn, y), fmt.Sprintf("%d %s", y, mn), fmt.Sprintf("%s-%d", mn, y),
			fmt.Sprintf("%02d/%d", m, y), fmt.Sprintf("%d-%02d", y, m), fmt.Sprintf("%d/%02d", y, m),
		})
		if strings.Contains(p.Text, "-") && (y == 1000 || y == 1100 || y == 1200) {
			return p, false // also a zone offset
		}
		p.Kind = "month and year"
	case month && weekday:
		return p, false
	case month:
		p.Text, p.Kind = mn, "month"
	case year && day, year && weekday, day && weekday:
		return p, false
	case year:
		p.Text, p.Kind = strconv.Itoa(y), "year"
	case day:
		p.Text, p.Kind = pick(r, []string{ordinal(d), strconv.Itoa(d)}), "day"
	case weekday:
		p.W = r.IntN(7)
		p.Text, p.Kind = pick(r, []string{dayFull[p.W], dayAbbr[p.W], strings.ToLower(dayFull[p.W])}), "weekday"
	}
	if day {
		p.D = d
	}
	if month {
		p.M = m
	}
	if year {
		p.Y = y
	}
	if clock {
		if p.Kind == "day" && chance(r, 0.5) {
			p.Text = ordinal(d)
		}
		tf := timeFmts[r.IntN(len(timeFmts))]
		if p.Text != "" && p.Kind != "day and month" && p.Kind != "complete" && tf.parts == 1 {
			tf = timeFmts[r.IntN(3)] // "March 2015 3 pm" is understood, but leave out what is close to a day
		}
		h, mi, s := genClock(r)
		us := r.IntN(1e6)
		switch tf.parts {
		case 1:
			mi, s, us = 0, 0, 0
		case 2:
			s, us = 0, 0
		case 3:
			us = 0
		}
		p.H, p.Mi, p.S, p.Us, p.Clock = h, mi, s, us, tf.parts
		ts := tf.f(r, h, mi, s, us)
		if p.Text == "" {
			p.Text, p.Kind = ts, "time"
		} else {
			sep := pick(r, []string{" ", " at ", ", "})
			if tf.parts == 1 {
				sep = " at "
			}
			p.Text += sep + ts
			p.Kind += " and time"
		}
	}
	return p, p.Text != ""
}

func clampDay(y, m, d int) int { return min(d, lastDay(y, m)) }

// nearestLeap gives the leap year closest to y.
func nearestLeap(y int) (l []int) {
	for k := 0; ; k++ {
		if leap(y - k) {
			l = append(l, y-k)
		}
		if k > 0 && leap(y+k) {
			l = append(l, y+k)
		}
		if l != nil {
			return l[:1] // the earlier one of two
		}
	}
}

// complete is the model of completion with the current period. It gives all acceptable dates.
func (p Partial) complete(now time.Time, cfg *dps.Configuration) (days []time.Time) {
	y, m, d := p.Y, p.M, p.D
	if y == 0 {
		y = now.Year()
	}
	if m == 0 {
		m = int(now.Month())
		if p.Y != 0 {
			switch cfg.PreferredMonthOfYear {
			case dps.FirstMonth:
				m = 1
			case dps.LastMonth:
				m = 12
			}
		}
	}
	ys := []int{y}
	if p.D == 0 {
		d = now.Day()
		if p.H < 0 && (p.M != 0 || p.Y != 0) {
			switch cfg.PreferredDayOfMonth {
			case dps.First:
				d = 1
			case dps.Last:
				d = 31
			}
		}
		d = clampDay(y, m, d)
	} else if m == 2 && d == 29 && p.Y == 0 && p.M != 0 {
		ys = nearestLeap(y)
	}
	for _, y := range ys {
		if d <= lastDay(y, m) {
			w := time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)
			if p.H >= 0 {
				w = time.Date(y, time.Month(m), d, p.H, p.Mi, p.S, p.Us*1000, time.UTC)
			}
			days = append(days, w)
		}
	}
	return
}

func init() {
	props["P13"] = &Prop{
		Rule:     "partial dates (day and month, month and year, month, year, day, time; with weekday or time; impossible stated days) in many English notations and ten other languages, with random CurrentTime (month ends, leap days, all zones) and preferences; the result must be the completion that an independent model gives; non-trivial: distinct (string, current day)",
		Quick:    50000,
		Thorough: 1500000,
		Run: func(c *Case) {
			r := c.R
			now := genNow(r, genLoc(r))
			cfg, _ := cfgEn(r, now)
			cfg.Locales, cfg.Languages = nil, []string{"en"}
			cfg.PreferredDayOfMonth = dps.PreferredDayOfMonth(r.IntN(3))
			cfg.PreferredMonthOfYear = dps.PreferredMonthOfYear(r.IntN(3))
			if chance(r, 0.2) {
				cfg.DefaultTimezone = genLoc(r)
			}
			var p Partial
			impossible := false
			switch k := r.IntN(12); {
			case k < 8:
				ok := false
				for !ok {
					b := r.IntN(16)
					p, ok = genPartialDate(r, b&1 != 0, b&2 != 0, b&4 != 0, chance(r, 0.15), b&8 != 0)
					if p.Kind == "weekday" || p.Kind == "weekday and time" || p.Kind == "complete" || p.Kind == "complete and time" {
						ok = false
					}
				}
				if p.Kind == "day" || p.Kind == "day and time" || p.Kind == "time" {
					cfg.PreferredMonthOfYear = dps.CurrentMonth
				}
				if p.M == 0 && p.D != 0 && p.D < 13 {
					return // a small number alone may be the month
				}
				if p.M == 0 && p.D == 29 && now.Month() == time.February && !leap(now.Year()) {
					return // goes to a leap year or is an error
				}
				impossible = p.D != 0 && p.M == 0 && p.D > lastDay(now.Year(), int(now.Month()))
			case k < 10: // other languages
				l := pick(r, partialLangs)
				y, m, d := genDay(r, 1900, 2100)
				cfg.Languages = []string{l.code}
				f := l.format
				p = Partial{W: -1, H: -1, M: m, Kind: "other language, day and month"}
				if chance(r, 0.5) || l.code == "ja" {
					f = l.my
					p.Kind = "other language, month and year"
					p.Y = y
				} else {
					p.D = d
				}
				f = strings.Replace(f, "{d}", strconv.Itoa(d), 1)
				f = strings.Replace(f, "{y}", strconv.Itoa(y), 1)
				p.Text = strings.Replace(f, "{m}", l.months[m], 1)
			default: // impossible days
				m := pick(r, []int{2, 2, 2, 4, 6, 9, 11})
				y := between(r, 1900, 2099)
				d := lastDay(y, m) + 1
				if chance(r, 0.3) {
					d = min(31, d+r.IntN(3))
				}
				if d == 32 {
					return
				}
				if chance(r, 0.7) {
					p = Partial{W: -1, H: -1, M: m, D: d, Y: y, Kind: "impossible day"}
					p.Text = pick(r, dateFmts[:8]).f(r, y, m, d)
				} else {
					if d == 29 {
						d = 30
					}
					p = Partial{W: -1, H: -1, M: m, D: d, Kind: "impossible day without year"}
					p.Text = pick(r, []string{fmt.Sprintf("%d %s", d, monthFull[m]), fmt.Sprintf("%s %s", monthFull[m], ordinal(d))})
				}
				impossible = true
			}
			s := p.Text
			want := p.complete(now, cfg)
			c.desc = fmt.Sprintf("%q %s", s, showCfg(cfg))
			if cfg.DefaultTimezone == nil && len(want) > 0 {
				for _, w := range want {
					if _, ok := wallIn(w, now.Location()); !ok {
						c.Count("skipped wall clock")
						return
					}
				}
			}
			d, err := c.P.Parse(cfg, s)
			c.Eval(1)
			c.Seen(s + now.Format("2006-01-02"))
			c.Count(p.Kind)
			if impossible {
				if err == nil {
					c.Fail(p.Kind, "%s: got %s for a day that does not exist", c.desc, wall(d.Time))
				}
				return
			}
			if err != nil {
				c.Fail(p.Kind, "%s: %v, want %s [%s]", c.desc, err, wall(want[0]), p.Kind)
				return
			}
			for _, w := range want {
				if wall(d.Time) == wall(w) {
					return
				}
			}
			c.Fail(p.Kind, "%s: got %s, want %s [%s]", c.desc, wall(d.Time), wall(want[0]), p.Kind)
		},
	}
}
