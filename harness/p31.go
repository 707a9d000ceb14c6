package main

import (
	"fmt"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
)

// ---------- P31: dates of a text without CurrentTime ----------

func init() {
	props["P31"] = &Prop{
		Rule:     "texts without CurrentTime, in 29 languages and with the names and phrases of the frozen tables, of two to five dates, mostly a complete one followed by complete or incomplete dates, times and relative phrases between other words, with random options; every result must be what the piece alone gives when CurrentTime is the last date in front of it that is not relative; non-trivial: distinct texts whose dates were all found",
		Quick:    12000,
		Thorough: 400000,
		Setup:    loadSearch,
		Run: func(c *Case) {
			r := c.R
			l := genSearchLang(c)
			if chance(r, 0.3) {
				l = &searchLangs[0]
			}
			cfg := &dps.Configuration{
				PreferredDateSource:  dps.PreferredDateSource(r.IntN(3)),
				PreferredDayOfMonth:  dps.PreferredDayOfMonth(r.IntN(3)),
				PreferredMonthOfYear: dps.PreferredMonthOfYear(r.IntN(3)),
				ReturnTimeAsPeriod:   chance(r, 0.2),
			}
			if chance(r, 0.3) {
				cfg.DefaultTimezone = genLoc(r)
			}
			type piece struct {
				text     string
				relative bool
			}
			n := between(r, 2, 5)
			var pieces []piece
			complete := chance(r, 0.8) // otherwise the first dates are read from the current time
			for i := range n {
				y, m, d := genDay(r, 1930, 2080)
				if l.month != nil {
					m = l.month.M
					d = min(d, lastDay(y, m))
				}
				switch k := r.IntN(8); {
				case i == 0 && complete || k == 0:
					pieces = append(pieces, piece{l.date(r, y, m, d), false})
				case k <= 2 && searchRels[l.code] != nil:
					s, _ := genSearchPhrase(r, l.code, time.Unix(0, 0).UTC())
					if l.code != "hu" && l.code != "vi" && rxNumber.MatchString(s) && !strings.HasPrefix(s, "-") || i == n-1 { // it's left open if "last month" is a base
						pieces = append(pieces, piece{s, true})
					}
				case k == 3:
					pieces = append(pieces, piece{fmt.Sprintf("%02d:%02d", r.IntN(24), r.IntN(60)), false})
				case k == 4 && l.code == "en":
					s := pick(r, []string{"yesterday", "tomorrow", "today", "in 3 weeks", "2 months ago", "5 days from now", "yesterday at 10:30"})
					pieces = append(pieces, piece{s, true})
				case k >= 4 && l.months != nil && l.code != "hu":
					s := fmt.Sprintf("%d %s", min(d, 28), l.months[m])
					if l.code != "en" || chance(r, 0.6) {
						pieces = append(pieces, piece{s, false})
					} else {
						pieces = append(pieces, piece{pick(r, []string{pick(r, dayFull), l.months[m], l.months[m] + " " + fmt.Sprint(y), fmt.Sprint(y), s + " 10:30", "March 31"}), false})
					}
				}
			}
			var texts []embedded
			for _, p := range pieces {
				texts = append(texts, embedded{text: p.text})
			}
			text := l.prose(r, texts)
			c.desc = fmt.Sprintf("%s %q %s", l.code, text, showCfg(cfg))
			rs, err := c.P.SearchWithLanguage(cfg, l.code, text)
			c.Eval(1)
			if err != nil {
				c.Fail("error", "SearchWithLanguage(%s): %v", c.desc, err)
				return
			}
			if len(rs) != len(pieces) {
				c.Count("other number of results")
				return
			}
			var base time.Time
			for i, p := range pieces {
				if !strings.EqualFold(oneSpace(rs[i].Text), strings.Trim(oneSpace(p.text), " .,:()[]-'")) {
					c.Count("part of it")
					return
				}
				one := *cfg
				one.CurrentTime = base
				x, err := c.P.SearchWithLanguage(&one, l.code, p.text)
				c.Eval(1)
				if err != nil || len(x) != 1 {
					c.Count("not found alone")
					return
				}
				a, b := rs[i].Date, x[0].Date
				same := a.Time.Equal(b.Time) && wall(a.Time) == wall(b.Time) && a.Period == b.Period
				if base.IsZero() {
					same = a.Time.Sub(b.Time).Abs() < time.Minute // both from the current time
				}
				if !same {
					c.Fail("base", "SearchWithLanguage(%s) gives %v %v for %q behind %v, but %v %v with that CurrentTime\nresults: %v", c.desc, a.Time, a.Period, p.text, base, b.Time, b.Period, rs)
					return
				}
				if !p.relative {
					base = a.Time
					c.Count("absolute")
				} else {
					c.Count("relative")
				}
			}
			c.Seen(text)
		},
	}
}
