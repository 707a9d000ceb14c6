package main

import (
	"fmt"

	dps "github.com/markusmobius/go-dateparser"
)

func init() {
	props["P07"] = &Prop{
		Rule:     "a random valid date of the years 1000-9999 (month ends and leap days weighted) and time is rendered in one of 19 English/ISO notations and 7 time notations, and the returned wall clock must equal it; a case is non-trivial when the rendered string is distinct",
		Quick:    40000,
		Thorough: 1500000,
		Run: func(c *Case) {
			r := c.R
			now := genNow(r, genLoc(r))
			cfg, how := cfgEn(r, now)
			f := genFull(r, 1000, 9999, 0.6)
			switch r.IntN(6) { // options that must not touch complete dates
			case 0:
				cfg.PreferredDayOfMonth = dps.PreferredDayOfMonth(r.IntN(3))
				cfg.PreferredMonthOfYear = dps.PreferredMonthOfYear(r.IntN(3))
			case 1:
				cfg.PreferredDateSource = dps.PreferredDateSource(r.IntN(3))
			case 2:
				cfg.StrictParsing = true
			case 3:
				cfg.DefaultTimezone = genLoc(r)
			}
			// Without any zone the result is in that of CurrentTime: a wall clock that its clocks
			// skip does not exist.
			if cfg.DefaultTimezone == nil {
				if _, ok := wallIn(f.T, now.Location()); !ok {
					c.Count("skipped: wall clock does not exist")
					return
				}
			} else if _, ok := wallIn(f.T, cfg.DefaultTimezone); !ok {
				c.Count("skipped: wall clock does not exist")
				return
			}
			if f.Iso && how == "default" {
				how = "default iso"
			}
			c.desc = fmt.Sprintf("%q %s", f.Text, showCfg(cfg))
			d, err := c.P.Parse(cfg, f.Text)
			c.Eval(1)
			c.Seen(f.Text)
			c.Count(how)
			if err != nil {
				c.Fail(f.Label, "Parse(%s) failed: %v; want %s [%s]", c.desc, err, wall(f.T), f.Label)
			} else if wall(d.Time) != wall(f.T) {
				c.Fail(f.Label, "Parse(%s) = %s (%s), want %s [%s]", c.desc, wall(d.Time), d.Locale, wall(f.T), f.Label)
			}
		},
	}
}
