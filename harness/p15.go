package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
)

// ---------- P15: strict parsing and required parts ----------

// genPartialLang gives a partial date of one of the other languages.
func genPartialLang(c *Case) (Partial, string) {
	r := c.R
	l := pick(r, partialLangs)
	y, m, d := genDay(r, 1900, 2100)
	p := Partial{W: -1, H: -1, M: m}
	f := l.format
	switch k := r.IntN(3); {
	case k == 0 && l.code != "ja":
		p.Kind, p.D = "other language, day and month", d
	case k == 1:
		p.Kind, p.D, p.Y = "other language, complete", d, y
		f = l.format + " {y}"
		switch l.code {
		case "ja":
			f = "{y}年{m}{d}日"
		case "es", "pt":
			f = l.format + " de {y}"
		}
	default:
		p.Kind, p.Y, f = "other language, month and year", y, l.my
	}
	f = strings.Replace(f, "{d}", strconv.Itoa(d), 1)
	f = strings.Replace(f, "{y}", strconv.Itoa(y), 1)
	p.Text = strings.Replace(f, "{m}", l.months[m], 1)
	return p, l.code
}

var partNames = []string{"day", "month", "year"}

func init() {
	props["P15"] = &Prop{
		Rule:     "strings that state a known subset of day, month, year, weekday and time (English, ten other languages, Jalali, Hijri, digits without separators) are parsed with StrictParsing and all subsets of RequiredParts; they must fail exactly when a demanded part is not stated, and otherwise give the result they give without these options; relative phrases and timestamps must not change; non-trivial: distinct (string, demanded parts)",
		Quick:    40000,
		Thorough: 1200000,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			now := genNow(r, genLoc(r))
			cfg, _ := cfgEn(r, now)
			cfg.Locales, cfg.Languages = nil, []string{"en"}
			if chance(r, 0.2) {
				cfg.DefaultTimezone = genLoc(r)
			}
			cfg.PreferredDateSource = dps.PreferredDateSource(r.IntN(3))
			cfg.PreferredDayOfMonth = dps.PreferredDayOfMonth(r.IntN(3))
			cfg.PreferredMonthOfYear = dps.PreferredMonthOfYear(r.IntN(3))
			cfg.ReturnTimeAsPeriod = chance(r, 0.3)
			call := func(cfg *dps.Configuration, s string) string { return outDate(c.P.Parse(cfg, s)) }
			var p Partial
			var stated [3]bool
			set := func() { stated = [3]bool{p.D != 0, p.M != 0, p.Y != 0} }
			free := false // not an absolute date: the options have no effect
			switch k := r.IntN(20); {
			case k < 11:
				ok := false
				for !ok {
					b := r.IntN(16)
					p, ok = genPartialDate(r, b&1 != 0, b&2 != 0, b&4 != 0, chance(r, 0.2), b&8 != 0)
					if p.M == 0 && p.D != 0 && p.D < 13 {
						ok = false // a small number alone may be the month
					}
				}
				set()
			case k < 14:
				p, cfg.Languages = Partial{}, nil
				var l string
				p, l = genPartialLang(c)
				cfg.Languages = []string{l}
				if l != "tr" && chance(r, 0.2) { // (Mart is also a zone)
					cfg.Languages, cfg.DefaultLanguages = []string{"th"}, []string{l}
				}
				set()
			case k < 15:
				y, m, d := genDay(r, 1000, 2999)
				p = Partial{Kind: "digits", D: d, M: m, Y: y, Text: fmt.Sprintf("%04d%02d%02d", y, m, d)}
				cfg.DateOrder = dps.YMD
				set()
			case k < 16: // numbers with a two-digit year
				y, m, d := genDay(r, 1970, 2030)
				p = Partial{Kind: "numbers", D: d, M: m, Y: y, Text: fmt.Sprintf("%02d/%02d/%02d", m, d, y%100)}
				set()
			case k < 18:
				rp := genRelPhrase(r, true)
				p, free = Partial{Kind: "relative", Text: rp.Text}, true
				if chance(r, 0.3) {
					p.Text = pick(r, []string{"now", "today", "yesterday", "tomorrow", "yesterday at 10:30", "last month", "next year", "1 day ago"})
				}
			case k < 19:
				p, free = Partial{Kind: "timestamp", Text: strconv.Itoa(between(r, 1e9, 4e9))}, true
			default:
				if chance(r, 0.5) {
					y, m, d := between(r, 1300, 1450), between(r, 1, 12), between(r, 1, 29)
					p = Partial{Kind: "Jalali", M: m, Y: y, D: d}
					p.Text = fmt.Sprintf("%d %s %d", d, faMonths[m-1], y)
					if chance(r, 0.5) {
						p.D, p.Text = 0, fmt.Sprintf("%s %d", faMonths[m-1], y)
					}
					call = func(cfg *dps.Configuration, s string) string { return outDate(dps.ParseJalali(cfg, s)) }
				} else {
					cfg.DateOrder = dps.YMD
					y, m, d := between(r, 1400, 1480), between(r, 1, 12), between(r, 1, 29)
					p = Partial{Kind: "Hijri", M: m, Y: y, D: d, Text: fmt.Sprintf("%d-%02d-%02d", y, m, d)}
					if chance(r, 0.5) {
						p.D, p.Text = 0, fmt.Sprintf("%d-%02d", y, m)
					}
					call = func(cfg *dps.Configuration, s string) string { return outDate(dps.ParseHijri(cfg, s)) }
				}
				set()
			}
			plain := call(cfg, p.Text)
			strict := *cfg
			mask := r.IntN(8)
			strict.StrictParsing = chance(r, 0.3)
			if chance(r, 0.2) {
				mask = 0
			}
			for _, k := range r.Perm(3) {
				if mask>>k&1 == 1 {
					strict.RequiredParts = append(strict.RequiredParts, mixCase(r, partNames[k]))
				}
			}
			if len(strict.RequiredParts) > 0 && chance(r, 0.1) {
				strict.RequiredParts = append(strict.RequiredParts, strict.RequiredParts[0])
			}
			lacks := false
			for k := range 3 {
				if !stated[k] && (strict.StrictParsing || mask>>k&1 == 1) {
					lacks = !free
				}
			}
			if p.Kind == "Jalali" || p.Kind == "Hijri" {
				p.Kind += map[bool]string{true: " complete", false: " partial"}[p.D != 0]
			}
			c.desc = fmt.Sprintf("%q %s", p.Text, showCfg(&strict))
			got := call(&strict, p.Text)
			c.Eval(2)
			c.Seen(p.Text + fmt.Sprint(mask, strict.StrictParsing))
			c.Count(p.Kind)
			switch {
			case lacks:
				c.Count("refused")
				if got != "ERR" {
					c.Fail(p.Kind, "%s: got %s for a string without a demanded part [%s]", c.desc, got, p.Kind)
				}
			default:
				c.Count("accepted")
				if plain == "ERR" && p.D <= 28 {
					c.Fail(p.Kind, "%s: fails without these options already [%s]", c.desc, p.Kind)
				}
				if got != plain {
					c.Fail(p.Kind, "%s: got %s, without these options %s [%s]", c.desc, got, plain, p.Kind)
				}
			}
			// searching
			if c.I%8 == 0 {
				y, m, d := genDay(r, 1950, 2090)
				text := fmt.Sprintf("They met on %d %s %d and wrote a book about it", d, monthFull[m], y)
				want := time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)
				full := true
				if chance(r, 0.5) {
					text, full = fmt.Sprintf("They met in %s %d and wrote a book about it", monthFull[m], y), false
				}
				sc := strict
				sc.DateOrder, sc.DefaultLanguages, sc.DefaultTimezone, sc.CurrentTime = nil, nil, nil, now.UTC()
				rs, err := c.P.SearchWithLanguage(&sc, "en", text)
				c.Eval(1)
				c.Count("search")
				needsDay := sc.StrictParsing || mask&1 == 1
				switch {
				case err != nil:
					c.Fail("search", "searching %q %s: %v", text, showCfg(&sc), err)
				case full && (len(rs) != 1 || wall(rs[0].Date.Time) != wall(want)):
					c.Fail("search", "searching %q %s: %s", text, showCfg(&sc), outSearch("en", rs, err))
				case !full && needsDay && len(rs) != 0:
					c.Fail("search", "searching %q %s: %s", text, showCfg(&sc), outSearch("en", rs, err))
				case !full && !needsDay && (len(rs) != 1 || rs[0].Date.Time.Year() != y || int(rs[0].Date.Time.Month()) != m):
					c.Fail("search", "searching %q %s: %s", text, showCfg(&sc), outSearch("en", rs, err))
				}
			}
		},
	}
}
