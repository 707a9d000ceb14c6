package main

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"strings"

	dps "github.com/markusmobius/go-dateparser"
)

var rxFullNumeric = regexp.MustCompile(`^(\d{4}[-/]\d+[-/]\d+|\d+[/-]\d+[/-]\d{4})$`)

func init() {
	props["P30"] = &Prop{
		Rule:     "one date, part of a date, time or relative phrase in one of 29 languages or of the frozen tables between invented words, searched with random options and sometimes a random list of parser types; a single result that covers the whole piece must have the date, wall clock and period of Parse for the piece with the same options and the language; finding nothing where Parse succeeds, or something where it fails, is a violation; non-trivial: distinct texts compared",
		Quick:    36000,
		Thorough: 400000,
		Setup:    loadSearch,
		Run: func(c *Case) {
			r := c.R
			l := genSearchLang(c)
			cfg := genCfg(r, l.code, true)
			cfg.Locales, cfg.Languages, cfg.Region, cfg.DefaultLanguages, cfg.SkipTokens = nil, nil, "", nil, nil
			cfg.StrictParsing = chance(r, 0.15)
			p := c.P
			if chance(r, 0.2) {
				p = &dps.Parser{ParserTypes: genParserTypes(r)}
				c.Count("parser types")
			}
			var s string
			if l.code == "en" || chance(r, 0.3) {
				l = &searchLang{code: "en"}
				s = pick(r, []string{genRelText(r), genPartialText(r), genFull(r, 1900, 2100, 0.5).Text})
			} else {
				s = l.loosePiece(r, true)
			}
			text := fillerWords(r, between(r, 1, 4)) + " " + s
			if chance(r, 0.7) {
				text += pick(r, []string{" ", ", ", "! "}) + fillerWords(r, between(r, 1, 4))
			}
			c.desc = fmt.Sprintf("%s %q %s", l.code, text, showCfg(cfg)+fmt.Sprint(p.ParserTypes))
			rs, err := p.SearchWithLanguage(cfg, l.code, text)
			c.Eval(1)
			if err != nil {
				c.Fail("error", "SearchWithLanguage(%s): %v", c.desc, err)
				return
			}
			one := *cfg
			one.Languages = []string{l.code}
			dt, err := p.Parse(&one, s)
			c.Eval(1)
			if len(rs) == 0 && err != nil {
				c.Count("neither")
				return
			}
			if len(rs) == 1 && oneSpace(rs[0].Text) != strings.Trim(oneSpace(s), " .,:()[]-'") {
				c.Count("part of it")
				return
			}
			if len(rs) > 1 {
				c.Count("more")
				return
			}
			if len(rs) == 0 && (l.code == "th" || strings.Contains(s, "May.") || countLetters(s) < 3) && !rxFullNumeric.MatchString(s) {
				c.Count("short number")
				return
			}
			c.Count("compared " + l.code)
			c.Seen(text)
			if len(rs) == 0 || err != nil {
				c.Fail("only one", "SearchWithLanguage(%s) gives %v, Parse %v, %v", c.desc, rs, dt, err)
				return
			}
			x := rs[0].Date
			if !x.Time.Equal(dt.Time) || wall(x.Time) != wall(dt.Time) || x.Period != dt.Period {
				c.Fail("differs", "SearchWithLanguage(%s) gives %v %v, Parse %v %v", c.desc, x.Time, x.Period, dt.Time, dt.Period)
			}
		},
	}
}

func genParserTypes(r *rand.Rand) []dps.ParserType {
	all := []dps.ParserType{dps.Timestamp, dps.NegativeTimestamp, dps.RelativeTime, dps.CustomFormat, dps.AbsoluteTime, dps.NoSpacesTime}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	return all[:between(r, 2, 6)]
}
