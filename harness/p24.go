package main

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"

	dps "github.com/markusmobius/go-dateparser"
)

// ---------- P24, P25, P26, P29: selection of locales and interpretations ----------

// withLocales gives a copy of a configuration that uses just these locales.
func withLocales(cfg *dps.Configuration, l ...string) *dps.Configuration {
	c := *cfg
	c.Locales, c.Languages, c.Region, c.DefaultLanguages = l, nil, "", nil
	c.TryPreviousLocales, c.UseGivenOrder = false, false
	return &c
}

// common sorts locales by how common they are.
func common(l []string) []string {
	l = slices.Clone(l)
	sort.SliceStable(l, func(a, b int) bool {
		x, y := localeIdx[l[a]], localeIdx[l[b]]
		if x.O != y.O {
			return x.O < y.O
		}
		return x.N < y.N
	})
	return l
}

func dedup(l []string) (r []string) {
	for _, x := range l {
		if !slices.Contains(r, x) {
			r = append(r, x)
		}
	}
	return
}

// fromLanguages gives the locales for languages and a region.
func fromLanguages(l []string, region string) (r []string) {
	for _, x := range dedup(l) {
		if region = strings.ToUpper(strings.TrimSpace(region)); region != "" {
			x += "-" + region
		}
		if _, ok := localeIdx[x]; ok {
			r = append(r, x)
		}
	}
	return
}

var regions = strings.Fields("GB US IN 001 CA CH BE AT MX BR PT NE MA CD LU FR DE IT HK TW RS")

// genSelText gives a string that several locales may understand, and one that does.
func genSelText(r *rand.Rand) (string, string) {
	switch r.IntN(6) {
	case 0:
		return genNumericText(r), "en"
	case 1:
		return genPartialText(r), "en"
	case 2:
		t, _, l := genText(r)
		if l == "" {
			l = "en"
		}
		return t, l
	}
	return genLocalText(r)
}

// relatives of a language, which understand some of its words.
var families = [][]string{
	strings.Fields("es pt gl ca it ro ast fur"), strings.Fields("en de nl af fy lb gsw"), strings.Fields("da nb nn sv fo is"),
	strings.Fields("ru uk be bg mk sr kk ky"), strings.Fields("cs sk pl hsb dsb hr sl bs"), strings.Fields("hi mr ne kok bho"),
	strings.Fields("id ms jv su fil"), strings.Fields("zh zh-Hans zh-Hant yue ja ko"), strings.Fields("ar fa ur ps ckb ug"), strings.Fields("tr az uz tk"),
	strings.Fields("fr en es it wae br"),
}

func otherLangs(r *rand.Rand, home string, n int) (l []string) {
	home, _ = splitLocale(home)
	var fam []string
	for _, f := range families {
		if slices.Contains(f, home) {
			fam = append(fam, f...)
		}
	}
	for range n {
		x := pick(r, langs)
		if len(fam) > 0 && chance(r, 0.6) {
			x = pick(r, fam)
		}
		if _, ok := localeIdx[x]; ok && x != home {
			l = append(l, x)
		}
	}
	return
}

func randomRegional(r *rand.Rand, lang string) string {
	var l []string
	for _, x := range locales {
		if g, _ := splitLocale(x.N); g == lang {
			l = append(l, x.N)
		}
	}
	return pick(r, l)
}

func init() {
	props["P24"] = &Prop{
		Rule:     "strings of all kinds with configurations that select locales by Locales, Languages and Region, a detector function, or nothing, with DefaultLanguages and either order; the result must be that of the first locale in the specified order that gives a date when it is the only one; unknown and conflicting selections must be errors; non-trivial: distinct call that gave a date",
		Quick:    7000,
		Thorough: 200000,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			text, home := genSelText(r)
			homeLang, homeRegion := splitLocale(home)
			cfg := genCfg(r, home, true)
			cfg.DefaultLanguages, cfg.Languages, cfg.Locales, cfg.Region = nil, nil, nil, ""
			cfg.UseGivenOrder = chance(r, 0.5)
			p := c.P
			calls := 0
			var order []string
			mode := r.IntN(8)
			all := append([]string{homeLang}, otherLangs(r, home, r.IntN(5))...)
			r.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
			if chance(r, 0.15) {
				all = slices.DeleteFunc(all, func(x string) bool { return x == homeLang })
			}
			if len(all) == 0 {
				all = []string{"en"}
			}
			modeName := ""
			switch mode {
			case 0, 1, 2: // locales
				modeName = "locales"
				for _, l := range dedup(all) {
					if chance(r, 0.4) {
						l = randomRegional(r, l)
					} else if l == homeLang {
						l = home
					}
					order = append(order, l)
				}
				cfg.Locales = slices.Clone(order)
				if chance(r, 0.2) {
					cfg.Locales = append(cfg.Locales, cfg.Locales[0])
				}
				if chance(r, 0.3) { // ignored, as Locales are given
					cfg.Languages = []string{pick(r, langs)}
					cfg.Region = "GB"
				}
			case 3, 4: // languages
				modeName = "languages"
				cfg.Languages = all
				if chance(r, 0.5) {
					cfg.Region = pick(r, regions)
					if homeRegion != "" && chance(r, 0.7) {
						cfg.Region = homeRegion
					}
					if chance(r, 0.2) {
						cfg.Region = strings.ToLower(cfg.Region)
					}
				}
				order = fromLanguages(all, cfg.Region)
			case 5: // detector
				modeName = "detector"
				p = &dps.Parser{DetectLanguagesFunction: func(string) []string { calls++; return all }}
				if chance(r, 0.5) {
					cfg.Region = pick(r, regions)
				}
				order = fromLanguages(all, cfg.Region)
			case 6:
				if chance(r, 0.7) {
					return
				}
				modeName = "all"
				if chance(r, 0.3) {
					p = &dps.Parser{DetectLanguagesFunction: func(string) []string { calls++; return nil }}
				}
				order = langs
				if chance(r, 0.3) {
					cfg.Region = pick(r, regions)
				}
				order = fromLanguages(langs, cfg.Region)
			case 7: // errors
				bad := pick(r, []string{"xx", "English", "", "EN", "en_GB", "en-gb", "zh-XX", "-"})
				switch r.IntN(3) {
				case 0:
					cfg.Locales = append(all, bad)
					cfg.Locales = dedup(cfg.Locales)
				case 1:
					cfg.Languages = append([]string{bad}, all...)
				default:
					l := pick(r, families[r.IntN(len(families))])
					if _, ok := localeIdx[l]; !ok {
						l = "en"
					}
					a, b := randomRegional(r, l), randomRegional(r, l)
					for k := 0; a == b; k++ {
						if k > 8 {
							l = pick(r, []string{"en", "fr", "es", "ar", "pt"})
						}
						a, b = randomRegional(r, l), randomRegional(r, l)
					}
					cfg.Locales = []string{a, pick(r, []string{"th", "vi", "lt"}), b}
					if chance(r, 0.5) {
						cfg.Locales = append(cfg.Locales[2:], cfg.Locales[:2]...)
					}
				}
				c.desc = fmt.Sprintf("Parse(%s, %q)", showCfg(cfg), text)
				d, err := p.Parse(cfg, text)
				c.Eval(1)
				c.Count("invalid selection")
				if err == nil {
					c.Fail("accepted", "%s accepts an invalid selection of locales: %v", c.desc, d)
				}
				return
			}
			if p != c.P && len(cfg.Languages)+len(cfg.Locales) > 0 {
				panic("harness: detector")
			}
			if p == c.P && chance(r, 0.2) { // never asked, as languages are given
				p = &dps.Parser{DetectLanguagesFunction: func(string) []string { calls -= 1000; return []string{"th"} }}
				if modeName == "all" {
					p = c.P
				}
			}
			var defaults []string
			if chance(r, 0.35) && (modeName != "locales" || cfg.Region == "") {
				cfg.DefaultLanguages = dedup(append(otherLangs(r, home, 1+r.IntN(2)), homeLang))
				r.Shuffle(len(cfg.DefaultLanguages), func(a, b int) {
					cfg.DefaultLanguages[a], cfg.DefaultLanguages[b] = cfg.DefaultLanguages[b], cfg.DefaultLanguages[a]
				})
				defaults = fromLanguages(cfg.DefaultLanguages, cfg.Region)
			}
			if modeName == "all" {
				cfg.UseGivenOrder = chance(r, 0.5)
				order = common(order)
			} else if !cfg.UseGivenOrder {
				order = common(order)
			}
			if !cfg.UseGivenOrder {
				defaults = common(defaults)
			}
			c.desc = fmt.Sprintf("Parse(%s, %q)", showCfg(cfg), text)
			got := outDate(p.Parse(cfg, text))
			want, failing := "ERR", ""
			for _, l := range order {
				if want = outDate(c.P.Parse(withLocales(cfg, l), text)); want != "ERR" {
					c.Count(fmt.Sprintf("%s: position %d", modeName, min(slices.Index(order, l), 3)))
					if !strings.HasSuffix(want, " "+l) {
						c.Fail("locale", "Parse(%s, %q) gives %s, which is not of the only locale", showCfg(withLocales(cfg, l)), text, want)
					}
					break
				}
				failing = l
			}
			if want == "ERR" && len(defaults) > 0 {
				if failing == "" {
					if failing = "th"; outDate(c.P.Parse(withLocales(cfg, failing), text)) != "ERR" {
						return
					}
				}
				for i, l := range cfg.DefaultLanguages {
					l = defaults[min(i, len(defaults)-1)]
					g, reg := splitLocale(l)
					x := withLocales(cfg, failing)
					x.DefaultLanguages, x.Region = []string{g}, reg
					if want = outDate(c.P.Parse(x, text)); want != "ERR" {
						c.Count("default language")
						break
					}
				}
			}
			c.Eval(1)
			if want != "ERR" {
				c.Seen(c.desc)
			}
			if got != want {
				c.Fail("selection", "%s (%s) gives %s, but the first of %v and then %v that gives a date gives %s", c.desc, modeName, got, trunc(order), defaults, want)
			}
			if modeName == "detector" && calls != 1 || modeName != "detector" && calls < 0 {
				c.Fail("detector", "%s (%s) called the detector %d times", c.desc, modeName, calls)
			}
		},
	}

	props["P25"] = &Prop{
		Rule:     "sequences of 6 to 16 calls on one new Parser, with and without TryPreviousLocales, successful and failing, mixed with searches, layouts and calls on other Parsers; a model keeps the list of remembered locales, and the result must be that of the first remembered locale that understands the string alone, or that of the same call without the option; non-trivial: distinct call for which a remembered locale changed the result",
		Quick:    2500,
		Thorough: 80000,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			fam := pick(r, families)
			var pool []string
			for _, l := range fam {
				if _, ok := localeIdx[l]; ok && chance(r, 0.7) {
					pool = append(pool, l)
				}
			}
			pool = append(pool, pick(r, langs), "en")
			var texts []string
			for range 40 {
				if t, l := genLocalText(r); slices.Contains(pool, l) {
					texts = append(texts, t)
				}
			}
			for range 6 {
				m := pick(r, months)
				for k := 0; k < 200 && !slices.Contains(pool, m.L); k++ {
					m = pick(r, months)
				}
				texts = append(texts, m.text(between(r, 1, 28), between(r, 1990, 2030)))
			}
			texts = append(texts, genNumericText(r), genNumericText(r), fmt.Sprintf("%d/%d/20%d", between(r, 1, 12), between(r, 1, 12), between(r, 10, 40)))
			p, p2 := &dps.Parser{}, &dps.Parser{}
			var memory, log []string
			now := genNow(r, genLoc(r))
			for range between(r, 6, 16) {
				cfg := &dps.Configuration{CurrentTime: now, TryPreviousLocales: true}
				switch r.IntN(4) {
				case 0:
					cfg.Locales = dedup([]string{pick(r, pool), pick(r, pool)})
				case 1:
					if chance(r, 0.2) {
						break
					}
					fallthrough
				default:
					cfg.Languages = []string{pick(r, pool), pick(r, pool), pick(r, pool), pick(r, pool)}
				}
				cfg.UseGivenOrder = chance(r, 0.3)
				if chance(r, 0.15) {
					cfg.DefaultLanguages = []string{pick(r, pool)}
				}
				text := pick(r, texts)
				var layouts []string
				op := r.IntN(12)
				switch op {
				case 0:
					cfg.TryPreviousLocales = false
				case 1:
					text = genGarbage(r)
				case 2:
					l := pick(r, pool)
					p.SearchWithLanguage(&dps.Configuration{CurrentTime: now}, l, text)
					log = append(log, fmt.Sprintf("search %s %q", l, text))
					continue
				case 3:
					p2.Parse(cfg, text)
					continue
				case 4:
					layouts = []string{"2 January 2006", "2006-01-02"}
				case 5:
					cfg.Locales, cfg.Languages = []string{"xx"}, nil
				}
				plain := *cfg
				plain.TryPreviousLocales = false
				normal := outDate((&dps.Parser{}).Parse(&plain, text, layouts...))
				allowed := []string{normal}
				if cfg.TryPreviousLocales && op != 5 {
					for i, l := range memory {
						if o := outDate(c.P.Parse(withLocales(&plain, l), text, layouts...)); o != "ERR" {
							allowed = []string{o}
							if i > 0 { // an earlier one may fit the string and still give no date
								allowed = append(allowed, normal)
							}
							if o != normal {
								c.Seen(fmt.Sprint(memory, text))
								c.Count("remembered locale changes the result")
							}
							break
						}
					}
				}
				c.desc = fmt.Sprintf("after %q: Parse(%s, %q, %q)", log, showCfg(cfg), text, layouts)
				got := outDate(p.Parse(cfg, text, layouts...))
				log = append(log, fmt.Sprintf("%v %v %v %q: %s", cfg.TryPreviousLocales, cfg.Locales, cfg.Languages, text, got))
				c.Eval(1)
				c.Count(fmt.Sprintf("%d remembered", min(len(memory), 5)))
				if !slices.Contains(allowed, got) {
					c.Fail("memory", "%s gives %s, want one of %q; the Parser should remember %q", c.desc, got, allowed, memory)
					return
				}
				if f := strings.Fields(got); cfg.TryPreviousLocales && len(f) == 4 && f[0] != "ERR" {
					if l := f[3]; !slices.Contains(memory, l) {
						memory = append(memory, l)
					}
				}
			}
		},
	}

	typeNames := []string{"Timestamp", "NegativeTimestamp", "RelativeTime", "CustomFormat", "AbsoluteTime", "NoSpacesTime"}
	props["P26"] = &Prop{
		Rule:     "strings of all kinds with random lists of ParserTypes and locales; the result must be that of the first pair of locale and type, in order, that gives a date when it is the only one; strings of a clear kind must fail without their type; an undefined type is an error and an empty list is the default order; non-trivial: distinct call that gave a date",
		Quick:    9000,
		Thorough: 300000,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			text, kind, home := genText(r)
			if home == "" {
				home = "en"
			}
			cfg := genCfg(r, home, true)
			l := []string{home}
			hl, _ := splitLocale(home)
			if chance(r, 0.3) {
				for _, x := range otherLangs(r, home, 2) {
					if x != hl {
						l = dedup(append(l, x))
					}
				}
			}
			cfg = withLocales(cfg, l...)
			cfg.UseGivenOrder = true
			var formats []string
			if chance(r, 0.15) {
				formats = []string{pick(r, layouts), pick(r, layouts)}
			}
			switch r.IntN(4) {
			case 0:
				kind, text = "custom", fmt.Sprintf("%d__%s__%04d", between(r, 1, 28), monthFull[between(r, 1, 12)], between(r, 1900, 2100))
				if chance(r, 0.5) {
					m := pick(r, months)
					for !m.F {
						m = pick(r, months)
					}
					text = m.text(between(r, 1, 28), between(r, 1900, 2100))
				}
				formats = []string{"2__January__2006", "2 January 2006", "January 2, 2006"}
			case 1: // several types understand these
				y, m, d := genDay(r, 1950, 2090)
				text = pick(r, []string{fmt.Sprintf("%04d%02d%02d", y, m, d), fmt.Sprintf("%02d%02d%04d", m, d, y), fmt.Sprintf("%02d%02d%02d", d, m, y%100), fmt.Sprintf("%04d%02d%02d%02d%02d%02d", y, m, d, 10, 11, 12),
					fmt.Sprint(between(r, 1e9, 2e9)), fmt.Sprint(-between(r, 1e9, 2e9)), "today 10:30", "Monday", "last month", "3 weeks ago", fmt.Sprintf("%d", y)})
				kind = "several"
			}
			types := []dps.ParserType{}
			for range r.IntN(6) {
				types = append(types, dps.ParserType(r.IntN(6)))
			}
			if chance(r, 0.2) {
				types = []dps.ParserType{0, 1, 2, 3, 4, 5}
				r.Shuffle(6, func(a, b int) { types[a], types[b] = types[b], types[a] })
			}
			var names []string
			for _, t := range types {
				names = append(names, typeNames[t])
			}
			c.desc = fmt.Sprintf("Parse(%s, %q, %q) with ParserTypes %v", showCfg(cfg), text, formats, names)
			if chance(r, 0.05) {
				bad := append(slices.Clone(types), dps.ParserType(between(r, 6, 255)))
				i := r.IntN(len(bad))
				bad[i], bad[len(bad)-1] = bad[len(bad)-1], bad[i]
				d, err := (&dps.Parser{ParserTypes: bad}).Parse(cfg, text, formats...)
				c.Eval(1)
				c.Count("undefined type")
				if err == nil {
					c.Fail("undefined", "%s and an undefined type gives %v", c.desc, d)
				}
			}
			single := func(l string, t dps.ParserType) string {
				return outDate((&dps.Parser{ParserTypes: []dps.ParserType{t}}).Parse(withLocales(cfg, l), text, formats...))
			}
			got := outDate((&dps.Parser{ParserTypes: slices.Clone(types)}).Parse(cfg, text, formats...))
			eff := types
			if len(types) == 0 {
				eff = []dps.ParserType{dps.Timestamp, dps.NegativeTimestamp, dps.RelativeTime, dps.CustomFormat, dps.AbsoluteTime, dps.NoSpacesTime}
			}
			want := "ERR"
			n := 0
		search:
			for _, x := range l {
				for _, t := range eff {
					if want = single(x, t); want != "ERR" {
						c.Count(kind + " by " + typeNames[t])
						break search
					}
					n++
				}
			}
			c.Eval(1)
			if want != "ERR" {
				c.Seen(c.desc)
			}
			if got != want {
				c.Fail("types", "%s gives %s, but the first single locale and type that gives a date gives %s", c.desc, got, want)
			}
			// Kinds that only one type understands.
			only := -1
			switch kind {
			case "full":
				only = int(dps.AbsoluteTime)
			case "custom":
				only = -1
			}
			if kind == "digits" && len(strings.TrimLeft(text, "-")) == 10 && len(formats) == 0 {
				only = int(dps.Timestamp)
				if text[0] == '-' {
					only = int(dps.NegativeTimestamp)
				}
			}
			if only >= 0 && len(formats) == 0 && !slices.Contains(eff, dps.ParserType(only)) && !slices.Contains(eff, dps.NoSpacesTime) && got != "ERR" {
				c.Fail("other", "%s gives %s, but only %s should understand it", c.desc, got, typeNames[only])
			}
			if kind == "relative" && strings.HasSuffix(text, "ago") && !slices.Contains(eff, dps.RelativeTime) && len(formats) == 0 && got != "ERR" {
				c.Fail("other", "%s gives %s, but only RelativeTime should understand it", c.desc, got)
			}
		},
	}

	props["P29"] = &Prop{
		Rule:     "random valid configurations get one invalid value and must make all entry points fail for strings of all kinds; any combination of valid values must accept strings that are complete and understood without it; a nil configuration must give what an empty one gives; non-trivial: distinct configuration and string",
		Quick:    16000,
		Thorough: 400000,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			if chance(r, 0.3) { // nil
				f := genFull(r, 1900, 2100, 0.5)
				text := f.Text
				if chance(r, 0.3) {
					text = genHijriText(r)
				}
				k := &Call{Str: text, Entry: pick(r, []int{eParse, eParse, eSearch, eSearchLang, eJalali, eHijri}), Lang: "en"}
				if k.Entry == eSearch && c.I%4 > 0 {
					k.Entry = eParse
				}
				a := k.Do(c.P)
				k.Cfg = &dps.Configuration{}
				c.desc = k.String()
				b := k.Do(c.P)
				c.Eval(1)
				c.Seen(c.desc)
				c.Count("nil " + entryNames[k.Entry])
				if a != b {
					c.Fail("nil", "%s gives %s, and %s with a nil configuration", c.desc, b, a)
				}
				return
			}
			cfg := genCfg(r, "", true)
			cfg.Languages, cfg.Locales, cfg.Region = []string{"en"}, nil, ""
			if chance(r, 0.5) {
				cfg.RequiredParts = pick(r, [][]string{{"day"}, {"MONTH"}, {"Year", "day"}, {"day", "month", "year"}, {"day", "day"}, {}})
			}
			if chance(r, 0.3) {
				cfg.StrictParsing = true
			}
			f := genFull(r, 1900, 2100, 0.5)
			valid := func(entry int, text string) {
				k := &Call{Entry: entry, Cfg: cfg, Str: text, Lang: "en"}
				c.desc = k.String()
				out := k.Do(c.P)
				c.Eval(1)
				c.Seen(c.desc)
				c.Count("valid " + entryNames[entry])
				if out == "ERR" {
					c.Fail("refused", "%s gives an error", c.desc)
				}
			}
			if chance(r, 0.4) {
				cfg.DateOrder = nil
				if !f.Iso || cfg.DateOrder == nil {
					cfg.SkipTokens = nil
					valid(eParse, f.Text)
				}
				valid(eSearchLang, "the report of "+f.Text)
				cfg.DateOrder = dps.DMY
				valid(eHijri, fmt.Sprintf("%02d-%02d-%d", between(r, 1, 28), between(r, 1, 12), between(r, 1360, 1490)))
				valid(eJalali, fmt.Sprintf("%d %s %d", between(r, 1, 28), faMonths[r.IntN(12)], between(r, 1300, 1450)))
				return
			}
			what := ""
			big := func(lo int) uint8 { return uint8(pick(r, []int{lo, lo + 1, 17, 128, 255})) }
			switch r.IntN(4) {
			case 0:
				cfg.PreferredDayOfMonth = dps.PreferredDayOfMonth(big(3))
				what = "day of month"
			case 1:
				cfg.PreferredMonthOfYear = dps.PreferredMonthOfYear(big(3))
				what = "month of year"
			case 2:
				cfg.PreferredDateSource = dps.PreferredDateSource(big(3))
				what = "date source"
			default:
				bad := pick(r, []string{"", "hour", "days", "time", " day", "d", "day,month", "jour", "year ", "\x00"})
				l := append(slices.Clone(cfg.RequiredParts), bad)
				i := r.IntN(len(l))
				l[i], l[len(l)-1] = l[len(l)-1], l[i]
				cfg.RequiredParts = l
				what = "required part"
			}
			text, kind, _ := genText(r)
			if chance(r, 0.3) {
				text = f.Text
			}
			asked := false
			p := c.P
			if chance(r, 0.3) {
				cfg.Languages = nil
				p = &dps.Parser{DetectLanguagesFunction: func(string) []string { asked = true; return []string{"en"} }}
			}
			k := &Call{Cfg: cfg, Str: text, Lang: "en", Entry: pick(r, []int{eParse, eParse, eParse, eSearch, eSearchLang, eJalali, eHijri})}
			if k.Entry == eParse && chance(r, 0.4) {
				k.Formats = []string{"2006-01-02", pick(r, layouts)}
				if chance(r, 0.5) {
					k.Str = fmt.Sprintf("%04d-%02d-%02d", between(r, 1900, 2100), between(r, 1, 12), between(r, 1, 28))
				}
			}
			c.desc = k.String()
			out := k.Do(p)
			c.Eval(1)
			c.Seen(c.desc)
			c.Count("invalid " + what + " " + entryNames[k.Entry])
			if out != "ERR" {
				c.Fail("accepted", "%s (%s) with an invalid %s gives %s", c.desc, kind, what, out)
			}
			if asked {
				c.Fail("parsed", "%s with an invalid %s called the detector function", c.desc, what)
			}
		},
	}
}

func trunc(l []string) []string {
	if len(l) > 8 {
		return append(slices.Clone(l[:8]), "...")
	}
	return l
}
