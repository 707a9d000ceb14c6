package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"regexp"
	"strings"
	"unicode"

	dps "github.com/markusmobius/go-dateparser"
	"golang.org/x/text/unicode/norm"
)

// ---------- P27: writing style; P28: both engines ----------

// digitZeros are the zeros of all scripts that the toolchain knows.
var digitZeros = func() (l []rune) {
	add := func(lo, hi, stride rune) {
		for c := lo; c <= hi; c += stride {
			if stride != 1 {
				panic("digits with gaps")
			}
			if (c-lo)%10 == 0 && c != '0' {
				l = append(l, c)
			}
		}
	}
	for _, x := range unicode.Nd.R16 {
		if (x.Hi-x.Lo+1)%10 != 0 || x.Stride != 1 {
			panic(fmt.Sprint("digits ", x))
		}
		add(rune(x.Lo), rune(x.Hi), rune(x.Stride))
	}
	for _, x := range unicode.Nd.R32 {
		if (x.Hi-x.Lo+1)%10 != 0 || x.Stride != 1 {
			panic(fmt.Sprint("digits ", x))
		}
		add(rune(x.Lo), rune(x.Hi), rune(x.Stride))
	}
	return
}()

var spaceRunes = []string{"\u00a0", "\t", "\n", "\r\n", "\u2003", "\u2009", "\u202f", "\u3000", "\u2002", "\u1680", "\u205f", "\v", "\u2028"}

var apostrophes = []string{"\u2019", "\u02bc", "\u02bb", "\u055a", "\ua78c", "\u2032", "\u2035", "\u02b9", "\uff07"}

// zones are only understood at the end
var rxPlainEnd = regexp.MustCompile(`^(?:\d+|\d+[/.]\d+[/.]\d+|\d+:\d\d(?::\d\d)?)$`)

// languages without spaces between words
var rxNoSpacing = regexp.MustCompile(`^(?:zh|ja|yue)`)

var rxGlued = regexp.MustCompile(`(?i)[ap]m[a-z]`)

func randCase(r *rand.Rand, s string) string {
	switch r.IntN(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		up := true
		return strings.Map(func(c rune) rune {
			x := c
			if up {
				x = unicode.ToUpper(c)
			}
			up = c == ' '
			return x
		}, s)
	}
	return strings.Map(func(c rune) rune {
		if r.IntN(2) == 0 {
			return unicode.ToUpper(c)
		}
		return unicode.ToLower(c)
	}, s)
}

func short(w string) bool {
	return len([]rune(w)) < 4 && strings.IndexFunc(w, unicode.IsDigit) < 0
}

func fullWidth(s string) string {
	return strings.Map(func(c rune) rune {
		if c > 0x20 && c < 0x7F && (c >= '0' && c <= '9' || unicode.IsLetter(c)) {
			return c - 0x20 + 0xFF00
		}
		return c
	}, s)
}

var styles = []struct {
	name string
	f    func(r *rand.Rand, s string) string
}{
	{"case", func(r *rand.Rand, s string) string {
		t := randCase(r, s)
		if strings.ToLower(t) != strings.ToLower(s) || strings.ContainsAny(s, "\ua78b\ua78c") { // not reversible, as for ß or final sigma
			return s
		}
		return t
	}},
	{"more spaces", func(r *rand.Rand, s string) string {
		var sb strings.Builder
		sb.WriteString(strings.Repeat(" ", r.IntN(3)))
		for _, c := range s {
			sb.WriteRune(c)
			if c == ' ' {
				sb.WriteString(strings.Repeat(" ", r.IntN(3)))
			}
		}
		sb.WriteString(strings.Repeat(" ", r.IntN(3)))
		return sb.String()
	}},
	{"other spaces", func(r *rand.Rand, s string) string {
		var sb strings.Builder
		if chance(r, 0.3) {
			sb.WriteString(pick(r, spaceRunes))
		}
		one := pick(r, spaceRunes)
		for _, c := range s {
			if c == ' ' && chance(r, 0.8) {
				if chance(r, 0.2) {
					sb.WriteString(" ")
				}
				sb.WriteString(one)
			} else {
				sb.WriteRune(c)
			}
		}
		if chance(r, 0.3) {
			sb.WriteString(pick(r, spaceRunes))
		}
		return sb.String()
	}},
	{"digits", func(r *rand.Rand, s string) string { return localDigits(s, int(pick(r, digitZeros))) }},
	{"mixed digits", func(r *rand.Rand, s string) string {
		var sb strings.Builder
		one := pick(r, digitZeros)
		for _, c := range s {
			if !unicode.IsDigit(c) || chance(r, 0.2) {
				one = pick(r, digitZeros)
				if chance(r, 0.3) {
					one = '0'
				}
			}
			sb.WriteString(localDigits(string(c), int(one)))
		}
		return sb.String()
	}},
	{"unicode form", func(r *rand.Rand, s string) string {
		return pick(r, []norm.Form{norm.NFC, norm.NFD}).String(s)
	}},
	{"full width", func(r *rand.Rand, s string) string { return fullWidth(s) }},
	{"apostrophe", func(r *rand.Rand, s string) string { return strings.ReplaceAll(s, "'", pick(r, apostrophes)) }},
	{"direction marks", func(r *rand.Rand, s string) string {
		f := strings.Split(s, " ")
		m := pick(r, []string{"\u200e", "\u200f"})
		i := r.IntN(len(f))
		if chance(r, 0.5) {
			f[i] += m
		} else {
			f[i] = m + f[i]
		}
		return strings.Join(f, " ")
	}},
	{"brackets", func(r *rand.Rand, s string) string {
		// a bracket attached to a filler word keeps the word from being one
		if w := strings.Fields(s); len(w) == 0 || short(w[0]) || short(w[len(w)-1]) {
			return s
		}
		b := pick(r, []string{"()", "[]", "{}", "<>"})
		return b[:1] + s + b[1:]
	}},
}

func init() {
	props["P27"] = &Prop{
		Rule:     "strings of all kinds in all locales (complete, incomplete and numeric dates, times, zones, relative phrases, names of the frozen tables, Jalali and Hijri dates) are rewritten in one to three styles (case, spaces, digits of all scripts, also several in one string, Unicode forms, full width, apostrophes, brackets, direction marks), some with a word that SkipTokens lists in front or behind (in languages with spaces); the outcome must stay the same; non-trivial: distinct rewritten string that gave a date",
		Quick:    30000,
		Thorough: 1000000,
		Setup:    loadTables,
		Run: func(c *Case) {
			r := c.R
			text, kind, home := genText(r)
			for kind == "prose" || kind == "garbage" || chance(r, 0.3) && kind != "localized" {
				text, kind, home = genText(r)
			}
			if d := strings.TrimLeft(text, "-0123456789"); d == "" && len(text) > 8 || rxGlued.MatchString(text) {
				return // timestamps are plain digits; zones behind "pm" need a space
			}
			cfg := genCfg(r, home, true)
			cfg.SkipTokens = nil
			entry := eParse
			if kind == "digits" {
				return // timestamps are plain digits
			} else if kind == "jalali" {
				entry = eJalali
			} else if kind == "hijri" {
				entry = eHijri
			}
			k := &Call{Entry: entry, Cfg: cfg, Str: text}
			want := k.Do(c.P)
			if want == "ERR" && chance(r, 0.8) {
				return
			}
			only := -1
			if s := os.Getenv("VSTYLE"); s != "" {
				fmt.Sscan(s, &only)
			}
			t, names := text, ""
			for range between(r, 1, 3) {
				i := r.IntN(len(styles))
				if only >= 0 {
					i = only
				}
				if u := styles[i].f(r, t); u != t {
					t = u
					names += " " + styles[i].name
					c.Count(styles[i].name)
				}
			}
			x := *k
			lang := home
			if lang == "" {
				lang = "en"
			}
			if entry == eParse && chance(r, 0.2) && !strings.Contains(names, "brackets") && strings.TrimSpace(t) != "" && !rxNoSpacing.MatchString(lang) {
				k.Cfg = cfg.Clone()
				k.Cfg.Locales, k.Cfg.Languages, k.Cfg.DefaultLanguages, k.Cfg.Region = []string{lang}, nil, nil, ""
				if want = k.Do(c.P); want == "ERR" {
					return
				}
				// a word that the configuration tells to skip
				w := pick(r, []string{"qzx", "xqvwz", "zzqh"})
				x.Cfg = k.Cfg.Clone()
				x.Cfg.SkipTokens = []string{"t", w}
				if f := strings.Fields(t); chance(r, 0.5) && rxPlainEnd.MatchString(f[len(f)-1]) {
					t += " " + w
				} else {
					t = w + " " + t
				}
				names += " skipped word"
				c.Count("skipped word")
			}
			if t == text {
				return
			}
			x.Str = t
			c.desc = x.String()
			got := x.Do(c.P)
			c.Eval(1)
			c.Count(kind)
			if want != "ERR" {
				c.Seen(t)
			}
			if got != want {
				c.Fail("style", "%s gives %s, but written as %q (without:%s) %s", c.desc, got, text, names, want)
			}
		},
	}

	props["P28"] = &Prop{
		Rule:     "the same calls of all kinds run by processes built with the default engine and with the re2_wasm tag, and all outcomes are compared; non-trivial: distinct call with a date or search result",
		Quick:    12000,
		Thorough: 72000,
		Setup:    loadTables,
		Run: func(c *Case) {
			k := genCall(c.R, true)
			if chance(c.R, 0.15) {
				k = &Call{Entry: eSearchLang, Cfg: &dps.Configuration{CurrentTime: genNow(c.R, genLoc(c.R))}, Kind: "prose"}
				k.Str, k.Lang = genForeignProse(c.R)
				k.Lang, _ = splitLocale(k.Lang)
			}
			if k.Entry == eSearch && chance(c.R, 0.5) {
				k.Entry = eSearchLang
				if k.Lang == "" {
					k.Lang = "en"
				}
			}
			c.desc = k.String()
			out := k.Do(c.P)
			c.Trace(c.desc, out)
			c.Eval(1)
			c.Count(entryNames[k.Entry] + " " + outcomeClass(out))
			if outcomeClass(out) != "error" {
				c.Seen(c.desc)
			}
		},
	}
}

var _ = dps.Parse
