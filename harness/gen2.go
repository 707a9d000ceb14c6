package main

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	dps "github.com/markusmobius/go-dateparser"
)

// ---- frozen tables ----

type locInfo struct {
	N string `json:"n"`
	D string `json:"d"`
	O int    `json:"o"`
	W bool   `json:"w"`
}

type monthEnt struct {
	L string   `json:"l"`
	T string   `json:"t"`
	M int      `json:"m"`
	Z int      `json:"z"`
	W []string `json:"w"`
	U bool     `json:"u"`
	F bool     `json:"f"`
	I bool     `json:"i"`
}

type weekdayEnt struct {
	L string `json:"l"`
	T string `json:"t"`
	W int    `json:"w"`
	U bool   `json:"u"`
}

type relEnt struct {
	L  string `json:"l"`
	T  string `json:"t"`
	K  string `json:"k"`
	S  int    `json:"s"`
	Ns []int  `json:"n"`
	U  bool   `json:"u"`
	I  bool   `json:"i"`
}

type tzEnt struct {
	Name   string
	Offset int
}

var (
	locales   []locInfo
	localeIdx = map[string]locInfo{}
	langs     []string
	months    []monthEnt
	wdays     []weekdayEnt
	fixeds    []relEnt
	rels      []relEnt
	tzOffsets []tzEnt
	tzNames   []tzEnt
	tables    sync.Once
)

func loadTables() {
	tables.Do(func() {
		var l struct {
			Locales []locInfo `json:"locales"`
			Langs   []string  `json:"langs"`
		}
		loadCorpus("locales.json.gz", &l)
		locales, langs = l.Locales, l.Langs
		for _, x := range locales {
			localeIdx[x.N] = x
		}
		var t struct {
			Offsets [][2]any `json:"offsets"`
			Names   [][2]any `json:"names"`
		}
		loadCorpus("tz.json.gz", &t)
		for _, x := range t.Offsets {
			tzOffsets = append(tzOffsets, tzEnt{x[0].(string), int(x[1].(float64))})
		}
		for _, x := range t.Names {
			tzNames = append(tzNames, tzEnt{x[0].(string), int(x[1].(float64))})
		}
		loadCorpus("months.json.gz", &months)
		loadCorpus("weekdays.json.gz", &wdays)
		loadCorpus("fixed.json.gz", &fixeds)
		loadCorpus("rel.json.gz", &rels)
	})
}

func localDigits(s string, zero int) string {
	if zero == 0 || zero == '0' {
		return s
	}
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return rune(zero) + r - '0'
		}
		return r
	}, s)
}

func (m monthEnt) text(d, y int) string {
	s := strings.Replace(m.T, "{d}", localDigits(strconv.Itoa(d), m.Z), 1)
	s = strings.Replace(s, "{y}", localDigits(strconv.Itoa(y), m.Z), 1)
	if m.W != nil {
		s = strings.Replace(s, "{w}", m.W[time.Date(y, time.Month(m.M), d, 0, 0, 0, 0, time.UTC).Weekday()], 1)
	}
	return s
}

// regional tells whether the locale code has a region.
func splitLocale(code string) (lang, region string) {
	i := strings.LastIndex(code, "-")
	if i < 0 {
		return code, ""
	}
	suf := code[i+1:]
	if suf == strings.ToUpper(suf) {
		return code[:i], suf
	}
	return code, ""
}

// ---- calls of any kind ----

const (
	eParse = iota
	eSearch
	eSearchLang
	eJalali
	eHijri
	ePop
)

var entryNames = []string{"Parse", "Search", "SearchWithLanguage", "ParseJalali", "ParseHijri", "PopTzOffset"}

type Call struct {
	Entry   int
	Cfg     *dps.Configuration
	Str     string
	Lang    string
	Formats []string
	Kind    string
}

func (k *Call) String() string {
	s := fmt.Sprintf("%s(%s, %q", entryNames[k.Entry], showCfg(k.Cfg), k.Str)
	if k.Entry == eSearchLang {
		s += ", lang " + k.Lang
	}
	if k.Formats != nil {
		s += fmt.Sprintf(", layouts %q", k.Formats)
	}
	return s + ")"
}

// Do runs the call and returns its complete outcome.
func (k *Call) Do(p *dps.Parser) string {
	switch k.Entry {
	case eSearch:
		l, rs, err := p.Search(k.Cfg, k.Str)
		return outSearch(l, rs, err)
	case eSearchLang:
		rs, err := p.SearchWithLanguage(k.Cfg, k.Lang, k.Str)
		return outSearch(k.Lang, rs, err)
	case eJalali:
		return outDate(dps.ParseJalali(k.Cfg, k.Str))
	case eHijri:
		return outDate(dps.ParseHijri(k.Cfg, k.Str))
	case ePop:
		s, n, o := dps.PopTzOffset(k.Str)
		return fmt.Sprintf("%q %q %d", s, n, o)
	}
	return outDate(p.Parse(k.Cfg, k.Str, k.Formats...))
}

// DoPkg runs the call with the package level functions.
func (k *Call) DoPkg() string {
	switch k.Entry {
	case eSearch:
		l, rs, err := dps.Search(k.Cfg, k.Str)
		return outSearch(l, rs, err)
	case eParse:
		return outDate(dps.Parse(k.Cfg, k.Str, k.Formats...))
	}
	return k.Do(&dps.Parser{})
}

// ---- strings ----

var enUnits = [][]string{
	{"decade", "decades"}, {"year", "years", "y", "yr"}, {"month", "months", "mo"}, {"week", "weeks", "wk"},
	{"day", "days", "d"}, {"hour", "hours", "h", "hr", "hrs"}, {"minute", "minutes", "m", "min", "mins"},
	{"second", "seconds", "s", "sec", "secs"},
}

func genRelText(r *rand.Rand) string {
	if chance(r, 0.2) {
		return pick(r, []string{"now", "today", "yesterday", "tomorrow", "last week", "next month", "this year",
			"day before yesterday", "yesterday at 10:30", "tomorrow 4pm", "next year", "last month", "just now",
			"an hour ago", "a week ago", "in a month", "half an hour ago", "two days ago", "in ten minutes"})
	}
	n := 1 + r.IntN(3)
	var p []string
	at := r.IntN(3)
	for i := 0; i < n && at < len(enUnits); i++ {
		a := strconv.Itoa(r.IntN(40))
		if chance(r, 0.1) {
			a += pick(r, []string{".5", ".25", ",5"})
		}
		p = append(p, a+pick(r, []string{" ", " ", ""})+pick(r, enUnits[at]))
		at += 1 + r.IntN(3)
	}
	s := strings.Join(p, pick(r, []string{" ", ", ", " and "}))
	switch r.IntN(3) {
	case 0:
		return "in " + s
	case 1:
		return s + " ago"
	}
	return s
}

func genPartialText(r *rand.Rand) string {
	y, m, d := genDay(r, 1950, 2090)
	h, mi, _ := genClock(r)
	switch r.IntN(12) {
	case 0:
		return fmt.Sprintf("%d %s", d, monthName(r, m))
	case 1:
		return fmt.Sprintf("%s %d", monthName(r, m), y)
	case 2:
		return monthName(r, m)
	case 3:
		return pick(r, dayFull)
	case 4:
		return fmt.Sprintf("%02d:%02d", h, mi)
	case 5:
		return strconv.Itoa(y)
	case 6:
		return strconv.Itoa(d)
	case 7:
		return fmt.Sprintf("%d/%d/%02d", m, d, y%100)
	case 8:
		return fmt.Sprintf("%s %d %02d:%02d", monthName(r, m), d, h, mi)
	case 9:
		return fmt.Sprintf("%s %02d:%02d", pick(r, dayAbbr), h, mi)
	case 10:
		return fmt.Sprintf("%04d-%02d", y, m)
	}
	return fmt.Sprintf("%02d.%02d.", d, m)
}

func genNumericText(r *rand.Rand) string {
	sep := pick(r, []string{"/", "-", ".", " "})
	y, m, d := genDay(r, 1950, 2090)
	if chance(r, 0.15) { // no separators
		if chance(r, 0.3) {
			y, m, d = 2000, 2, 29
		}
		l := []string{fmt.Sprintf("%02d", d), fmt.Sprintf("%02d", m), fmt.Sprintf("%04d", y)[2*r.IntN(2):]}
		r.Shuffle(3, func(a, b int) { l[a], l[b] = l[b], l[a] })
		return strings.Join(l, "") + pick(r, []string{"", "", "1230", "235959"})
	}
	l := []string{strconv.Itoa(d), dnum(r, m), strconv.Itoa(y)}
	if chance(r, 0.3) {
		l[2] = fmt.Sprintf("%02d", y%100)
	}
	r.Shuffle(3, func(a, b int) { l[a], l[b] = l[b], l[a] })
	return strings.Join(l, sep)
}

func genLocalText(r *rand.Rand) (text, locale string) {
	switch r.IntN(5) {
	case 0, 1:
		m := pick(r, months)
		return m.text(between(r, 1, 28), between(r, 1900, 2100)), m.L
	case 2:
		w := pick(r, wdays)
		return w.T, w.L
	case 3:
		f := pick(r, fixeds)
		return f.T, f.L
	}
	f := pick(r, rels)
	n := r.IntN(30)
	if f.Ns != nil {
		n = pick(r, f.Ns)
	}
	return strings.Replace(f.T, "{n}", strconv.Itoa(n), 1), f.L
}

func genTz(r *rand.Rand) string {
	if chance(r, 0.5) {
		return pick(r, tzNames).Name
	}
	o := pick(r, tzOffsets).Name
	switch r.IntN(4) {
	case 0:
		return o
	case 1:
		return o[3:]
	case 2:
		return strings.ReplaceAll(o[3:], ":", "")
	}
	return "GMT" + o[3:]
}

var prosePool = strings.Fields("the report was published on and then revised after much talk about it was nothing new for visitors who came to see an old house near London where people of 25 nations met for 3 games but never before lunch")

var prosePunct = strings.Fields("¿ ? ¡ ! 。 、 ！ ？ ؟ ، ؛ । ॥ | … « » “ ” „ ‘ ’ — – ; : ( ) [ ] . , · ። ། ။ ៖ ... ?! -- / * \"")

// languages with their own way to end sentences
var ownLangs = strings.Fields("es hi bn ar fa th ja zh zh-Hant yue de fi en")

var ownPunct = map[string][]string{
	"es": {"¿", "¡", "? ¿", "! ¡"}, "hi": {"|", "| "}, "bn": {"|", "| "}, "ar": {"؟", "؟ "}, "fa": {"؟", "؟ "}, "th": {"\n", "\r\n"},
	"ja": {"。", "？", "！ "}, "zh": {"。", "？ ", "！"}, "zh-Hant": {"。 ", "？"}, "yue": {"。 ", "！"}, "de": {"3. ", "…"}, "fi": {"7. ", "…"}, "en": {"Dr. ", "a.m. "},
}

// genForeignProse gives prose in a random language, with its punctuation, and the locale.
func genForeignProse(r *rand.Rand) (string, string) {
	m := pick(r, months)
	if chance(r, 0.7) { // one of the languages whose words or punctuation is known
		l := pick(r, searchLangs).code
		if chance(r, 0.5) {
			l = pick(r, ownLangs)
		}
		for range 300 {
			if m.L == l {
				break
			}
			m = pick(r, months)
		}
	}
	var words []string
	for _, l := range searchLangs {
		if l.code == m.L && len(l.words) > 0 {
			words = l.words
		}
	}
	if words == nil {
		words = prosePool
	}
	punct := []string{pick(r, prosePunct), pick(r, prosePunct), ".", ""}
	if x := ownPunct[m.L]; x != nil {
		punct = append(punct, x...)
	}
	var sb strings.Builder
	put := func(s string) {
		sb.WriteString(s)
		if chance(r, 0.9) {
			sb.WriteByte(' ')
		}
	}
	for range between(r, 1, 4) {
		if chance(r, 0.6) {
			sb.WriteString(pick(r, punct))
		}
		for range r.IntN(4) {
			put(pick(r, words))
		}
		if chance(r, 0.3) {
			sb.WriteString(pick(r, punct))
		}
		switch r.IntN(4) {
		case 0:
			put(genNumericText(r))
		case 1:
			t, l := genLocalText(r)
			for k := 0; k < 50 && l != m.L; k++ {
				t, l = genLocalText(r)
			}
			put(t)
		default:
			put(m.text(between(r, 1, 28), between(r, 1900, 2100)))
		}
		for range r.IntN(3) {
			put(pick(r, words))
		}
		put(pick(r, punct))
	}
	return strings.TrimSpace(sb.String()), m.L
}

func genProse(r *rand.Rand) (string, string) {
	if chance(r, 0.4) {
		return genForeignProse(r)
	}
	var sb strings.Builder
	n := 1 + r.IntN(3)
	words := func(k int) {
		for range k {
			sb.WriteString(pick(r, prosePool))
			sb.WriteByte(' ')
		}
	}
	for range n {
		words(r.IntN(6))
		switch r.IntN(5) {
		case 0:
			sb.WriteString(genRelText(r))
		case 1:
			sb.WriteString(genPartialText(r))
		case 2:
			t, _ := genLocalText(r)
			sb.WriteString(t)
		default:
			sb.WriteString(genFull(r, 1900, 2100, 0.2).Text)
		}
		sb.WriteString(pick(r, []string{" ", ". ", ", ", "; ", " "}))
	}
	words(r.IntN(4))
	return strings.TrimSpace(sb.String()), ""
}

var faMonths = []string{"فروردین", "اردیبهشت", "خرداد", "تیر", "مرداد", "شهریور", "مهر", "آبان", "آذر", "دی", "بهمن", "اسفند"}

func genJalaliText(r *rand.Rand) string {
	y, m := between(r, 1300, 1450), between(r, 1, 12)
	d := between(r, 1, 29)
	s := ""
	switch r.IntN(4) {
	case 0:
		s = fmt.Sprintf("%d/%d/%d", d, m, y)
	case 1:
		s = fmt.Sprintf("%d-%02d-%02d", y, m, d)
	default:
		s = fmt.Sprintf("%d %s %d", d, faMonths[m-1], y)
	}
	if chance(r, 0.15) { // incomplete
		if chance(r, 0.4) {
			d, m = 30, 12
		}
		s = pick(r, []string{fmt.Sprintf("%d %s", d, faMonths[m-1]), faMonths[m-1], fmt.Sprint(y), fmt.Sprintf("%s %d", faMonths[m-1], y)})
	}
	if chance(r, 0.3) {
		s += fmt.Sprintf(" %02d:%02d", r.IntN(24), r.IntN(60))
	}
	if chance(r, 0.5) {
		s = localDigits(s, 0x6F0)
	}
	return s
}

func genHijriText(r *rand.Rand) string {
	s := fmt.Sprintf("%02d%s%02d%s%d", between(r, 1, 29), "-", between(r, 1, 12), "-", between(r, 1360, 1490))
	if chance(r, 0.3) {
		s += fmt.Sprintf(" %02d:%02d %s", between(r, 1, 12), r.IntN(60), pick(r, append([]string{"AM", "PM"}, append(arAM, arPM...)...)))
	}
	if chance(r, 0.5) {
		s = localDigits(s, 0x660)
	}
	return s
}

// genText gives a date-like string of a random kind and a locale it belongs to ("" is English).
func genText(r *rand.Rand) (text, kind, locale string) {
	switch r.IntN(20) {
	case 0, 1, 2:
		return genFull(r, 1000, 9999, 0.6).Text, "full", ""
	case 3, 4:
		return genPartialText(r), "partial", ""
	case 5:
		return genNumericText(r), "numeric", ""
	case 6, 7:
		return genRelText(r), "relative", ""
	case 8, 9, 10:
		t, l := genLocalText(r)
		return t, "localized", l
	case 11:
		n := pick(r, []int{10, 13, 16, 10, 9, 11, 12, 14, 8, 6, 7, 17})
		s := strconv.Itoa(between(r, 1, 9))
		for len(s) < n {
			s += strconv.Itoa(r.IntN(10))
		}
		if chance(r, 0.2) {
			s = "-" + s
		}
		return s, "digits", ""
	case 12:
		y, m, d := genDay(r, 1900, 2100)
		s := fmt.Sprintf(pick(r, []string{"%04d%02d%02d", "%04[1]d%02[3]d%02[2]d"}), y, m, d)
		if chance(r, 0.3) {
			s += fmt.Sprintf("%02d%02d%02d", r.IntN(24), r.IntN(60), r.IntN(60))
		}
		return s, "nospace", ""
	case 13, 14:
		return genFull(r, 1900, 2100, 1).Text + pick(r, []string{" ", ""}) + genTz(r), "zone", ""
	case 15:
		return genJalaliText(r), "jalali", "fa"
	case 16:
		return genHijriText(r), "hijri", "ar"
	case 17:
		t, l := genProse(r)
		return t, "prose", l
	}
	return genGarbage(r), "garbage", ""
}

var soup = strings.Fields("12 3 2015 31 00 99 0 1 2014 10:30 25:61 12:00:00 .5 1,5 + - / : ; . , ( ) [ ] am pm AM a.m. T Z UTC GMT+2 +0530 EST ago in and of at on th st nd January feb März mai août 三月 月 日 年 前 後 昨日 今天 ١٢ ۱۴۰۰ दिसंबर понедельник січня г. h m s d y mo min days week year decade last next this now noon midnight yesterday \u00a0 \u200e · » ' ’ ˮ half a one two twelve Sat Mon sun hace dentro vor il y a dans 2 3 days")

func genGarbage(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0: // random runes
		n := r.IntN(30)
		var sb strings.Builder
		for range n {
			switch r.IntN(5) {
			case 0:
				sb.WriteRune(rune(r.IntN(0x3000)))
			case 1:
				sb.WriteRune(rune(r.IntN(0x110000)))
			default:
				sb.WriteByte(byte(32 + r.IntN(95)))
			}
		}
		return sb.String()
	case 1: // random bytes
		b := make([]byte, r.IntN(25))
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		return string(b)
	case 2, 3: // vocabulary soup
		n := 1 + r.IntN(8)
		var sb strings.Builder
		for range n {
			if chance(r, 0.2) {
				t, _ := genLocalText(r)
				sb.WriteString(pick(r, strings.Fields(t)))
			} else {
				sb.WriteString(pick(r, soup))
			}
			if chance(r, 0.7) {
				sb.WriteByte(' ')
			}
		}
		return sb.String()
	}
	// mutated valid string
	var t string
	switch r.IntN(4) {
	case 0:
		t = genFull(r, 1000, 9999, 0.6).Text
	case 1:
		t, _ = genLocalText(r)
	case 2:
		t = genRelText(r)
	default:
		t = genPartialText(r)
	}
	return mutate(r, t)
}

func mutate(r *rand.Rand, t string) string {
	rs := []rune(t)
	for range 1 + r.IntN(3) {
		if len(rs) == 0 {
			return ""
		}
		i := r.IntN(len(rs))
		switch r.IntN(5) {
		case 0:
			rs = append(rs[:i], rs[i+1:]...)
		case 1:
			x := []rune(pick(r, soup))
			rs = append(rs[:i], append(x, rs[i:]...)...)
		case 2:
			rs[i] = pick(r, []rune{'0', '9', '.', ':', '-', '/', ' ', 'a', 'é', 'ß', 'İ', 0x301, 0xFFFD, '٣', '\n', '+'})
		case 3:
			j := r.IntN(len(rs))
			rs[i], rs[j] = rs[j], rs[i]
		case 4:
			j := min(len(rs), i+1+r.IntN(6))
			rs = append(rs[:j], append(append([]rune{}, rs[i:j]...), rs[j:]...)...)
		}
	}
	return string(rs)
}

// ---- configurations ----

var orderFuncs = []dps.DateOrder{dps.YMD, dps.YDM, dps.MYD, dps.MDY, dps.DYM, dps.DMY}

// genCfg gives a random valid configuration (may be nil). locale is that of the string.
func genCfg(r *rand.Rand, locale string, needNow bool) *dps.Configuration {
	if !needNow && chance(r, 0.03) {
		return nil
	}
	c := &dps.Configuration{}
	if needNow || chance(r, 0.9) {
		c.CurrentTime = genNow(r, genLoc(r))
	}
	lang := "en"
	region := ""
	if locale != "" {
		lang, region = splitLocale(locale)
	}
	switch r.IntN(8) {
	case 0, 1, 2:
		if locale == "" {
			c.Locales = []string{"en"}
		} else {
			c.Locales = []string{locale}
		}
	case 3:
		c.Languages = []string{lang, pick(r, langs)}
		c.Region = region
	case 4:
		c.Languages = []string{pick(r, langs), pick(r, langs[:30]), lang}
	case 5:
		c.Languages = []string{lang}
	case 6:
		seen := map[string]bool{}
		for range 1 + r.IntN(4) {
			l := pick(r, locales).N
			if g, _ := splitLocale(l); !seen[g] {
				seen[g] = true
				c.Locales = append(c.Locales, l)
			}
		}
	}
	c.UseGivenOrder = chance(r, 0.2)
	if chance(r, 0.1) {
		c.DefaultLanguages = []string{pick(r, langs[:40]), "en"}[:1+r.IntN(2)]
	}
	if chance(r, 0.2) {
		c.DateOrder = pick(r, orderFuncs)
	}
	if chance(r, 0.25) {
		c.DefaultTimezone = genLoc(r)
	}
	if chance(r, 0.3) {
		c.PreferredDayOfMonth = dps.PreferredDayOfMonth(r.IntN(3))
	}
	if chance(r, 0.3) {
		c.PreferredMonthOfYear = dps.PreferredMonthOfYear(r.IntN(3))
	}
	if chance(r, 0.3) {
		c.PreferredDateSource = dps.PreferredDateSource(r.IntN(3))
	}
	c.StrictParsing = chance(r, 0.05)
	if chance(r, 0.07) {
		c.RequiredParts = pick(r, [][]string{{"day"}, {"month"}, {"year"}, {"day", "month"}, {"Year", "month"}, {"day", "month", "year"}})
	}
	if chance(r, 0.1) {
		c.SkipTokens = pick(r, [][]string{{"t"}, {"t", "the"}, {"de"}, {"um"}, {"foo", "t"}})
	}
	c.ReturnTimeAsPeriod = chance(r, 0.2)
	c.PreserveEndOfMonth = chance(r, 0.2)
	return c
}

var layouts = []string{
	"2006-01-02", "2006-01-02 15:04:05", "02/01/2006", "01/02/2006", "2 January 2006", "January 2, 2006", "Jan 2, 2006 3:04 PM",
	time.RFC3339, time.RFC1123, time.RFC1123Z, time.RFC850, time.ANSIC, time.UnixDate, time.RubyDate, time.Kitchen,
	"02.01.06", "2006", "January 2006", "15:04", "20060102", "20060102150405", "Mon Jan _2 2006", "2006-01-02T15:04:05.000Z07:00", "January", "2 January", "",
}

// genCall gives a random call of any kind.
func genCall(r *rand.Rand, needNow bool) *Call {
	k := &Call{}
	t, kind, locale := genText(r)
	k.Str, k.Kind = t, kind
	k.Cfg = genCfg(r, locale, needNow)
	switch {
	case kind == "jalali" && chance(r, 0.8):
		k.Entry = eJalali
	case kind == "hijri" && chance(r, 0.8):
		k.Entry = eHijri
	case kind == "prose" || chance(r, 0.12):
		k.Entry = eSearch
		if chance(r, 0.5) {
			k.Entry = eSearchLang
			k.Lang = "en"
			if locale != "" && chance(r, 0.8) {
				k.Lang, _ = splitLocale(locale)
			}
		}
	case chance(r, 0.03):
		k.Entry = eJalali + r.IntN(3)
	default:
		if chance(r, 0.15) {
			for range 1 + r.IntN(3) {
				k.Formats = append(k.Formats, pick(r, layouts))
			}
			if chance(r, 0.5) {
				y, m, d := genDay(r, 1800, 2200)
				h, mi, s := genClock(r)
				k.Str = time.Date(y, time.Month(m), d, h, mi, s, 0, genLoc(r)).Format(pick(r, k.Formats))
				k.Kind = "layout"
			}
		}
	}
	if k.Kind == "garbage" && !utf8.ValidString(k.Str) {
		k.Kind = "invalid utf8"
	}
	return k
}

// describe classifies an outcome, for the evidence.
func outcomeClass(o string) string {
	switch {
	case strings.HasPrefix(o, "ERR"):
		return "error"
	case strings.HasPrefix(o, "lang="):
		if strings.Contains(o, "[") {
			return "found"
		}
		return "nothing found"
	case o == "":
		return "empty"
	}
	return "date"
}
