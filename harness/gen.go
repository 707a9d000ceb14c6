package main

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
)

// ---- moments and zones ----

var ianaNames = []string{
	"UTC", "Europe/London", "Europe/Paris", "Europe/Moscow", "America/New_York", "America/Los_Angeles",
	"America/Sao_Paulo", "America/St_Johns", "Asia/Kolkata", "Asia/Tokyo", "Asia/Tehran", "Asia/Kathmandu",
	"Asia/Jakarta", "Australia/Sydney", "Australia/Lord_Howe", "Pacific/Auckland", "Pacific/Apia",
	"Pacific/Kiritimati", "Pacific/Pago_Pago", "Africa/Cairo", "Africa/Casablanca", "Atlantic/Azores",
}

var ianaLocs = func() (l []*time.Location) {
	for _, n := range ianaNames {
		loc, err := time.LoadLocation(n)
		if err != nil {
			panic("harness: " + err.Error())
		}
		l = append(l, loc)
	}
	return l
}()

func genLoc(r *rand.Rand) *time.Location {
	switch r.IntN(4) {
	case 0:
		return time.UTC
	case 1:
		return time.FixedZone("XX", (between(r, -48, 56))*900)
	default:
		return pick(r, ianaLocs)
	}
}

func lastDay(y, m int) int { return time.Date(y, time.Month(m)+1, 0, 0, 0, 0, 0, time.UTC).Day() }

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

// genDay gives a random valid date, with weight on month ends and leap days.
func genDay(r *rand.Rand, lo, hi int) (y, m, d int) {
	y, m = between(r, lo, hi), between(r, 1, 12)
	switch r.IntN(6) {
	case 0:
		d = lastDay(y, m)
	case 1:
		d = pick(r, []int{1, 2, 12, 13, 28})
	case 2:
		if leap(y) {
			return y, 2, 29
		}
		d = between(r, 1, 12)
	default:
		d = between(r, 1, lastDay(y, m))
	}
	return
}

func genClock(r *rand.Rand) (h, m, s int) {
	h, m, s = r.IntN(24), r.IntN(60), r.IntN(60)
	switch r.IntN(8) {
	case 0:
		h, m, s = 0, 0, 0
	case 1:
		h, m, s = 12, 0, 0
	case 2:
		h, m, s = 23, 59, 59
	case 3:
		h = pick(r, []int{0, 12})
	}
	return
}

// genNow gives a random CurrentTime.
func genNow(r *rand.Rand, loc *time.Location) time.Time {
	y, m, d := genDay(r, 1990, 2060)
	h, mi, s := genClock(r)
	ns := 0
	if chance(r, 0.3) {
		ns = r.IntN(1e6) * 1000
	}
	return time.Date(y, time.Month(m), d, h, mi, s, ns, loc)
}

// ---- English dates ----

var monthFull = []string{"", "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}
var monthAbbr = []string{"", "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}
var dayFull = []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}
var dayAbbr = []string{"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}

func ordinal(d int) string {
	suf := "th"
	if d%100 < 11 || d%100 > 13 {
		switch d % 10 {
		case 1:
			suf = "st"
		case 2:
			suf = "nd"
		case 3:
			suf = "rd"
		}
	}
	return strconv.Itoa(d) + suf
}

type dateFmt struct {
	name string
	f    func(r *rand.Rand, y, m, d int) string
	iso  bool // understood the same way whatever the language
}

func monthName(r *rand.Rand, m int) string {
	if chance(r, 0.5) {
		return monthFull[m]
	}
	if m == 9 && chance(r, 0.3) {
		return "Sept"
	}
	return monthAbbr[m]
}

func weekdayName(r *rand.Rand, y, m, d int) string {
	w := time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC).Weekday()
	if chance(r, 0.5) {
		return dayFull[w]
	}
	return dayAbbr[w]
}

func dnum(r *rand.Rand, d int) string {
	if chance(r, 0.5) {
		return fmt.Sprintf("%02d", d)
	}
	return strconv.Itoa(d)
}

var dateFmts = []dateFmt{
	{"d Mon y", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%s %s %04d", dnum(r, d), monthName(r, m), y)
	}, false},
	{"Mon d, y", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%s %s, %04d", monthName(r, m), dnum(r, d), y)
	}, false},
	{"Mon d y", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%s %s %04d", monthName(r, m), dnum(r, d), y)
	}, false},
	{"Mon. d, y", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%s. %s, %04d", monthAbbr[m], dnum(r, d), y)
	}, false},
	{"d-Mon-y", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%s-%s-%04d", dnum(r, d), monthName(r, m), y)
	}, false},
	{"y Mon d", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%04d %s %s", y, monthName(r, m), dnum(r, d))
	}, false},
	{"y-Mon-d", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%04d-%s-%s", y, monthName(r, m), dnum(r, d))
	}, false},
	{"dth Mon y", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%s %s %04d", ordinal(d), monthName(r, m), y)
	}, false},
	{"dth of Mon, y", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%s of %s%s %04d", ordinal(d), monthName(r, m), pick(r, []string{"", ","}), y)
	}, false},
	{"Mon dth, y", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%s %s, %04d", monthName(r, m), ordinal(d), y)
	}, false},
	{"Wd, d Mon y", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%s, %s %s %04d", weekdayName(r, y, m, d), dnum(r, d), monthName(r, m), y)
	}, false},
	{"Wd, Mon d, y", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%s, %s %s, %04d", weekdayName(r, y, m, d), monthName(r, m), dnum(r, d), y)
	}, false},
	{"Wd Mon d y", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%s %s %s %04d", weekdayName(r, y, m, d), monthName(r, m), dnum(r, d), y)
	}, false},
	{"y-m-d", func(r *rand.Rand, y, m, d int) string { return fmt.Sprintf("%04d-%02d-%02d", y, m, d) }, true},
	{"y/m/d", func(r *rand.Rand, y, m, d int) string { return fmt.Sprintf("%04d/%02d/%02d", y, m, d) }, true},
	{"y.m.d", func(r *rand.Rand, y, m, d int) string { return fmt.Sprintf("%04d.%02d.%02d", y, m, d) }, true},
	{"m/d/y", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%s/%s/%04d", dnum(r, m), dnum(r, d), y)
	}, false},
	{"m-d-y", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%s-%s-%04d", dnum(r, m), dnum(r, d), y)
	}, false},
	{"m.d.y", func(r *rand.Rand, y, m, d int) string {
		return fmt.Sprintf("%s.%s.%04d", dnum(r, m), dnum(r, d), y)
	}, false},
}

type timeFmt struct {
	name  string
	f     func(r *rand.Rand, h, m, s, us int) string
	parts int // 1 hour, 2 minute, 3 second, 4 fraction
	clock int // 12 or 24
}

func h12(h int) (int, string) {
	ap := "AM"
	if h >= 12 {
		ap = "PM"
	}
	h %= 12
	if h == 0 {
		h = 12
	}
	return h, ap
}

func meridian(r *rand.Rand, ap string) string {
	switch r.IntN(4) {
	case 0:
		return strings.ToLower(ap)
	case 1:
		return " " + strings.ToLower(ap)
	case 2:
		return ap
	}
	return " " + ap
}

func frac(us int) string {
	s := strings.TrimRight(fmt.Sprintf("%06d", us), "0")
	if s == "" {
		s = "0"
	}
	return s
}

var timeFmts = []timeFmt{
	{"h:m", func(r *rand.Rand, h, m, s, us int) string { return fmt.Sprintf("%02d:%02d", h, m) }, 2, 24},
	{"h:m:s", func(r *rand.Rand, h, m, s, us int) string { return fmt.Sprintf("%02d:%02d:%02d", h, m, s) }, 3, 24},
	{"h:m:s.f", func(r *rand.Rand, h, m, s, us int) string {
		return fmt.Sprintf("%02d:%02d:%02d.%s", h, m, s, frac(us))
	}, 4, 24},
	{"H:m p", func(r *rand.Rand, h, m, s, us int) string {
		h, ap := h12(h)
		return fmt.Sprintf("%s:%02d%s", dnum(r, h), m, meridian(r, ap))
	}, 2, 12},
	{"H:m:s p", func(r *rand.Rand, h, m, s, us int) string {
		h, ap := h12(h)
		return fmt.Sprintf("%s:%02d:%02d%s", dnum(r, h), m, s, meridian(r, ap))
	}, 3, 12},
	{"H p", func(r *rand.Rand, h, m, s, us int) string {
		h, ap := h12(h)
		return fmt.Sprintf("%s%s", dnum(r, h), meridian(r, ap))
	}, 1, 12},
	{"H:m:s.f p", func(r *rand.Rand, h, m, s, us int) string {
		h, ap := h12(h)
		return fmt.Sprintf("%d:%02d:%02d.%s %s", h, m, s, frac(us), ap)
	}, 4, 12},
}

// Full is a string that states a complete date, with its meaning.
type Full struct {
	Text  string
	Label string
	T     time.Time // wall clock, in UTC
	Parts int       // 0: no time
	Iso   bool
}

func genFull(r *rand.Rand, lo, hi int, pTime float64) Full {
	y, m, d := genDay(r, lo, hi)
	df := pick(r, dateFmts)
	if strings.HasSuffix(df.name, "-y") && (y == 1000 || y == 1100 || y == 1200) {
		y += 17 // "-1200" at the end is also a zone offset
		d = min(d, 28)
	}
	f := Full{Text: df.f(r, y, m, d), Label: df.name, Iso: df.iso, T: time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)}
	if !chance(r, pTime) {
		return f
	}
	tf := pick(r, timeFmts)
	h, mi, s := genClock(r)
	us := r.IntN(1e6)
	if chance(r, 0.3) {
		us = pick(r, []int{1, 10, 100000, 120000, 123000, 500000, 999999, 0, 1000})
	}
	switch tf.parts {
	case 1:
		mi, s, us = 0, 0, 0
	case 2:
		s, us = 0, 0
	case 3:
		us = 0
	}
	seps := []string{" ", ", ", " at ", " "}
	if tf.parts == 1 {
		seps = []string{" at ", ", ", " at "}
	}
	sep := pick(r, seps)
	if df.name == "y-m-d" && tf.clock == 24 && chance(r, 0.5) {
		sep = "T"
	}
	ts := tf.f(r, h, mi, s, us)
	if chance(r, 0.1) && tf.parts > 1 && tf.parts < 4 {
		f.Text = ts + pick(r, []string{" ", ", "}) + f.Text
		sep = "before"
	} else {
		f.Text += sep + ts
	}
	f.Label += "|" + sep + "|" + tf.name
	f.T = time.Date(y, time.Month(m), d, h, mi, s, us*1000, time.UTC)
	f.Parts = tf.parts
	return f
}

func cfgEn(r *rand.Rand, now time.Time) (*dps.Configuration, string) {
	cfg := &dps.Configuration{CurrentTime: now}
	switch r.IntN(4) {
	case 0:
		return cfg, "default"
	case 1:
		cfg.Locales = []string{"en"}
		return cfg, "locale en"
	default:
		cfg.Languages = []string{"en"}
		return cfg, "language en"
	}
}

func showCfg(c *dps.Configuration) string {
	if c == nil {
		return "nil"
	}
	var p []string
	add := func(f string, a ...any) { p = append(p, fmt.Sprintf(f, a...)) }
	if c.Locales != nil {
		add("Locales=%v", c.Locales)
	}
	if c.Languages != nil {
		add("Languages=%v", c.Languages)
	}
	if c.Region != "" {
		add("Region=%s", c.Region)
	}
	if c.TryPreviousLocales {
		add("TryPreviousLocales")
	}
	if c.UseGivenOrder {
		add("UseGivenOrder")
	}
	if c.DefaultLanguages != nil {
		add("DefaultLanguages=%v", c.DefaultLanguages)
	}
	if c.DateOrder != nil {
		add("DateOrder(en)=%s", c.DateOrder("en"))
	}
	if !c.CurrentTime.IsZero() {
		add("CurrentTime=%s", c.CurrentTime.Format(time.RFC3339Nano+" MST"))
	}
	if c.DefaultTimezone != nil {
		add("DefaultTimezone=%s", c.DefaultTimezone)
	}
	if c.PreferredDayOfMonth != 0 {
		add("PreferredDayOfMonth=%d", c.PreferredDayOfMonth)
	}
	if c.PreferredMonthOfYear != 0 {
		add("PreferredMonthOfYear=%d", c.PreferredMonthOfYear)
	}
	if c.PreferredDateSource != 0 {
		add("PreferredDateSource=%d", c.PreferredDateSource)
	}
	if c.StrictParsing {
		add("StrictParsing")
	}
	if c.RequiredParts != nil {
		add("RequiredParts=%v", c.RequiredParts)
	}
	if c.SkipTokens != nil {
		add("SkipTokens=%v", c.SkipTokens)
	}
	if c.ReturnTimeAsPeriod {
		add("ReturnTimeAsPeriod")
	}
	if c.PreserveEndOfMonth {
		add("PreserveEndOfMonth")
	}
	return "{" + strings.Join(p, " ") + "}"
}
