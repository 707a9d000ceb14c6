package main

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// ---------- P20, P21: Jalali and Hijri dates ----------

// calendar is a table of the days (since 1970) on which months begin.
type calendar struct {
	lo, hi int   // years
	start  []int // of month (year-lo)*12+month-1, and one more
	bad    map[int]bool
}

func (k *calendar) length(y, m int) int {
	i := (y-k.lo)*12 + m - 1
	return k.start[i+1] - k.start[i]
}

func (k *calendar) day(y, m, d int) time.Time {
	return time.Unix(int64(k.start[(y-k.lo)*12+m-1]+d-1)*86400, 0).UTC()
}

func (k *calendar) from(t time.Time) (y, m, d int, ok bool) {
	n := int(time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC).Unix() / 86400)
	if x := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC).Unix(); x < 0 && x%86400 != 0 {
		n--
	}
	if n < k.start[0] || n >= k.start[len(k.start)-1] {
		return
	}
	lo, hi := 0, len(k.start)-1
	for hi-lo > 1 {
		if mid := (lo + hi) / 2; k.start[mid] <= n {
			lo = mid
		} else {
			hi = mid
		}
	}
	return k.lo + lo/12, lo%12 + 1, n - k.start[lo] + 1, true
}

var persian, hijriCal calendar

func loadCalendars() {
	var t struct {
		Persian [][3]int `json:"persian"`
		Hijri   [][2]int `json:"hijri"`
	}
	loadCorpus("cal.json.gz", &t)
	persian = calendar{lo: t.Persian[0][0], hi: t.Persian[len(t.Persian)-2][0], bad: map[int]bool{}}
	for i, x := range t.Persian {
		if x[2] == 0 {
			persian.bad[x[0]], persian.bad[x[0]-1] = true, true
		}
		if i == len(t.Persian)-1 {
			persian.start = append(persian.start, x[1])
			break
		}
		for m := range 12 {
			persian.start = append(persian.start, x[1]+m*30+min(m, 6))
		}
	}
	hijriCal = calendar{lo: 1356, hi: 1500}
	for _, x := range t.Hijri {
		hijriCal.start = append(hijriCal.start, x[1])
	}
	hijriCal.start = append(hijriCal.start, hijriCal.start[len(hijriCal.start)-1]+30)
}

// ordinal numbers of days in Persian
var faOrdinals = []string{"", "یکم", "دوم", "سوم", "چهارم", "پنجم", "ششم", "هفتم", "هشتم", "نهم", "دهم", "یازدهم", "دوازدهم", "سیزدهم", "چهاردهم", "پانزدهم",
	"شانزدهم", "هفدهم", "هجدهم", "نوزدهم", "بیستم", "بیست و یکم", "بیست و دوم", "بیست و سوم", "بیست و چهارم", "بیست و پنجم", "بیست و ششم", "بیست و هفتم",
	"بیست و هشتم", "بیست و نهم", "سی ام", "سی و یکم"}

var faWeekdays = []string{"یکشنبه", "دوشنبه", "سه شنبه", "چهارشنبه", "پنجشنبه", "جمعه", "شنبه"}

type calParts struct {
	y, m, d  int
	day      bool
	month    bool
	year     bool
	h, mi, s int // h -1: no time
}

// text writes the parts; order is that of numbers.
func calText(r *rand.Rand, p calParts, order string, jalali bool) (text, form string) {
	named := jalali && (chance(r, 0.6) || !p.day || !p.year)
	var l []string
	if named {
		d := strconv.Itoa(p.d)
		form = "name"
		switch r.IntN(5) {
		case 0:
			d = faOrdinals[p.d]
			form = "ordinal word"
		case 1:
			d = fmt.Sprintf("%02d", p.d)
		case 2:
			d += "م"
		}
		if p.day {
			l = append(l, d)
		}
		if p.month {
			name := faMonths[p.m-1]
			switch {
			case name == "مرداد" && chance(r, 0.3):
				name = "امرداد"
			case name == "شهریور" && chance(r, 0.3):
				name = "شهريور"
			}
			l = append(l, name)
		}
		if p.year {
			l = append(l, strconv.Itoa(p.y))
		}
		if yearFirst := strings.Index(order, "Y") < strings.Index(order, "D"); p.day && p.year && yearFirst {
			l[0], l[len(l)-1] = l[len(l)-1], l[0]
		}
		if form == "name" && p.month && chance(r, 0.2) { // the month anywhere
			i, j := 1, r.IntN(len(l))
			if !p.day {
				i = 0
			}
			if len(l) == 3 {
				x := l[i]
				l = append(l[:i], l[i+1:]...)
				l = append(l[:j], append([]string{x}, l[j:]...)...)
			} else {
				l[i], l[j] = l[j], l[i]
			}
		}
		text = strings.Join(l, " ")
		if p.day && p.month && p.year && chance(r, 0.3) {
			w := faWeekdays[persian.day(p.y, p.m, p.d).Weekday()]
			switch {
			case w == "سه شنبه" && chance(r, 0.5):
				w = "سه\u200cشنبه"
			case w == "چهارشنبه" && chance(r, 0.3):
				w = "چهار شنبه"
			case w == "پنجشنبه" && chance(r, 0.3):
				w = "پنج شنبه"
			case w == "شنبه" && chance(r, 0.3):
				w = "روز شنبه"
			}
			text = w + pick(r, []string{" ", "، ", " "}) + text
			form += " weekday"
		}
	} else {
		sep := pick(r, []string{"/", "-", ".", " "})
		if p.y <= 1200 && p.y%100 == 0 && sep == "-" {
			sep = "/" // "-1200" is also a zone offset
		}
		form = "numbers " + order
		for _, x := range order {
			switch {
			case x == 'D' && p.day:
				l = append(l, dnum(r, p.d))
			case x == 'M' && p.month:
				l = append(l, dnum(r, p.m))
			case x == 'Y' && p.year:
				l = append(l, strconv.Itoa(p.y))
			}
		}
		text = strings.Join(l, sep)
		if !jalali && p.year && strings.HasSuffix(order, "Y") && chance(r, 0.2) {
			text += " هـ"
		}
	}
	if p.h >= 0 {
		h, ap := h12(p.h)
		ts := ""
		k := r.IntN(5)
		if text == "" {
			k = r.IntN(2)
		}
		switch k {
		case 0:
			ts = fmt.Sprintf("%02d:%02d:%02d", p.h, p.mi, p.s)
		case 1, 2:
			if p.s != 0 {
				ts = fmt.Sprintf("%d:%02d:%02d %s", h, p.mi, p.s, ap)
			} else {
				ts = fmt.Sprintf("%02d:%02d %s", h, p.mi, strings.ToLower(ap))
			}
			if !jalali && chance(r, 0.6) {
				ts = ts[:len(ts)-2] + map[string]string{"AM": pick(r, arAM), "PM": pick(r, arPM)}[ap]
			}
		default:
			ts = fmt.Sprintf("%02d:%02d:%02d", p.h, p.mi, p.s)
			if jalali {
				ts = pick(r, []string{
					fmt.Sprintf("ساعت %d:%02d:%02d", p.h, p.mi, p.s),
					fmt.Sprintf("ساعت %02d و %02d دقیقه و %02d ثانیه", p.h, p.mi, p.s),
				})
			}
		}
		form += " time"
		if text != "" {
			text += pick(r, []string{" ", ", ", "، "})
		}
		text += ts
	}
	switch r.IntN(3) {
	case 0:
		text = localDigits(text, 0x6F0)
	case 1:
		text = localDigits(text, 0x660)
	}
	return
}

// complete gives the date that the stated parts and now mean.
func (k *calendar) complete(p calParts, now time.Time, cfg *dps.Configuration) (y, m, d int, ok bool) {
	ny, nm, nd, ok := k.from(now)
	if !ok && !(p.day && p.month && p.year) {
		return 0, 0, 0, false
	}
	y, m, d = ny, nm, nd
	if p.year {
		y = p.y
	}
	if p.month {
		m = p.m
	} else if p.year || p.day {
		switch cfg.PreferredMonthOfYear {
		case dps.FirstMonth:
			m = 1
		case dps.LastMonth:
			m = 12
		}
	}
	if p.day {
		d = p.d
	} else if p.h < 0 {
		switch cfg.PreferredDayOfMonth {
		case dps.First:
			d = 1
		case dps.Last:
			d = 31
		}
	}
	if y < k.lo || y > k.hi {
		return 0, 0, 0, false
	}
	if !p.day {
		d = min(d, k.length(y, m))
	}
	return y, m, d, true
}

func calendarProp(jalali bool) func(c *Case) {
	return func(c *Case) {
		r := c.R
		k, parse, name := &hijriCal, dps.ParseHijri, "ParseHijri"
		lo, hi := 1356, 1500
		if jalali {
			k, parse, name = &persian, dps.ParseJalali, "ParseJalali"
			lo, hi = 1000, 1700
			if chance(r, 0.6) {
				lo, hi = 1300, 1450
			}
		}
		now := genNow(r, genLoc(r))
		cfg := &dps.Configuration{CurrentTime: now, PreserveEndOfMonth: chance(r, 0.1), ReturnTimeAsPeriod: chance(r, 0.1), StrictParsing: chance(r, 0.1)}
		if chance(r, 0.3) {
			cfg.PreferredDayOfMonth = dps.PreferredDayOfMonth(r.IntN(3))
			cfg.PreferredMonthOfYear = dps.PreferredMonthOfYear(r.IntN(3))
		}
		order := "DMY"
		switch r.IntN(3) {
		case 0:
			i := r.IntN(6)
			order = []string{"YMD", "YDM", "MYD", "MDY", "DYM", "DMY"}[i]
			cfg.DateOrder = orderFuncs[i]
		case 1:
			if chance(r, 0.3) {
				cfg.DateOrder = func(string) string { return "XYZ" } // ignored
			}
		}
		loc := now.Location()
		if chance(r, 0.3) {
			cfg.DefaultTimezone = genLoc(r)
			loc = cfg.DefaultTimezone
		}
		p := calParts{y: between(r, lo, hi), m: between(r, 1, 12), day: true, month: true, year: true, h: -1}
		n := k.length(p.y, p.m)
		p.d = pick(r, []int{between(r, 1, n), n, 1, between(r, 1, n), n - 1})
		if chance(r, 0.5) {
			p.h, p.mi, p.s = genClock(r)
		}
		kind := "complete"
		switch {
		case chance(r, 0.12): // incomplete
			cfg.StrictParsing = false
			kind = "incomplete"
			if p.day, p.month, p.year = false, false, false; chance(r, 0.15) {
				p.h, p.mi, p.s = genClock(r)
				kind = "time"
				break
			}
			p.h = -1
			if !jalali {
				p.month, p.year = true, true
				if strings.Index(order, "D") < strings.Index(order, "M") {
					return // the month is a day then
				}
				break
			}
			switch r.IntN(4) {
			case 0:
				p.month = true
			case 1:
				p.month, p.year = true, true
			case 2:
				p.month, p.day = true, true
			case 3:
				p.year = true
			}
			if p.month && chance(r, 0.3) {
				p.h, p.mi, p.s = genClock(r)
			}
		case chance(r, 0.08) && jalali: // a day that does not exist
			kind = "no such day"
			p.m = between(r, 7, 12)
			p.d = k.length(p.y, p.m) + 1
		case chance(r, 0.06) && !jalali:
			kind = "outside the calendar"
			p.y = pick(r, []int{1355, 1501, 1300, 1600, 1000, 2014, between(r, 1501, 9999), between(r, 1000, 1355)})
		}
		if kind == "incomplete" && p.day && strings.Index(order, "Y") < strings.Index(order, "D") {
			return // the day is a year then
		}
		text, form := calText(r, p, order, jalali)
		zone := ""
		if kind == "complete" && p.h >= 0 && chance(r, 0.2) {
			z := pick(r, tzOffsets)
			zone = " " + pick(r, []string{z.Name, z.Name[3:], strings.ReplaceAll(z.Name[3:], ":", "")})
			loc = time.FixedZone("", z.Offset)
			text += zone
		}
		call := func() string {
			return fmt.Sprintf("%s(%s, %q)", name, showCfg(cfg), text)
		}
		c.desc = call()
		if kind == "outside the calendar" {
			c.Eval(1)
			c.Seen(text + order)
			c.Count(kind)
			if got, err := parse(cfg, text); err == nil {
				c.Fail(kind, "%s = %s, want an error", call(), got.Time)
			}
			return
		}
		if kind == "no such day" {
			c.Eval(1)
			c.Seen(text + order)
			c.Count(kind)
			if got, err := parse(cfg, text); err == nil {
				if _, m, _, _ := k.from(got.Time); m != p.m && !k.bad[p.y] && p.y != 0 {
					c.Fail(kind, "%s = %s, which is in month %d", call(), got.Time, m)
				}
			}
			return
		}
		y, m, d, ok := k.complete(p, now, cfg)
		if !ok || k.bad[y] {
			return
		}
		if kind != "complete" && d > k.length(y, m) { // a leap day without year, or a day that now's year does not have
			c.Count("skipped: leap day")
			return
		}
		g := k.day(y, m, d)
		want := g
		if p.h >= 0 {
			want = g.Add(time.Duration(p.h*3600+p.mi*60+p.s) * time.Second)
		}
		if strings.HasSuffix(form, " time") && p.s != 0 && !strings.Contains(localDigitsBack(text), fmt.Sprintf("%02d", p.s)) {
			want = want.Add(-time.Duration(p.s) * time.Second)
		}
		w, ok := wallIn(want, loc)
		if !ok {
			c.Count("skipped: no such time in the zone")
			return
		}
		got, err := parse(cfg, text)
		c.Eval(1)
		c.Seen(text + order)
		c.Count(kind + " " + strings.TrimPrefix(form, "numbers ") + map[bool]string{true: " zone"}[zone != ""])
		if err != nil {
			c.Fail(kind, "%s: %v, want %s", call(), err, w)
			return
		}
		if wall(got.Time) != wall(w) || !sameOffset(got.Time, w) {
			c.Fail(kind, "%s = %s, want %s (%d-%d-%d)", call(), got.Time, w, y, m, d)
		}
		period := date.Day
		if !p.day && p.h < 0 {
			period = date.Month
			if !p.month {
				period = date.Year
			}
		}
		if got.Period != period && p.h < 0 {
			c.Fail(kind+" period", "%s has period %v, want %v", call(), got.Period, period)
		}
		if kind == "complete" && zone == "" && !jalali && chance(r, 0.2) && w.Sub(hijriCal.day(1356, 1, 1)) > 0 {
			// the next Hijri day is the next day
			q := p
			if q.d++; q.d > k.length(q.y, q.m) {
				if q.d, q.m = 1, q.m+1; q.m > 12 {
					q.m, q.y = 1, q.y+1
				}
			}
			if q.y <= 1500 {
				t := fmt.Sprintf("%d-%d-%d", q.d, q.m, q.y)
				n, err := parse(&dps.Configuration{CurrentTime: time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)}, t)
				c.Eval(1)
				if err != nil || n.Time.Format("2006-01-02") != g.AddDate(0, 0, 1).Format("2006-01-02") {
					c.Fail("consecutive", "%s is %s, but the next day %q is %s (%v)", text, g, t, n.Time, err)
				}
			}
		}
	}
}

// localDigitsBack writes any decimal digits of the two Arabic sets in ASCII.
func localDigitsBack(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 0x660 && r <= 0x669:
			return '0' + r - 0x660
		case r >= 0x6F0 && r <= 0x6F9:
			return '0' + r - 0x6F0
		}
		return r
	}, s)
}

func sameOffset(a, b time.Time) bool {
	_, x := a.Zone()
	_, y := b.Zone()
	return x == y
}

func init() {
	setup := func() {
		loadTables()
		loadCalendars()
	}
	props["P20"] = &Prop{
		Rule:     "random Jalali dates (weight on month ends) written with Persian, Arabic or Latin digits, month names, ordinal words, weekdays, or numbers in all six orders, with times and zones; incomplete ones under the preferences; days that do not exist; the result must be what a frozen table of Nowruz days (from ICU, where the two agree) gives; non-trivial: distinct (string, order)",
		Quick:    60000,
		Thorough: 2000000,
		Setup:    setup,
		Run:      calendarProp(true),
	}
	props["P21"] = &Prop{
		Rule:     "random Hijri dates of 1356-1500 (weight on month ends) in all six orders, with Arabic, Persian or Latin digits, times with Arabic or Latin meridian, zones; years outside; the result must be what a frozen table of month starts gives, and the next Hijri day the next day; non-trivial: distinct (string, order)",
		Quick:    60000,
		Thorough: 2000000,
		Setup:    setup,
		Run:      calendarProp(false),
	}
}

var (
	arAM = []string{"صباحاً", "صباحًا", "صباحا", "صَبَاحًا"}
	arPM = []string{"مساءً", "مساء", "مَسَاءً"}
)
