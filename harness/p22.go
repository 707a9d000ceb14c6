package main

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"time"
	"unicode"

	dps "github.com/markusmobius/go-dateparser"
)

// ---------- P22, P23: search ----------

// searchLang has what is needed to write prose with dates in a language.
type searchLang struct {
	code   string
	months []string
	dates  []string  // forms of a complete date
	words  []string  // words without any date meaning
	month  *monthEnt // of the frozen table of searchable month names
}

func fields(s string) []string { return strings.Fields(s) }

var searchLangs = []searchLang{
	{"en", monthFull, []string{"{d} {m} {y}", "{m} {d}, {y}", "{m} {d} {y}", "{d}{o} {m} {y}", "{m} {d}{o}, {y}", "{w}, {m} {d}, {y}", "{w}, {d} {m} {y}", "{d} {a} {y}", "{a} {d}, {y}"},
		fields("report published council agreement signed Berlin treaty museum visitors remembered castle building finally opened famous painter journey mountain letter scientists explained president company announced results"), nil},
	{"fr", partialLangs[0].months, []string{"{d} {m} {y}", "{w} {d} {m} {y}"},
		fields("rapport publié traité signé Berlin musée visiteurs château bâtiment célèbre peintre voyage montagne lettre savants expliqué président entreprise annoncé résultats"), nil},
	{"es", partialLangs[1].months, []string{"{d} de {m} de {y}", "{w}, {d} de {m} de {y}"},
		fields("informe publicado tratado firmado Berlín museo visitantes castillo edificio famoso pintor viaje montaña carta científicos explicaron presidente empresa anunció resultados"), nil},
	{"de", partialLangs[2].months, []string{"{d}. {m} {y}", "{w}, {d}. {m} {y}"},
		fields("Bericht veröffentlicht Vertrag unterzeichnet Berlin Museum Besucher Schloss Gebäude berühmter Maler Reise Berg Brief Forscher erklärten Präsident Firma verkündete Ergebnisse"), nil},
	{"it", partialLangs[3].months, []string{"{d} {m} {y}", "{w} {d} {m} {y}"},
		fields("rapporto pubblicato trattato firmato Berlino museo visitatori castello edificio famoso pittore viaggio montagna lettera scienziati spiegato presidente azienda annunciato risultati"), nil},
	{"ru", partialLangs[4].months, []string{"{d} {m} {y}", "{w}, {d} {m} {y}"},
		fields("доклад опубликован договор подписан Берлин музей посетители замок здание знаменитый художник путешествие письмо учёные объяснили президент компания объявила результаты"), nil},
	{"pt", partialLangs[5].months, []string{"{d} de {m} de {y}"},
		fields("relatório publicado tratado assinado Berlim museu visitantes castelo edifício famoso pintor viagem montanha carta cientistas explicaram presidente empresa anunciou resultados"), nil},
	{"nl", partialLangs[6].months, []string{"{d} {m} {y}", "{w} {d} {m} {y}"},
		fields("rapport gepubliceerd verdrag ondertekend Berlijn museum bezoekers kasteel gebouw beroemde schilder reis berg brief geleerden verklaarden president bedrijf kondigde resultaten"), nil},
	{"pl", partialLangs[7].months, []string{"{d} {m} {y}", "{w}, {d} {m} {y}"},
		fields("raport opublikowany traktat podpisany Berlin muzeum goście zamek budynek słynny malarz podróż góra list naukowcy wyjaśnili prezydent firma ogłosiła wyniki"), nil},
	{"tr", partialLangs[8].months, []string{"{d} {m} {y}"},
		fields("rapor yayınlandı antlaşma imzalandı Berlin müze ziyaretçiler kale bina ünlü ressam yolculuk mektup bilimciler açıkladı başkan şirket duyurdu sonuçlar"), nil},
	{"sv", fields("- januari februari mars april maj juni juli augusti september oktober november december"), []string{"{d} {m} {y}", "{w} {d} {m} {y}"},
		fields("rapport publicerad fördrag undertecknat Berlin museum besökare slott byggnad berömd målare resa berg brev forskare förklarade president företag meddelade resultat"), nil},
	{"id", fields("- Januari Februari Maret April Mei Juni Juli Agustus September Oktober November Desember"), []string{"{d} {m} {y}"},
		fields("laporan diterbitkan perjanjian museum pengunjung istana bangunan terkenal pelukis gunung surat ilmuwan presiden perusahaan mengumumkan"), nil},
	{"cs", fields("- ledna února března dubna května června července srpna září října listopadu prosince"), []string{"{d}. {m} {y}", "{w} {d}. {m} {y}"},
		fields("zpráva smlouva podepsána muzeum návštěvníci zámek budova slavný malíř cesta hora dopis vědci vysvětlili prezident společnost výsledky"), nil},
	{"da", fields("- januar februar marts april maj juni juli august september oktober november december"), []string{"{d}. {m} {y}", "{d} {m} {y}"},
		fields("rapport traktat underskrevet museum gæster slot bygning berømt maler rejse bjerg brev forskere forklarede præsident firma resultater"), nil},
	{"fi", fields("- tammikuuta helmikuuta maaliskuuta huhtikuuta toukokuuta kesäkuuta heinäkuuta elokuuta syyskuuta lokakuuta marraskuuta joulukuuta"), []string{"{d}. {m} {y}"},
		fields("raportti sopimus allekirjoitettu museo vieraat linna rakennus kuuluisa taiteilija matka vuori kirje tutkijat selittivät presidentti yhtiö tulokset"), nil},
	{"hu", fields("- január február március április május június július augusztus szeptember október november december"), []string{"{y}. {m} {d}."},
		fields("jelentés szerződés múzeum látogatók kastély épület híres festő utazás hegy levél tudósok elnök cég eredmények"), nil},
	{"uk", fields("- січня лютого березня квітня травня червня липня серпня вересня жовтня листопада грудня"), []string{"{d} {m} {y}"},
		fields("доповідь договір підписано музей відвідувачі замок будівля знаменитий художник подорож гора вчені пояснили президент компанія результати"), nil},
	{"ro", fields("- ianuarie februarie martie aprilie mai iunie iulie august septembrie octombrie noiembrie decembrie"), []string{"{d} {m} {y}"},
		fields("raport tratat semnat muzeu vizitatori castel faimos pictor munte scrisoare președinte companie rezultate"), nil},
	{"bg", fields("- януари февруари март април май юни юли август септември октомври ноември декември"), []string{"{d} {m} {y}"},
		fields("доклад договор подписан музей посетители замък сграда известен художник пътуване планина писмо учени президент компания резултати"), nil},
	{"hr", fields("- siječnja veljače ožujka travnja svibnja lipnja srpnja kolovoza rujna listopada studenoga prosinca"), []string{"{d}. {m} {y}", "{d} {m} {y}"},
		fields("izvješće ugovor potpisan muzej posjetitelji dvorac zgrada poznati slikar putovanje planina pismo znanstvenici predsjednik rezultati"), nil},
	{"vi", nil, []string{"{d} tháng {M} năm {y}", "ngày {d} tháng {M} năm {y}"},
		fields("báo cáo hiệp ước bảo tàng khách lâu đài nổi tiếng họa sĩ ngọn núi"), nil},
	{"el", fields("- Ιανουαρίου Φεβρουαρίου Μαρτίου Απριλίου Μαΐου Ιουνίου Ιουλίου Αυγούστου Σεπτεμβρίου Οκτωβρίου Νοεμβρίου Δεκεμβρίου"), []string{"{d} {m} {y}"},
		fields("έκθεση συνθήκη μουσείο επισκέπτες κάστρο κτίριο διάσημος ζωγράφος ταξίδι βουνό γράμμα πρόεδρος εταιρεία αποτελέσματα"), nil},
	{"he", fields("- ינואר פברואר מרץ אפריל מאי יוני יולי אוגוסט ספטמבר אוקטובר נובמבר דצמבר"), []string{"{d} {m} {y}", "{d} ב{m} {y}"},
		fields("דוח הסכם מוזיאון מבקרים טירה בניין מפורסם צייר מסע הר מכתב מדענים נשיא חברה תוצאות"), nil},
	{"ar", fields("- يناير فبراير مارس أبريل مايو يونيو يوليو أغسطس سبتمبر أكتوبر نوفمبر ديسمبر"), []string{"{d} {m} {y}"},
		fields("تقرير معاهدة متحف زوار قلعة مبنى مشهور رسام رحلة جبل رسالة علماء رئيس شركة نتائج"), nil},
	{"fa", fields("- ژانویه فوریه مارس آوریل مه ژوئن ژوئیه اوت سپتامبر اکتبر نوامبر دسامبر"), []string{"{d} {m} {y}"},
		fields("گزارش پیمان موزه بازدیدکنندگان قلعه ساختمان مشهور نقاش سفر کوه نامه دانشمندان رئیس شرکت نتایج"), nil},
	{"hi", fields("- जनवरी फ़रवरी मार्च अप्रैल मई जून जुलाई अगस्त सितंबर अक्टूबर नवंबर दिसंबर"), []string{"{d} {m} {y}"},
		fields("रिपोर्ट संधि संग्रहालय किला इमारत प्रसिद्ध चित्रकार यात्रा पहाड़ पत्र वैज्ञानिक राष्ट्रपति कंपनी परिणाम"), nil},
	{"zh", nil, []string{"{y}年{M}月{d}日"},
		fields("报告 条约 博物馆 游客 城堡 著名 画家 旅行 信件 科学家 总统 公司 结果"), nil},
	{"ja", nil, []string{"{y}年{M}月{d}日"},
		fields("レポート ミュージアム ビジター キャッスル ペインター レター プレジデント"), nil},
	{"th", fields("- มกราคม กุมภาพันธ์ มีนาคม เมษายน พฤษภาคม มิถุนายน กรกฎาคม สิงหาคม กันยายน ตุลาคม พฤศจิกายน ธันวาคม"), []string{"{d} {m} {y}"},
		fields("รายงาน พิพิธภัณฑ์ ปราสาท จิตรกร ภูเขา จดหมาย"), nil},
}

var searchWeekdays = map[string][]string{
	"en": dayFull,
	"fr": fields("dimanche lundi mardi mercredi jeudi vendredi samedi"),
	"es": fields("domingo lunes martes miércoles jueves viernes sábado"),
	"de": fields("Sonntag Montag Dienstag Mittwoch Donnerstag Freitag Samstag"),
	"it": fields("domenica lunedì martedì mercoledì giovedì venerdì sabato"),
	"ru": fields("воскресенье понедельник вторник среда четверг пятница суббота"),
	"nl": fields("zondag maandag dinsdag woensdag donderdag vrijdag zaterdag"),
	"pl": fields("niedziela poniedziałek wtorek środa czwartek piątek sobota"),
	"cs": fields("neděle pondělí úterý středa čtvrtek pátek sobota"),
	"sv": fields("söndag måndag tisdag onsdag torsdag fredag lördag"),
}

// yearWords may follow a numeric date.
var yearWords = map[string][]string{
	"ru": {" года", " год", " г."},
	"uk": {" року", " р."},
	"bg": {" година", " г."},
	"pl": {" roku", " r."},
}

// dottedLangs write the day of a month as 14.
var dottedLangs = fields("fi cs hu de da hr bs bs-Latn bs-Cyrl sr sr-Latn sr-Cyrl sk sl nb nn et lv is fo lb hsb dsb gsw ksh smn")

func (l *searchLang) date(r *rand.Rand, y, m, d int) string {
	if l.month != nil {
		s := l.month.text(d, y)
		if slices.Contains(dottedLangs, l.code) && chance(r, 0.4) {
			s = strings.Replace(s, fmt.Sprintf("%d ", d), fmt.Sprintf("%d. ", d), 1)
		}
		return s
	}
	t := time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)
	s := pick(r, l.dates)
	w := ""
	if x := searchWeekdays[l.code]; x != nil {
		w = x[t.Weekday()]
	}
	m1 := ""
	if l.months != nil {
		m1 = l.months[m]
	}
	return strings.NewReplacer("{M}", fmt.Sprint(m), "{d}{o}", ordinal(d), "{d}", fmt.Sprint(d), "{m}", m1, "{a}", monthAbbr[m], "{y}", fmt.Sprint(y), "{w}", w).Replace(s)
}

// ownStops has the ends of sentences of languages that do not use the common ones.
var ownStops = map[string][]string{
	"ar": {". ", "؟ ", "! ", "؛ ", "\n"}, "fa": {". ", "؟ ", "! ", "؛ ", "\n"}, "ur": {"۔ ", "؟ "}, "hi": {"। ", "।", "! ", "| ", "\n"}, "bn": {"। ", "? ", "| ", "\n"},
	"th": {"\n"}, "am": {"። ", "? "}, "es": {". ", "? ¿", "! ¡", "? ", "; "}, "my": {"။ "}, "ne": {"। "}, "ja": {"。", "？", "\n", "。\n", "! "}, "zh": {"。", "！", "\n", "? "}, "yue": {"。", "\n"},
}

func (l *searchLang) fill(r *rand.Rand, n int) string {
	if l.words == nil {
		return fillerWords(r, n)
	}
	w := make([]string, n)
	for i := range w {
		w[i] = pick(r, l.words)
	}
	return strings.Join(w, " ")
}

type embedded struct {
	text  string
	t     time.Time
	until time.Time // of a range, if not zero
}

// prose writes a text with the dates.
func (l *searchLang) prose(r *rand.Rand, dates []embedded) string {
	var sb strings.Builder
	if chance(r, 0.8) {
		sb.WriteString(l.fill(r, between(r, 1, 6)) + " ")
	}
	for i, d := range dates {
		if chance(r, 0.1) && (l.month == nil || len(strings.Fields(d.text)) <= 3) {
			sb.WriteString("(" + d.text + ")")
		} else {
			sb.WriteString(d.text)
		}
		if i == len(dates)-1 && chance(r, 0.3) {
			sb.WriteString(pick(r, []string{"", ".", "!"}))
			break
		}
		switch r.IntN(4) {
		case 0:
			stops := []string{". ", "? ", "! ", "; ", "… ", "\n", ".\r\n"}
			if x := ownStops[l.code]; x != nil {
				stops = x
			}
			stop := pick(r, stops)
			sb.WriteString(stop)
			if chance(r, 0.7) || (stop[0] == '.' && slices.Contains(dottedLangs, l.code)) { // else the next date starts the sentence
				sb.WriteString(upperFirst(l.fill(r, between(r, 1, 5))) + " ")
			}
		case 1:
			sb.WriteString(", " + l.fill(r, between(r, 1, 5)) + " ")
		default:
			sb.WriteString(" " + l.fill(r, between(r, 1, 7)) + " ")
		}
	}
	return strings.TrimSpace(sb.String())
}

// list writes the dates one after the other, with single numbers and words between some of them.
func (l *searchLang) list(r *rand.Rand, dates []embedded) string {
	sep := pick(r, []string{", ", ", ", " – ", " — ", "; ", " "})
	var s []string
	for _, d := range dates {
		switch r.IntN(6) {
		case 0:
			s = append(s, fmt.Sprint(r.IntN(32)))
		case 1:
			s = append(s, l.fill(r, 1))
		}
		s = append(s, d.text)
	}
	return strings.Join(s, sep)
}

func countLetters(s string) (n int) {
	for _, r := range s {
		if unicode.IsLetter(r) {
			n++
		}
	}
	return
}

func upperFirst(s string) string {
	rs := []rune(s)
	return strings.ToUpper(string(rs[:1])) + string(rs[1:])
}

func oneSpace(s string) string { return strings.Join(strings.Fields(s), " ") }

// excerpts checks that the texts of the results occur in the text, in that order.
func excerpts(text string, rs []dps.SearchResult) string {
	t := oneSpace(text)
	for i, x := range rs {
		w := oneSpace(x.Text)
		j := strings.Index(t, w)
		if w == "" || j < 0 {
			if strings.Contains(oneSpace(text), w) && w != "" {
				return fmt.Sprintf("result %d %q comes before the one in front of it", i, x.Text)
			}
			return fmt.Sprintf("result %d %q is not in the text", i, x.Text)
		}
		t = t[j+len(w):]
	}
	return ""
}

var rxNumber = regexp.MustCompile(`\d+`)

// rxInNumber is a part of a list whose entries might be taken together.
var rxInNumber = regexp.MustCompile(`^(?:in \d+|\d+ in)$`)

// unstated checks that an excerpt without letters consists of numbers of its date. Of lists,
// whose entries might be taken together, only single numbers are checked.
func unstated(x dps.SearchResult, list bool) string {
	if countLetters(x.Text) > 0 {
		return ""
	}
	t := x.Date.Time
	allowed := []int{t.Year(), t.Year() % 100, int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second(), 100*t.Hour() + t.Minute()}
	if _, a := t.Add(-3 * time.Hour).Zone(); true {
		if _, b := t.Add(3 * time.Hour).Zone(); a != b { // the stated time might not exist
			for _, u := range []time.Time{t.Add(time.Hour), t.Add(-time.Hour)} {
				h := (t.Hour() + 24 + int(u.Sub(t)/time.Hour)) % 24
				allowed = append(allowed, u.Year(), u.Year()%100, int(u.Month()), u.Day(), h, 100*h+t.Minute())
			}
		}
	}
	nums := rxNumber.FindAllString(x.Text, -1)
	if list && len(nums) > 1 {
		return ""
	}
	for _, s := range nums {
		n, _ := strconv.Atoi(s)
		if (len(s) <= 2 || len(s) == 4) && !slices.Contains(allowed, n) {
			return fmt.Sprintf("the excerpt %q is not a text of its date %v", x.Text, t)
		}
	}
	return ""
}

var searchMonths []monthEnt

// searchRels has the relative phrases of each language that are found in searches.
var searchRels = map[string][]relEnt{}

var searchOrders = []string{"YMD", "YDM", "MYD", "MDY", "DYM", "DMY"} // as in orderFuncs

func loadSearch() {
	loadTables()
	loadCorpus("search.json.gz", &searchMonths)
	var rels []relEnt
	loadCorpus("searchrel.json.gz", &rels)
	for _, e := range rels {
		searchRels[e.L] = append(searchRels[e.L], e)
	}
}

// genSearchLang picks a language with real words, or a month of the frozen table with invented ones.
func genSearchLang(c *Case) *searchLang {
	switch c.R.IntN(5) {
	case 0:
		return &searchLangs[0]
	case 1, 2:
		m := &searchMonths[c.I%len(searchMonths)]
		return &searchLang{code: m.L, month: m}
	}
	return &searchLangs[c.I%len(searchLangs)]
}

func init() {
	props["P23"] = &Prop{
		Rule:     "prose in 29 languages with real words, and with invented words in all languages that can be searched, with one to four complete dates with month names (English ones also abbreviated, with ordinals; weekdays), ranges of two dates, localized relative phrases and numeric dates in the configured or own order, separated by words without date meaning and sentence ends; the dates of the results must be exactly the embedded ones in order; non-trivial: distinct texts",
		Quick:    24000,
		Thorough: 400000,
		Setup:    loadSearch,
		Run: func(c *Case) {
			r := c.R
			l := genSearchLang(c)
			now := genNow(r, genLoc(r))
			cfg := &dps.Configuration{CurrentTime: now}
			if chance(r, 0.15) {
				cfg.CurrentTime = time.Time{}
			}
			loc := time.UTC
			if !cfg.CurrentTime.IsZero() {
				loc = now.Location()
			}
			if chance(r, 0.2) {
				cfg.DefaultTimezone = genLoc(r)
				loc = cfg.DefaultTimezone
			}
			var dates []embedded
			order, named := -1, false
			for range between(r, 1, 4) {
				y, m, d := genDay(r, 1900, 2100)
				if l.month != nil {
					m = l.month.M
					d = min(d, lastDay(y, m))
				}
				switch k := r.IntN(8); {
				case k == 0 && l.code == "en" && !cfg.CurrentTime.IsZero() && cfg.DefaultTimezone == nil:
					named = true
					t, w := genSearchRel(r, now)
					dates = append(dates, embedded{text: t, t: w})
				case (k == 0 || k == 2) && searchRels[l.code] != nil && cfg.DefaultTimezone == nil && !cfg.CurrentTime.IsZero() && zoneIsFixed(now.Location()):
					t, w := genSearchPhrase(r, l.code, now)
					dates = append(dates, embedded{text: t, t: w})
					c.Count("phrase")
				case k == 1 && l.code != "zh" && l.code != "ja": // where complete dates follow DateOrder too
					if order < 0 && chance(r, 0.6) {
						order = r.IntN(6)
						cfg.DateOrder = orderFuncs[order]
					} else if order < 0 {
						order = max(0, slices.Index(searchOrders, localeIdx[l.code].D))
						if localeIdx[l.code].D == "" {
							order = slices.Index(searchOrders, "MDY")
						}
						if chance(r, 0.3) {
							bad := pick(r, badOrders)
							cfg.DateOrder = func(string) string { return bad }
						}
						c.Count("own order")
					}
					p := map[byte]string{'Y': fmt.Sprint(y), 'M': dnum(r, m), 'D': dnum(r, d)}
					o := searchOrders[order]
					seps := []string{"/", "-"}
					if o[1] != 'Y' {
						seps = append(seps, ".")
					}
					sep := pick(r, seps)
					s := p[o[0]] + sep + p[o[1]] + sep + p[o[2]]
					if ws := yearWords[l.code]; ws != nil && o[2] == 'Y' && chance(r, 0.3) {
						s += pick(r, ws)
						c.Count("year word")
					}
					dates = append(dates, embedded{text: s, t: time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)})
				default:
					named = true
					e := embedded{text: l.date(r, y, m, d), t: time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)}
					if chance(r, 0.15) { // 3 May 2013 – 4 June 2014
						dash := pick(r, []string{" – ", " — ", " - "})
						if slices.Contains([]string{"zh", "ja", "yue"}, strings.Split(l.code, "-")[0]) {
							dash = " – "
						}
						y, m, d := genDay(r, 1900, 2100)
						if l.month != nil {
							m = l.month.M
							d = min(d, lastDay(y, m))
						}
						e.text += dash + l.date(r, y, m, d)
						e.until = time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)
						c.Count("range")
					}
					dates = append(dates, e)
				}
			}
			for _, d := range dates {
				_, ok := wallIn(d.t, loc)
				if _, ok2 := wallIn(d.until, loc); !ok || !ok2 && !d.until.IsZero() {
					return
				}
			}
			text := l.prose(r, dates)
			c.desc = fmt.Sprintf("%s %q %s", l.code, text, showCfg(cfg))
			var rs []dps.SearchResult
			var err error
			entry := "SearchWithLanguage"
			if chance(r, 0.5) || countLetters(text) < 8 || !named { // numbers do not tell the language
				rs, err = c.P.SearchWithLanguage(cfg, l.code, text)
			} else {
				entry = "Search"
				cfg.Languages = []string{l.code}
				var got string
				got, rs, err = c.P.Search(cfg, text)
				if err == nil && got != l.code {
					c.Fail("language", "Search(%s) gives language %q", c.desc, got)
					return
				}
			}
			c.Eval(1)
			c.Seen(text)
			c.Count(entry + " " + l.code)
			c.Count(fmt.Sprintf("%d dates", len(dates)))
			if err != nil {
				c.Fail("error", "%s(%s): %v", entry, c.desc, err)
				return
			}
			var got, want []string
			for _, x := range rs {
				got = append(got, fmt.Sprintf("%s", x.Date.Time.Format("2006-01-02T15:04:05.999999999 -0700")))
			}
			for _, d := range dates {
				w, _ := wallIn(d.t, loc)
				want = append(want, w.Format("2006-01-02T15:04:05.999999999 -0700"))
				if !d.until.IsZero() {
					w, _ := wallIn(d.until, loc)
					want = append(want, w.Format("2006-01-02T15:04:05.999999999 -0700"))
				}
			}
			if !slices.Equal(got, want) {
				c.Fail("dates", "%s(%s) found %v, want %v\nresults: %v", entry, c.desc, got, want, rs)
			}
		},
	}
}

// genSearchRel gives a relative phrase, and the wall clock that it means.
func genSearchRel(r *rand.Rand, now time.Time) (string, time.Time) {
	w := time.Date(now.Year(), now.Month(), now.Day(), now.Hour(), now.Minute(), now.Second(), now.Nanosecond(), time.UTC)
	n := between(r, 1, 30)
	switch r.IntN(5) {
	case 0:
		return "yesterday", w.AddDate(0, 0, -1)
	case 1:
		return "tomorrow", w.AddDate(0, 0, 1)
	case 2:
		return fmt.Sprintf("%d %s ago", n, plural(n, "day")), w.AddDate(0, 0, -n)
	case 3:
		return fmt.Sprintf("in %d %s", n, plural(n, "week")), w.AddDate(0, 0, 7*n)
	}
	return fmt.Sprintf("%d %s ago", n, plural(n, "week")), w.AddDate(0, 0, -7*n)
}

// genSearchPhrase gives a relative phrase of the frozen table, and the wall clock that it means.
func genSearchPhrase(r *rand.Rand, code string, now time.Time) (string, time.Time) {
	e := pick(r, searchRels[code])
	s, num := e.T, e.S
	if strings.Contains(s, "{n}") {
		n := between(r, 1, 60)
		if e.Ns != nil {
			n = pick(r, e.Ns)
		}
		s = strings.Replace(s, "{n}", strconv.Itoa(n), 1)
		num *= n
	}
	return s, asWall(shift(now, e.K, num))
}

func asWall(t time.Time) time.Time {
	return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), time.UTC)
}

// zoneIsFixed tells if the offset never changes.
func zoneIsFixed(l *time.Location) bool {
	return l == time.UTC || l.String() == "XX"
}

func plural(n int, s string) string {
	if n == 1 {
		return s
	}
	return s + "s"
}

// fillerWords gives invented words that have no meaning in any language.
func fillerWords(r *rand.Rand, n int) string {
	w := make([]string, n)
	for i := range w {
		s := ""
		for range between(r, 1, 3) {
			s += pick(r, []string{"b", "k", "l", "n", "v", "r", "p", "gr", "br"}) + pick(r, []string{"a", "e", "o", "u"})
		}
		w[i] = s + pick(r, []string{"rvex", "lquop", "xund", "bborq", "ndrak"})
		if chance(r, 0.2) {
			w[i] = upperFirst(w[i])
		}
	}
	return strings.Join(w, " ")
}

// loosePiece gives something that a search may find, as a date or a part of one.
func (l *searchLang) loosePiece(r *rand.Rand, phrases bool) string {
	y, m, d := genDay(r, 1900, 2100)
	if l.month != nil {
		m = l.month.M
		d = min(d, lastDay(y, m))
	}
	switch r.IntN(9) {
	case 0:
		return fmt.Sprintf("%02d:%02d", r.IntN(24), r.IntN(60))
	case 1:
		return fmt.Sprint(y)
	case 2:
		return fmt.Sprintf("%04d-%02d-%02d", y, m, d)
	case 3:
		return fmt.Sprintf("%d/%d/%d", d, m, y)
	case 4:
		if l.code == "en" {
			return pick(r, []string{genRelText(r), genPartialText(r), genFull(r, 1900, 2100, 0.5).Text})
		}
		if phrases && searchRels[l.code] != nil && chance(r, 0.7) {
			s, _ := genSearchPhrase(r, l.code, time.Unix(0, 0).UTC())
			return strings.Trim(s, "'")
		}
		return fmt.Sprint(r.IntN(1000))
	case 5:
		if l.months != nil {
			return pick(r, []string{l.months[m] + " " + fmt.Sprint(y), fmt.Sprintf("%d %s", d, l.months[m]), l.months[m]})
		}
		return fmt.Sprintf("%d. %d.", d, m)
	case 6:
		if w := searchWeekdays[l.code]; w != nil {
			return pick(r, w)
		}
	}
	return l.date(r, y, m, d)
}

func init() {
	props["P22"] = &Prop{
		Rule:     "prose in 29 languages with real words, and with invented words in all languages that can be searched, with none to five pieces (complete and incomplete dates, times, numbers, relative phrases), punctuation, line breaks and repeated spaces; some as lists; the texts of the results must occur one after the other in the text (white space normalised) and give the same date when searched alone (excerpts without letters must be numbers of their date), texts without date words and digits give nothing, and Search must be SearchWithLanguage in one of the allowed languages; non-trivial: distinct text with a result",
		Quick:    12000,
		Thorough: 400000,
		Setup:    loadSearch,
		Run: func(c *Case) {
			r := c.R
			l := genSearchLang(c)
			cfg := &dps.Configuration{CurrentTime: genNow(r, genLoc(r))}
			// Of names of several words in lists and in different lines (which are sentences), a
			// part might be taken for something else.
			list, space := chance(r, 0.2), " "
			if chance(r, 0.3) {
				space = pick(r, []string{"  ", "\n", "\t"})
			}
			if l.month != nil && len(strings.Fields(l.month.T)) > 3 {
				list = false
				if space == "\n" {
					space = "  "
				}
			}
			var pieces []embedded
			if chance(r, 0.85) {
				for range between(r, 1, 5) {
					pieces = append(pieces, embedded{text: l.loosePiece(r, !list && space != "\n")})
				}
			}
			if (l.code == "ja" || l.code == "zh") && len(pieces) > 1 {
				pieces = pieces[:1] // words are only aligned approximately when several dates are shortened
			}
			text := l.prose(r, pieces)
			list = list && len(pieces) > 1
			if list {
				text = l.list(r, pieces)
				c.Count("list")
			}
			text = strings.ReplaceAll(text, " ", space)
			if len(pieces) == 0 {
				text = l.fill(r, between(r, 1, 12)) + pick(r, []string{"", ".", ". ", "!"})
			}
			switch r.IntN(4) {
			case 0:
				cfg.Languages = []string{l.code}
			case 1:
				cfg.Languages = []string{pick(r, searchLangs).code, l.code}
			case 2:
				if chance(r, 0.8) {
					cfg.Languages = []string{l.code, "en"}
				}
			}
			c.desc = fmt.Sprintf("%s %q %s", l.code, text, showCfg(cfg))
			rs, err := c.P.SearchWithLanguage(cfg, l.code, text)
			c.Eval(1)
			if err != nil {
				c.Fail("error", "SearchWithLanguage(%s): %v", c.desc, err)
				return
			}
			check := func(how string, rs []dps.SearchResult) {
				if len(rs) > 0 {
					c.Seen(text)
				}
				c.Count(fmt.Sprintf("%s %d results", how, min(len(rs), 4)))
				if msg := excerpts(text, rs); msg != "" {
					c.Fail("excerpt", "%s(%s): %s\nresults: %q", how, c.desc, msg, rs)
				}
				for _, x := range rs {
					if msg := unstated(x, list); msg != "" {
						c.Fail("not stated", "%s(%s): %s", how, c.desc, msg)
						continue
					}
					if len([]rune(x.Text)) < 5 || rxInNumber.MatchString(oneSpace(x.Text)) || countLetters(x.Text) == 0 || l.code == "ja" || l.code == "zh" || l.code == "th" {
						continue
					}
					one, err := c.P.SearchWithLanguage(cfg, l.code, x.Text)
					c.Eval(1)
					if len(one) == 0 && strings.Contains(text, "'"+x.Text) {
						continue // the excerpt lacks the apostrophe of its month, e.g. 'aukake
					}
					if err != nil || len(one) != 1 || !one[0].Date.Time.Equal(x.Date.Time) {
						c.Fail("alone", "%s(%s) gives %v for %q, which alone gives %v", how, c.desc, x.Date.Time, x.Text, one)
					}
				}
				if len(pieces) == 0 && len(rs) > 0 {
					c.Fail("invented", "%s(%s) finds dates in a text without any: %v", how, c.desc, rs)
				}
			}
			check("SearchWithLanguage", rs)
			if len(cfg.Languages) == 0 && c.I%8 > 0 {
				return
			}
			got, rs2, err := c.P.Search(cfg, text)
			c.Eval(1)
			if err != nil {
				return
			}
			if cfg.Languages != nil && !slices.Contains(cfg.Languages, got) {
				c.Fail("language", "Search(%s) gives language %q", c.desc, got)
			}
			if _, ok := localeIdx[got]; !ok {
				c.Fail("language", "Search(%s) gives language %q", c.desc, got)
				return
			}
			if got == l.code {
				check("Search", rs2)
			}
			want, err := c.P.SearchWithLanguage(cfg, got, text)
			c.Eval(1)
			if a, b := outSearch(got, rs2, nil), outSearch(got, want, err); a != b {
				c.Fail("differs", "Search(%s) gives %s, SearchWithLanguage in that language %s", c.desc, a, b)
			}
		},
	}
}
