From da8e56f7bc967c4d8cdf1880d1c831327b40624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 01/70] fix: process timezone patterns in a fixed order

The order used to follow Go's random map iteration, so strings like
"12 January 2015 10:00 GMT+0500" failed to parse in some processes.
---
 internal/timezone/timezones.go  | 26 ++++++++++++++++----------
 internal/timezone/tz-offsets.go | 20 ++++++++++++++------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/internal/timezone/timezones.go b/internal/timezone/timezones.go
index 3dd841a..7bedc6e 100644
--- a/internal/timezone/timezones.go
+++ b/internal/timezone/timezones.go
@@ -5,10 +5,16 @@ import "github.com/markusmobius/go-dateparser/internal/regexp"
 // Info is the data for parsing timezone from a string.
 type Info struct {
 	RegexPatterns       []string
-	AlternativePatterns map[*regexp.Regexp]string
+	AlternativePatterns []AlternativePattern
 	Timezones           map[string]int
 }
 
+// AlternativePattern is the rule to rewrite timezone name into its alternative form.
+type AlternativePattern struct {
+	Rx          *regexp.Regexp
+	Replacement string
+}
+
 // These timezone list are taken fromseveral sources:
 // - http://stackoverflow.com/q/1703546
 // - http://en.wikipedia.org/wiki/List_of_time_zone_abbreviations
@@ -19,20 +25,20 @@ var timezoneInfoList = []Info{
 		RegexPatterns: []string{
 			`(.)%s$`,
 		},
-		AlternativePatterns: map[*regexp.Regexp]string{
+		AlternativePatterns: []AlternativePattern{
 			// UTC+n, UTC-n, GMT+n, GMT-n:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):00`): `(?:UTC|GMT)\$1$2`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):00`), `(?:UTC|GMT)\$1$2`},
 			// UTC+n:mm, UTC-n:mm, GMT+n:mm, GMT-n:mm:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):(\d{2})`): `(?:UTC|GMT)\$1$2:$3`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):(\d{2})`), `(?:UTC|GMT)\$1$2:$3`},
 			// UTC+nn, UTC-nn, GMT+nn, GMT-nn:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):00`): `(?:UTC|GMT)\$1$2`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):00`), `(?:UTC|GMT)\$1$2`},
 			// UTC+nnmm, UTC-nnmm, GMT+nnmm, GMT-nnmm:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):(\d{2})`): `(?:UTC|GMT)\$1$2:?$3.*`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):(\d{2})`), `(?:UTC|GMT)\$1$2:?$3.*`},
 			// Others:
-			regexp.MustCompile(`UTC`):   "",
-			regexp.MustCompile(`:`):     "",
-			regexp.MustCompile(`:|UTC`): "",
-			regexp.MustCompile(`UTC`):   "GMT",
+			{regexp.MustCompile(`UTC`), ""},
+			{regexp.MustCompile(`:`), ""},
+			{regexp.MustCompile(`:|UTC`), ""},
+			{regexp.MustCompile(`UTC`), "GMT"},
 		},
 		Timezones: map[string]int{
 			`UTC-12:00`: -43200,
diff --git a/internal/timezone/tz-offsets.go b/internal/timezone/tz-offsets.go
index b53a382..3bc2b5f 100644
--- a/internal/timezone/tz-offsets.go
+++ b/internal/timezone/tz-offsets.go
@@ -25,9 +25,17 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 	searchPatterns := map[string]struct{}{}
 
 	for _, tzInfo := range timezoneInfoList {
+		// Always process the timezones in the same order, because the order
+		// decides which pattern is used when several of them are matching
+		tzNames := make([]string, 0, len(tzInfo.Timezones))
+		for tzName := range tzInfo.Timezones {
+			tzNames = append(tzNames, tzName)
+		}
+		sort.Strings(tzNames)
+
 		for _, pattern := range tzInfo.RegexPatterns {
 			// Main pattern
-			for tzName, offset := range tzInfo.Timezones {
+			for _, tzName := range tzNames {
 				searchPattern := regexp.QuoteMeta(tzName)
 				regexPattern := fmt.Sprintf(pattern, searchPattern)
 				if _, exist := regexPatterns[regexPattern]; exist {
@@ -38,15 +46,15 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 				offsets = append(offsets, OffsetData{
 					Name:   tzName,
 					Regex:  regexp.MustCompile(`(?i)` + regexPattern),
-					Offset: offset,
+					Offset: tzInfo.Timezones[tzName],
 				})
 			}
 
 			// Alternative patterns
-			for replacer, replacement := range tzInfo.AlternativePatterns {
-				for tzName, offset := range tzInfo.Timezones {
+			for _, alternative := range tzInfo.AlternativePatterns {
+				for _, tzName := range tzNames {
 					searchPattern := regexp.QuoteMeta(tzName)
-					searchPattern = replacer.ReplaceAllString(searchPattern, replacement)
+					searchPattern = alternative.Rx.ReplaceAllString(searchPattern, alternative.Replacement)
 					regexPattern := fmt.Sprintf(pattern, searchPattern)
 					if _, exist := regexPatterns[regexPattern]; exist {
 						continue
@@ -56,7 +64,7 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 					offsets = append(offsets, OffsetData{
 						Name:   tzName,
 						Regex:  regexp.MustCompile(`(?i)` + regexPattern),
-						Offset: offset,
+						Offset: tzInfo.Timezones[tzName],
 					})
 				}
 			}
-- 
2.43.0


From 2468b27b08509807e8e6a45f4223246ee265f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 02/70] fix: don't read the shared charsets of a Parser without
 its lock in Search

A concurrent Search with other languages could replace the charsets while
they were being used, which is a data race and could detect the wrong language.
---
 search.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/search.go b/search.go
index 84d0be9..a8eb08d 100644
--- a/search.go
+++ b/search.go
@@ -65,11 +65,11 @@ func (p *Parser) Search(cfg *Configuration, text string) (string, []SearchResult
 	}
 
 	// Generate charsets
-	p.initUniqueCharsets(languages)
+	uniqueCharsets := p.initUniqueCharsets(languages)
 
 	// Detect language of the text
 	iCfg := cfg.toInternalConfig()
-	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, p.uniqueCharsets)
+	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, uniqueCharsets)
 	if err != nil {
 		return "", nil, err
 	}
@@ -140,7 +140,7 @@ func (p *Parser) initSearchConfig(cfg *Configuration) (*Configuration, error) {
 	return cfg, nil
 }
 
-func (p *Parser) initUniqueCharsets(languages []string) {
+func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	// Lock parser
 	p.Lock()
 	defer p.Unlock()
@@ -164,6 +164,8 @@ func (p *Parser) initUniqueCharsets(languages []string) {
 	if mustGenerate {
 		p.uniqueCharsets = language.GetUniqueCharsets(languages)
 	}
+
+	return p.uniqueCharsets
 }
 
 func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
-- 
2.43.0


From f1ce64718231c002f0c17d752d2ae7a80abbdcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 03/70] fix: accept day, month and year as required parts,
 reject anything else

The validation was inverted: RequiredParts documents "day", "month" and
"year" as its values, but these are the ones that were refused.
---
 config.go                              | 1 +
 internal/parser/common/strict-check.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index cb8a2c6..eaf4608 100644
--- a/config.go
+++ b/config.go
@@ -194,6 +194,7 @@ func (c Configuration) validate() error {
 	for _, part := range c.RequiredParts {
 		switch strings.ToLower(part) {
 		case "day", "month", "year":
+		default:
 			return fmt.Errorf("invalid component in required parts: %s", part)
 		}
 	}
diff --git a/internal/parser/common/strict-check.go b/internal/parser/common/strict-check.go
index 271ec2b..8d08b76 100644
--- a/internal/parser/common/strict-check.go
+++ b/internal/parser/common/strict-check.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/strutil"
@@ -23,7 +24,7 @@ func CheckStrictParsing(cfg *setting.Configuration, missingParts strutil.Dict) e
 
 	// Check if there are any missing required parts
 	for _, requiredPart := range requiredParts {
-		if missingParts.Contain(requiredPart) {
+		if missingParts.Contain(strings.ToLower(requiredPart)) {
 			return fmt.Errorf("required part \"%s\" is missing", requiredPart)
 		}
 	}
-- 
2.43.0


From 8797b4fd909ca234fb6f66a96de248646ed2b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 04/70] fix: limit the count of translation permutations

A string with many ambiguous words (e.g. "mar" in Spanish) generated 2^n
permutations, which exhausts the memory or panics once the count overflows.
---
 internal/language/utils.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/language/utils.go b/internal/language/utils.go
index c496b97..a20a701 100644
--- a/internal/language/utils.go
+++ b/internal/language/utils.go
@@ -60,11 +60,19 @@ func isInDictionary(ld *data.LocaleData, word string) bool {
 	return exist
 }
 
+// maxPermutation is the limit for the count of permutations that generated for a single string.
+const maxPermutation = 64
+
 func createPermutation[T comparable](input [][]T) [][]T {
-	// Calculate count of possible permutation
+	// Calculate count of possible permutation. It grows exponentially with the count of
+	// ambiguous entries, so once limit is reached only use the first value of the entries.
 	nPermutation := 1
-	for _, entries := range input {
-		nPermutation *= len(entries)
+	input = slices.Clone(input)
+	for i, entries := range input {
+		if nPermutation*len(entries) > maxPermutation {
+			input[i] = entries[:1]
+		}
+		nPermutation *= len(input[i])
 	}
 
 	// Create result container
-- 
2.43.0


From 67b0bcb9cf512d17e4286363c321e604f224370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 05/70] fix: don't read beyond the original tokens while
 translating text for search
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

SearchWithLanguage panicked with index out of range in languages without word
spacing, e.g. zh-Hans "下个月", because the last token has no next token and
the simplified text might have more tokens than the original.
---
 internal/language/translate-search.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 3812bba..3af500c 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -31,6 +31,15 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 		lastTokenIndex := len(simplifiedTokens) - 1
 
 		for i, word := range simplifiedTokens {
+			// The simplified tokens might be longer than the original
+			var originalToken, nextOriginalToken string
+			if i < len(originalTokens) {
+				originalToken = originalTokens[i]
+			}
+			if i+1 < len(originalTokens) {
+				nextOriginalToken = originalTokens[i+1]
+			}
+
 			var nextWord string
 			if i < lastTokenIndex {
 				nextWord = simplifiedTokens[i+1]
@@ -46,10 +55,10 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
-				originalChunk = append(originalChunk, originalTokens[i])
+				originalChunk = append(originalChunk, originalToken)
 			} else if isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
 				translations, _ := translateWord(ld, currentAndNextJoined)
-				joinedOriginalToken := joinChunk(ld, originalTokens[i], originalTokens[i+1])
+				joinedOriginalToken := joinChunk(ld, originalToken, nextOriginalToken)
 
 				skipNextToken = true
 				translatedChunk = append(translatedChunk, translations)
@@ -57,7 +66,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 			} else if isInDictionary(ld, word) && !dashes.Contain(word) {
 				translations, _ := translateWord(ld, word)
 				translatedChunk = append(translatedChunk, translations)
-				originalChunk = append(originalChunk, originalTokens[i])
+				originalChunk = append(originalChunk, originalToken)
 			} else if isInDictionary(ld, cleanedWord) && !dashes.Contain(word) {
 				punct := word[len(cleanedWord):]
 				translations, _ := translateWord(ld, cleanedWord)
@@ -66,13 +75,13 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 				}
 
 				translatedChunk = append(translatedChunk, translations)
-				originalChunk = append(originalChunk, originalTokens[i])
+				originalChunk = append(originalChunk, originalToken)
 			} else if tokenWithDigitsIsOk(ld, word) {
 				translatedChunk = append(translatedChunk, []string{word})
-				originalChunk = append(originalChunk, originalTokens[i])
-			} else if len(translatedChunk) > 0 && timezone.WordIsTz(originalTokens[i]) {
+				originalChunk = append(originalChunk, originalToken)
+			} else if len(translatedChunk) > 0 && timezone.WordIsTz(originalToken) {
 				translatedChunk = append(translatedChunk, []string{word})
-				originalChunk = append(originalChunk, originalTokens[i])
+				originalChunk = append(originalChunk, originalToken)
 			} else if len(translatedChunk) > 0 {
 				translatedChunkPermutations := createPermutation(translatedChunk)
 				for _, permutation := range translatedChunkPermutations {
-- 
2.43.0


From bedffa2864abfbd51e23fb1c0ecf6370c028d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 06/70] fix: accept day 31 in Jalali dates

The first six months of Jalali year have 31 days, but day 31 was refused.
---
 internal/parser/jalali/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 45e9bf7..d25cd1e 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -121,7 +121,7 @@ func getDatePartValue(p *absolute.Parser, component, token, directive string) (i
 
 	if component == "day" && tokenLength <= 2 && tokenIsDigit {
 		day, _ := strconv.Atoi(token)
-		if day >= 1 && day <= 30 {
+		if day >= 1 && day <= 31 {
 			return day, true
 		}
 	}
-- 
2.43.0


From b1625008fe6cf95dcc37279e2fac3ca869b72faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 07/70] fix: use the real month length and range of Umm al-Qura
 calendar in ParseHijri

ParseHijri panicked for years outside 1356-1500, and replaced a valid 30th day
in even months (or kept an invalid one in odd months) because it assumed that
month lengths alternate.
---
 internal/parser/hijri/parser.go | 36 +++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index e2e0e6b..ebf79e9 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -1,6 +1,7 @@
 package hijri
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 	"time"
@@ -15,6 +16,12 @@ import (
 	"github.com/markusmobius/go-dateparser/internal/timezone"
 )
 
+// The range of years that covered by Umm al-Qura calendar.
+const (
+	minYear = 1356
+	maxYear = 1500
+)
+
 var timeConventions = map[string]string{
 	"am": "صباحا",
 	"pm": "مساء",
@@ -130,6 +137,11 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
+	// Make sure the date is covered by Umm al-Qura calendar
+	if Y < minYear || Y > maxYear || M < 1 || M > 12 || D < 1 {
+		return time.Time{}, fmt.Errorf("date is outside Umm al-Qura scope: %d-%d-%d", Y, M, D)
+	}
+
 	// Fix leap year
 	if D == 30 && M == 12 && !isHijriLeapYear(Y) {
 		Y = getCorrectHijriLeapYear(p.Config, Y)
@@ -157,10 +169,7 @@ func isDigit(s string) bool {
 }
 
 func isHijriLeapYear(year int) bool {
-	hd := hijri.UmmAlQuraDate{Year: int64(year), Month: 12, Day: 30}
-	gd := hd.ToGregorian()
-	rhd, _ := hijri.CreateUmmAlQuraDate(gd)
-	return rhd.Day == 30
+	return getLastDayOfHijriMonth(year, 12) == 30
 }
 
 func getHijriLeapYear(year int, toFuture bool) int {
@@ -169,9 +178,13 @@ func getHijriLeapYear(year int, toFuture bool) int {
 		step = -1
 	}
 
+	originalYear := year
+
 	for {
 		year += step
-		if isHijriLeapYear(year) {
+		if year < minYear || year > maxYear {
+			return originalYear
+		} else if isHijriLeapYear(year) {
 			return year
 		}
 	}
@@ -201,14 +214,15 @@ func getCorrectHijriLeapYear(cfg *setting.Configuration, currentYear int) int {
 }
 
 func getLastDayOfHijriMonth(year, month int) int {
-	switch {
-	case month == 12 && isHijriLeapYear(year):
-		return 30
-	case month%2 == 0:
-		return 29
-	default:
+	// Length of the months in Umm al-Qura doesn't follow any pattern, so
+	// here we check whether the 30th day still belong to the same month.
+	hd := hijri.UmmAlQuraDate{Year: int64(year), Month: int64(month), Day: 30}
+	rhd, _ := hijri.CreateUmmAlQuraDate(hd.ToGregorian())
+	if rhd.Day == 30 {
 		return 30
 	}
+
+	return 29
 }
 
 func handleTwoDigitYear(year int) int {
-- 
2.43.0


From 687b7c20e122e0a2c9b45bba332dcb53a976b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 08/70] fix: look up offset of the default timezone for the
 parsed wall clock

The wall clock was first read as if it's in the location of current time, so
near DST transitions the wrong offset was used, e.g. "2021-03-14 05:00" in
America/New_York was returned with -05:00 instead of -04:00.
---
 parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 0dc6ace..2a48f33 100644
--- a/parser.go
+++ b/parser.go
@@ -323,7 +323,9 @@ func (p *Parser) applyTimezone(iCfg *setting.Configuration, dt date.Date, tz tim
 	if !tz.IsZero() {
 		tzName, tzOffset = tz.Name, tz.Offset
 	} else {
-		tzName, tzOffset = dt.Time.In(iCfg.DefaultTimezone).Zone()
+		tzName, tzOffset = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
+			dt.Time.Hour(), dt.Time.Minute(), dt.Time.Second(), dt.Time.Nanosecond(),
+			iCfg.DefaultTimezone).Zone()
 	}
 
 	dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
-- 
2.43.0


From 14c7ac63a43f837f2b2127a1251d5b325200b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 09/70] fix: apply the default timezone in ParseJalali and
 ParseHijri

DefaultTimezone is documented as the timezone of strings without any, but it
was ignored by these two functions.
---
 internal/parser/hijri/parser.go  | 6 +++++-
 internal/parser/jalali/parser.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index ebf79e9..2016472 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -60,11 +60,15 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		return date.Date{}, err
 	}
 
-	// Apply the popped timezone
+	// Apply the popped timezone or the default one
 	if !dt.IsZero() && !tz.IsZero() {
 		dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
 			dt.Time.Hour(), dt.Time.Minute(), dt.Time.Second(), dt.Time.Nanosecond(),
 			time.FixedZone(tz.Name, tz.Offset))
+	} else if !dt.IsZero() && cfg != nil && cfg.DefaultTimezone != nil {
+		dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
+			dt.Time.Hour(), dt.Time.Minute(), dt.Time.Second(), dt.Time.Nanosecond(),
+			cfg.DefaultTimezone)
 	}
 
 	return dt, nil
diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index d25cd1e..239464f 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -49,11 +49,15 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		return date.Date{}, err
 	}
 
-	// Apply the popped timezone
+	// Apply the popped timezone or the default one
 	if !dt.IsZero() && !tz.IsZero() {
 		dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
 			dt.Time.Hour(), dt.Time.Minute(), dt.Time.Second(), dt.Time.Nanosecond(),
 			time.FixedZone(tz.Name, tz.Offset))
+	} else if !dt.IsZero() && cfg != nil && cfg.DefaultTimezone != nil {
+		dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
+			dt.Time.Hour(), dt.Time.Minute(), dt.Time.Second(), dt.Time.Nanosecond(),
+			cfg.DefaultTimezone)
 	}
 
 	return dt, nil
-- 
2.43.0


From 81d72fce7a432f6d54f7ed4e11be94126c6c78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 10/70] fix: compare time-only strings with current time in the
 right timezone

With PreferredDateSource Past or Future, a time-only string could be returned
on the wrong side of the current time when the string or the configuration has
a timezone and current time is not in UTC or is more than a day away.
---
 internal/parser/absolute/parser.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 71a5708..945ef22 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -529,18 +529,25 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
-		tzOffset := tz.Offset
-		if tz.IsZero() && p.Config.DefaultTimezone != nil {
-			_, tzOffset = t.In(p.Config.DefaultTimezone).Zone()
+		// The wall clock is in the popped timezone, the default one, or in the
+		// location of current time, in that order.
+		loc := t.Location()
+		if !tz.IsZero() {
+			loc = time.FixedZone(tz.Name, tz.Offset)
+		} else if p.Config != nil && p.Config.DefaultTimezone != nil {
+			loc = p.Config.DefaultTimezone
 		}
 
-		tmp := t.Add(-time.Duration(tzOffset) * time.Second)
+		inLoc := func(t time.Time) time.Time {
+			return time.Date(t.Year(), t.Month(), t.Day(),
+				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
+		}
 
-		if dateSource == setting.Past && p.Now.Before(tmp) {
+		for dateSource == setting.Past && p.Now.Before(inLoc(t)) {
 			t = t.AddDate(0, 0, -1)
 		}
 
-		if dateSource == setting.Future && p.Now.After(tmp) {
+		for dateSource == setting.Future && p.Now.After(inLoc(t)) {
 			t = t.AddDate(0, 0, 1)
 		}
 	}
-- 
2.43.0


From 52094dd4d73535361e539bb9dc1b179982b45b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 11/70] fix: fill the missing year of custom formats before the
 day

Last day of February was taken from year 0, which is a leap year, so "Feb" with
format "Jan" and PreferredDayOfMonth Last was returned as March 1.
---
 internal/parser/formatted/parser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index d436d07..f6b81e3 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -43,6 +43,13 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 			continue
 		}
 
+		// Check if format has year. Must be done first because it decides the length of February.
+		if t.Year() == 0 {
+			t = time.Date(currentTime.Year(), t.Month(), t.Day(),
+				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+				t.Location())
+		}
+
 		// Check if format has day or month
 		checkerText := checker.Format(format)
 		formatHasDay := strings.Contains(checkerText, "4")
@@ -60,13 +67,6 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 			t = common.ApplyDayFromConfig(cfg, t)
 		}
 
-		// Check if format has year
-		if t.Year() == 0 {
-			t = time.Date(currentTime.Year(), t.Month(), t.Day(),
-				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
-				t.Location())
-		}
-
 		return date.Date{Time: t, Period: period}
 	}
 
-- 
2.43.0


From 2082b92bcff21413e4884facaf7bb7535a926cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 12/70] fix: respect DateOrder in Search and SearchWithLanguage

The date order of the configuration was lost before the found entries are
parsed, so "03/04/2020" was always read with the order of English.
---
 config.go | 6 ++++++
 search.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/config.go b/config.go
index eaf4608..aca595a 100644
--- a/config.go
+++ b/config.go
@@ -234,7 +234,13 @@ func (c Configuration) toInternalConfig() *setting.Configuration {
 }
 
 func configFromInternal(c *setting.Configuration) *Configuration {
+	var dateOrder DateOrder
+	if c.DateOrder != "" {
+		dateOrder = func(string) string { return c.DateOrder }
+	}
+
 	return &Configuration{
+		DateOrder:            dateOrder,
 		CurrentTime:          c.CurrentTime,
 		DefaultTimezone:      c.DefaultTimezone,
 		PreferredDayOfMonth:  PreferredDayOfMonth(c.PreferredDayOfMonth),
diff --git a/search.go b/search.go
index a8eb08d..1c9782d 100644
--- a/search.go
+++ b/search.go
@@ -87,6 +87,9 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 		return nil, err
 	}
 	iCfg := cfg.toInternalConfig()
+	if cfg.DateOrder != nil {
+		iCfg.DateOrder = cfg.DateOrder(lang)
+	}
 
 	// Find the locale data
 	ld, exist := data.GetLocaleData(lang)
-- 
2.43.0


From 026dcc438388e21cf3e329accf3c3cfc8573c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 13/70] fix: don't replace an impossible stated day with
 another date

---
 internal/parser/absolute/root.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index 8853c0f..eee298d 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -1,6 +1,7 @@
 package absolute
 
 import (
+	"fmt"
 	"strings"
 	"time"
 
@@ -53,14 +54,19 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year
-	if D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
+	// Fix leap year, unless the year is stated
+	_, tokenYearExist := p.ComponentTokens["year"]
+	if D == 29 && M == 2 && !dateutil.IsLeapYear(Y) && !tokenYearExist {
 		Y = p.getCorrectLeapYear(Y)
 	}
 
-	// Fix max day
+	// Fix max day, unless the day is stated
+	_, tokenDayExist := p.ComponentTokens["day"]
 	lastDayOfMonth := dateutil.GetLastDayOfMonth(Y, M)
 	if D > lastDayOfMonth {
+		if tokenDayExist {
+			return time.Time{}, fmt.Errorf("day is out of range for month")
+		}
 		D = lastDayOfMonth
 	}
 
-- 
2.43.0


From 2f5aab537398b8182d05a5728c019289b2446ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 14/70] fix: don't replace stated year or impossible day in
 ParseJalali and ParseHijri

---
 internal/parser/hijri/parser.go  |  5 +++--
 internal/parser/jalali/parser.go | 12 +++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 2016472..2df079f 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -146,8 +146,9 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 		return time.Time{}, fmt.Errorf("date is outside Umm al-Qura scope: %d-%d-%d", Y, M, D)
 	}
 
-	// Fix leap year
-	if D == 30 && M == 12 && !isHijriLeapYear(Y) {
+	// Fix leap year, unless the year is stated
+	_, tokenYearExist := p.ComponentTokens["year"]
+	if D == 30 && M == 12 && !isHijriLeapYear(Y) && !tokenYearExist {
 		Y = getCorrectHijriLeapYear(p.Config, Y)
 	}
 
diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 239464f..738eff2 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -1,6 +1,7 @@
 package jalali
 
 import (
+	"fmt"
 	"strconv"
 	"time"
 	"unicode"
@@ -137,19 +138,24 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year
+	// Fix leap year, unless the year is stated
+	_, tokenYearExist := p.ComponentTokens["year"]
 	isLeapYear, err := jalaali.IsLeapYear(Y)
 	if err != nil {
 		return time.Time{}, err
 	}
 
-	if D == 30 && M == 12 && !isLeapYear {
+	if D == 30 && M == 12 && !isLeapYear && !tokenYearExist {
 		Y = getCorrectLeapYear(p.Config, Y)
 	}
 
-	// Fix max day
+	// Fix max day, unless the day is stated
+	_, tokenDayExist := p.ComponentTokens["day"]
 	lastDayOfMonth, err := jalaali.MonthLength(Y, M)
 	if err == nil && D > lastDayOfMonth {
+		if tokenDayExist {
+			return time.Time{}, fmt.Errorf("day is out of range for month")
+		}
 		D = lastDayOfMonth
 	}
 
-- 
2.43.0


From 28ab58b9bd7620de66cb6c7ed7c06fd614d1b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 15/70] fix: parse found texts with the language they were
 translated to

---
 search.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/search.go b/search.go
index 1c9782d..e3f29e0 100644
--- a/search.go
+++ b/search.go
@@ -190,7 +190,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 			continue
 		}
 
-		parsedEntry, isRelative := p.parseEntry(iCfg, entry, translation[i], parsedList, needRelativeBase)
+		parsedEntry, isRelative := p.parseEntry(iCfg, languages, entry, translation[i], parsedList, needRelativeBase)
 		if !parsedEntry.IsZero() {
 			parsedList = append(parsedList, parsedSearch{parsedEntry, isRelative})
 			subStrings = append(subStrings, strutil.TrimChars(original[i], ` .,:()[]-'`))
@@ -214,7 +214,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 						continue
 					}
 
-					parsedJEntry, jIsRelative := p.parseEntry(iCfg, jEntry,
+					parsedJEntry, jIsRelative := p.parseEntry(iCfg, languages, jEntry,
 						split.EntryParts[j], currentParseResult, needRelativeBase)
 
 					jSubString := strutil.TrimChars(split.OriginalParts[j], ` .,:()[]-`)
@@ -240,13 +240,14 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 	return parsedList, subStrings
 }
 
-func (p *Parser) parseEntry(iCfg *setting.Configuration, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
+func (p *Parser) parseEntry(iCfg *setting.Configuration, languages []string, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
 	entry = strings.ReplaceAll(entry, "am", "")
 
 	// Parse entry
 	cfg := configFromInternal(iCfg)
+	cfg.Languages = languages
 	parsedEntry, _ := p.Parse(cfg, entry)
 
 	// If needed, generate relative base and parse the entry
-- 
2.43.0


From 3664e5e8f3ad67b7649bd5d14b89782ddcca2884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 16/70] fix: use default date order for locales without one

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index 2a48f33..9792d4e 100644
--- a/parser.go
+++ b/parser.go
@@ -122,6 +122,10 @@ func (p *Parser) Parse(cfg *Configuration, str string, formats ...string) (date.
 	for _, locale := range locales {
 		// Create date order for this locale
 		dateOrder := locale.DateOrder
+		if dateOrder == "" {
+			dateOrder = "MDY"
+		}
+
 		if cfg.DateOrder != nil {
 			do := cfg.DateOrder(locale.Name)
 			if do, valid := validateDateOrder(do); valid {
-- 
2.43.0


From 270908ef52d78fee410eb7e5b6366f6c817cdf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 17/70] fix: accept date order of every locale in no spaces
 parser

---
 internal/parser/nospace/constants.go | 1 +
 internal/parser/nospace/parser.go    | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/parser/nospace/constants.go b/internal/parser/nospace/constants.go
index 30d6aac..80b6d22 100644
--- a/internal/parser/nospace/constants.go
+++ b/internal/parser/nospace/constants.go
@@ -15,6 +15,7 @@ import (
 
 var (
 	rxCompatible = regexp.MustCompile(`\D+`)
+	rxNonOrder   = regexp.MustCompile(`[^dmy]`)
 	rxEightDigit = regexp.MustCompile(`^\d{8}$`)
 
 	formatMapping = map[string]string{
diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index ac023d2..8c52bb3 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -30,7 +30,8 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 	// Fetch date order
 	var order string
 	if cfg != nil && cfg.DateOrder != "" {
-		order = strings.ToLower(cfg.DateOrder)
+		// Order of some locales has additional chars, e.g. `DMY.`
+		order = rxNonOrder.ReplaceAllString(strings.ToLower(cfg.DateOrder), "")
 	} else {
 		order = strings.ToLower("MDY")
 		if rxEightDigit.MatchString(str) {
-- 
2.43.0


From 2b7fba9dddb7fba9ddfed13c9e9cc8768bbdfc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 18/70] fix: don't share stateful transformers between parsers

---
 internal/strutil/strutil.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 4a95223..1d9a574 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -13,8 +13,8 @@ import (
 )
 
 var (
-	nfkcTransformer    = transform.Chain(norm.NFKD, norm.NFKC)
-	unicodeTransformer = transform.Chain(norm.NFKD, runes.Remove(runes.In(unicode.Mn)), norm.NFKC)
+	// These transformers are shared, so they must be stateless (i.e. not a chain).
+	markTransformer = runes.Remove(runes.In(unicode.Mn))
 
 	aposthropeTransformer = runes.Map(func(r rune) rune {
 		switch r {
@@ -58,11 +58,11 @@ func SanitizeSpaces(s string) string {
 // NormalizeUnicode removes Nonspacing Mark (Mn) characters then
 // use NFKC as the normal forms.
 func NormalizeUnicode(str string) string {
-	normalized, _, err := transform.String(unicodeTransformer, str)
+	normalized, _, err := transform.String(markTransformer, norm.NFKD.String(str))
 	if err != nil {
 		return str
 	}
-	return normalized
+	return norm.NFKC.String(normalized)
 }
 
 // NormalizeAposthrope replace apostrope lookalike chars into the ordinary aposthrope.
@@ -74,11 +74,7 @@ func NormalizeAposthrope(s string) string {
 // NormalizeCharset is used to normalize charset in a string. Used before
 // detecting language of a string.
 func NormalizeCharset(str string) string {
-	normalized, _, err := transform.String(nfkcTransformer, str)
-	if err == nil {
-		str = normalized
-	}
-
+	str = norm.NFKC.String(norm.NFKD.String(str))
 	str = NormalizeAposthrope(str)
 	str = strings.ReplaceAll(str, ".", "")
 	str = strings.ToLower(str)
-- 
2.43.0


From 6d6888f65e540ea6e3b05dad96cbc475384af903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 19/70] fix: don't shift the stated time by a gap in the zone
 of current time

---
 internal/parser/absolute/parser.go | 38 +++++++++++++++++-------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 945ef22..4bf05cd 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -287,7 +287,13 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 	}
 
 	// Fetch datetime parameters
+	// If there is a timezone it will be applied later to the wall clock, which
+	// might not exist in the location of current time, so use UTC meanwhile.
 	dtLocation := p.Now.Location()
+	if !tz.IsZero() || (p.Config != nil && p.Config.DefaultTimezone != nil) {
+		dtLocation = time.UTC
+	}
+
 	dtParams := p.FnGetDateTimeParams(p)
 	if !p.ParsedTime.IsZero() {
 		dtParams["hour"] = p.ParsedTime.Hour()
@@ -458,6 +464,20 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 		dateSource = p.Config.PreferredDateSource
 	}
 
+	// The wall clock is in the popped timezone, the default one, or in the
+	// location of current time, in that order.
+	loc := t.Location()
+	if !tz.IsZero() {
+		loc = time.FixedZone(tz.Name, tz.Offset)
+	} else if p.Config != nil && p.Config.DefaultTimezone != nil {
+		loc = p.Config.DefaultTimezone
+	}
+
+	inLoc := func(t time.Time) time.Time {
+		return time.Date(t.Year(), t.Month(), t.Day(),
+			t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
+	}
+
 	if tokenWeekdayExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist {
 		dayIndex := int(t.Weekday())
 		day := strings.ToLower(tokenWeekday.Text[:3])
@@ -497,7 +517,7 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	if monthExist && !yearExist {
 		tDay, tMonth, tYear := t.Day(), t.Month(), t.Year()
 
-		if p.Now.Before(t) {
+		if p.Now.Before(inLoc(t)) {
 			if dateSource == setting.Past {
 				tYear--
 			}
@@ -517,7 +537,7 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenYearExist && len(tokenYear.Text) == 2 {
-		if p.Now.Before(t) {
+		if p.Now.Before(inLoc(t)) {
 			if dateSource == setting.Past {
 				t = t.AddDate(-100, 0, 0)
 			}
@@ -529,20 +549,6 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
-		// The wall clock is in the popped timezone, the default one, or in the
-		// location of current time, in that order.
-		loc := t.Location()
-		if !tz.IsZero() {
-			loc = time.FixedZone(tz.Name, tz.Offset)
-		} else if p.Config != nil && p.Config.DefaultTimezone != nil {
-			loc = p.Config.DefaultTimezone
-		}
-
-		inLoc := func(t time.Time) time.Time {
-			return time.Date(t.Year(), t.Month(), t.Day(),
-				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
-		}
-
 		for dateSource == setting.Past && p.Now.Before(inLoc(t)) {
 			t = t.AddDate(0, 0, -1)
 		}
-- 
2.43.0


From e465cc5e0f5229c7044d128102bfd8e599184d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 20/70] fix: use known words of the parent language in regional
 locales

Generated code leaves out the known words of a regional locale when they are
the same as in its parent, but merge never put them back, so almost all
regional locales (en-IN, de-AT, es-MX) failed to split anything but numbers.
---
 internal/data/00-locale-data.go | 5 +++++
 scripts/codegen/05-templates.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/internal/data/00-locale-data.go b/internal/data/00-locale-data.go
index 873ed96..7ef0135 100755
--- a/internal/data/00-locale-data.go
+++ b/internal/data/00-locale-data.go
@@ -45,6 +45,11 @@ func merge(parent *LocaleData, child LocaleData) LocaleData {
 		child.SentenceSplitterGroup = parent.SentenceSplitterGroup
 	}
 
+	// Known words only specified in child if it's different than its parent
+	if len(child.KnownWords) == 0 {
+		child.KnownWords = parent.KnownWords
+	}
+
 	// Prepare maps
 	if len(child.Translations) == 0 {
 		child.Translations = map[string][]string{}
diff --git a/scripts/codegen/05-templates.go b/scripts/codegen/05-templates.go
index 0a33237..47266fb 100644
--- a/scripts/codegen/05-templates.go
+++ b/scripts/codegen/05-templates.go
@@ -233,6 +233,11 @@ func merge(parent *LocaleData, child LocaleData) LocaleData {
 		child.SentenceSplitterGroup = parent.SentenceSplitterGroup
 	}
 
+	// Known words only specified in child if it's different than its parent
+	if len(child.KnownWords) == 0 {
+		child.KnownWords = parent.KnownWords
+	}
+
 	// Prepare maps
 	if len(child.Translations) == 0 {
 		child.Translations = map[string][]string{}
-- 
2.43.0


From 2484b413f76351c2a3843c3fc76bbd8acca137e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 21/70] fix: reject months out of range instead of overflowing
 into other years

---
 internal/parser/absolute/root.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index eee298d..31a7cca 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -54,6 +54,11 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
+	// The month might come from a leftover number that doesn't fit the date order
+	if M < 1 || M > 12 {
+		return time.Time{}, fmt.Errorf("month is out of range")
+	}
+
 	// Fix leap year, unless the year is stated
 	_, tokenYearExist := p.ComponentTokens["year"]
 	if D == 29 && M == 2 && !dateutil.IsLeapYear(Y) && !tokenYearExist {
-- 
2.43.0


From b75e59adb7d50e0909f1fe364b441dde9fe1a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 22/70] fix: keep the direction of future phrases in decades

---
 internal/language/00-constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index 468051d..43f3245 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -50,7 +50,7 @@ var (
 
 	dashes             = strutil.NewDict("-", "——", "—", "～")
 	alwaysKeptTokens   = strutil.NewDict("+", ":", ".", " ", "-", "/")
-	freshnessWords     = strutil.NewDict("day", "week", "month", "year", "hour", "minute", "second")
+	freshnessWords     = strutil.NewDict("decade", "day", "week", "month", "year", "hour", "minute", "second")
 	langWithDigitAbbrs = strutil.NewDict("fi", "cs", "hu", "de", "da")
 	commonCharset      = rangetable.New([]rune(`0123456789()\-/.,:' `)...)
 )
-- 
2.43.0


From fb26858f5a733d7fe4d855800f58d03bd8b91a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 23/70] fix: don't split the character before a timezone in
 PopTzOffset

---
 internal/timezone/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/timezone/parser.go b/internal/timezone/parser.go
index 7893109..8ce9cd0 100644
--- a/internal/timezone/parser.go
+++ b/internal/timezone/parser.go
@@ -1,5 +1,7 @@
 package timezone
 
+import "unicode/utf8"
+
 // PopTzOffset extracts timezone data from str then return the
 // str with the timezone code removed.
 func PopTzOffset(str string) (string, OffsetData) {
@@ -10,7 +12,9 @@ func PopTzOffset(str string) (string, OffsetData) {
 				continue
 			}
 
-			str = str[:idxs[0]+1] + str[idxs[1]:]
+			// Keep the character before the timezone, which might have several bytes
+			_, size := utf8.DecodeRuneInString(str[idxs[0]:])
+			str = str[:idxs[0]+size] + str[idxs[1]:]
 			return str, offsetData
 		}
 	}
-- 
2.43.0


From 7e92b6c16711641e49acfb84931d8d7151fb6687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 24/70] fix: don't move a month without day from February 29 to
 another year

---
 internal/parser/absolute/parser.go | 6 +++++-
 internal/parser/absolute/root.go   | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 4bf05cd..7041423 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -528,7 +528,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 		}
 
 		if tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
-			tYear = p.getCorrectLeapYear(tYear)
+			if tokenDayExist {
+				tYear = p.getCorrectLeapYear(tYear)
+			} else {
+				tDay = 28
+			}
 		}
 
 		t = time.Date(tYear, tMonth, tDay,
diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index 31a7cca..a844477 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -59,14 +59,14 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 		return time.Time{}, fmt.Errorf("month is out of range")
 	}
 
-	// Fix leap year, unless the year is stated
+	// Fix leap year of a stated day, unless the year is stated as well
+	_, tokenDayExist := p.ComponentTokens["day"]
 	_, tokenYearExist := p.ComponentTokens["year"]
-	if D == 29 && M == 2 && !dateutil.IsLeapYear(Y) && !tokenYearExist {
+	if D == 29 && M == 2 && !dateutil.IsLeapYear(Y) && tokenDayExist && !tokenYearExist {
 		Y = p.getCorrectLeapYear(Y)
 	}
 
 	// Fix max day, unless the day is stated
-	_, tokenDayExist := p.ComponentTokens["day"]
 	lastDayOfMonth := dateutil.GetLastDayOfMonth(Y, M)
 	if D > lastDayOfMonth {
 		if tokenDayExist {
-- 
2.43.0


From cf8a583ab3f74e5fd2f8363877051c0f38a0203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:09 +0000
Subject: [PATCH 25/70] fix: limit the day of a year and time to the preferred
 month

---
 internal/parser/absolute/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 7041423..0dd454d 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -593,7 +593,15 @@ func (p *Parser) correctForMonth(t time.Time) time.Time {
 		return t
 	}
 
-	return common.ApplyMonthFromConfig(p.Config, t, p.Now.Month())
+	t = common.ApplyMonthFromConfig(p.Config, t, p.Now.Month())
+
+	// The missing day might have been limited to the length of another month
+	if tokenYearExist && !tokenDayExist {
+		day := min(p.Now.Day(), dateutil.GetLastDayOfMonth(t.Year(), int(t.Month())))
+		t = t.AddDate(0, 0, day-t.Day())
+	}
+
+	return t
 }
 
 func (p *Parser) getPeriod() date.Period {
-- 
2.43.0


From 9442810f7076d1112a212a947f2391ec99d7f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 26/70] fix: keep the moved date of a time without date across
 month ends

---
 internal/parser/absolute/parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 0dd454d..0f7cca5 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -584,12 +584,11 @@ func (p *Parser) correctForMonth(t time.Time) time.Time {
 		return t
 	}
 
-	// If only a weekday is provided (without year, month, or day), no adjustment is
-	// needed as well, because it's been handled previously by `correctForTimeFrame`
+	// If only a weekday or time is provided (without year, month, or day), no adjustment
+	// is needed as well, because it's been handled previously by `correctForTimeFrame`
 	_, tokenDayExist := p.ComponentTokens["day"]
 	_, tokenYearExist := p.ComponentTokens["year"]
-	_, tokenWeekdayExist := p.ComponentTokens["weekday"]
-	if tokenWeekdayExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist {
+	if !tokenYearExist && !tokenMonthExist && !tokenDayExist {
 		return t
 	}
 
-- 
2.43.0


From 5b6f6f717dcae0d35f61c3dcb03ffeba344d0106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 27/70] fix: use the length of February of the moved year

---
 internal/parser/absolute/parser.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 0f7cca5..5e58f06 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -527,12 +527,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 			}
 		}
 
-		if tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
-			if tokenDayExist {
-				tYear = p.getCorrectLeapYear(tYear)
-			} else {
-				tDay = 28
-			}
+		if tDay >= 28 && tMonth == 2 && !tokenDayExist {
+			// The day was limited to the length of February in the current year
+			tDay = min(max(tDay, p.Now.Day()), dateutil.GetLastDayOfMonth(tYear, 2))
+		} else if tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
+			tYear = p.getCorrectLeapYear(tYear)
 		}
 
 		t = time.Date(tYear, tMonth, tDay,
-- 
2.43.0


From fd720248e339c55d4960b63c7b6d17e216d8818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 28/70] fix: recognize the stated parts of digits without
 separators

---
 internal/parser/nospace/constants.go |  1 +
 internal/parser/nospace/parser.go    | 14 +++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/parser/nospace/constants.go b/internal/parser/nospace/constants.go
index 80b6d22..eaab82a 100644
--- a/internal/parser/nospace/constants.go
+++ b/internal/parser/nospace/constants.go
@@ -16,6 +16,7 @@ import (
 var (
 	rxCompatible = regexp.MustCompile(`\D+`)
 	rxNonOrder   = regexp.MustCompile(`[^dmy]`)
+	rxFullDate   = regexp.MustCompile(`^\s*\d{6}`)
 	rxEightDigit = regexp.MustCompile(`^\d{8}$`)
 
 	formatMapping = map[string]string{
diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index 8c52bb3..b46e799 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -20,6 +20,14 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		return date.Date{}, fmt.Errorf("unable to parse date from %s", str)
 	}
 
+	// Fewer digits only state a year or a time, so there are always missing parts
+	if !rxFullDate.MatchString(str) {
+		missingParts := strutil.NewDict("day", "month", "year")
+		if err := common.CheckStrictParsing(cfg, missingParts); err != nil {
+			return date.Date{}, err
+		}
+	}
+
 	// Sanitize string
 	str = strutil.SanitizeSpaces(str)
 	str = strings.ReplaceAll(str, ":", "")
@@ -72,10 +80,10 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 					continue
 				}
 
-				missingParts := strutil.NewDict()
+				missingParts := strutil.NewDict("day", "month", "year")
 				for key, part := range formatMapping {
-					if !strings.Contains(format, key) {
-						missingParts.Add(part)
+					if strings.Contains(format, key) {
+						missingParts.Remove(part)
 					}
 				}
 
-- 
2.43.0


From 9c0cecf6460c5563055c8295d511f53f67c7a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 29/70] fix: read eight or fourteen digits in the date order
 first

---
 internal/parser/nospace/parser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index b46e799..4d34eb7 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -63,8 +63,17 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 			continue
 		}
 
+		// If the digits fill the order exactly, prefer it to shorter values
+		tokenFormats := formats
+		switch fullDate := strings.Replace(order, "y", "Y", 1); len(token.Text) {
+		case 8:
+			tokenFormats = append([]string{fullDate}, formats...)
+		case 14:
+			tokenFormats = append([]string{fullDate + "HMS"}, formats...)
+		}
+
 		// Try each format
-		for _, format := range formats {
+		for _, format := range tokenFormats {
 			period := getPeriodFromFormat(format)
 			candidates, goFormat := createParseCandidates(token.Text, format)
 
-- 
2.43.0


From bb915eeab72a7f50d0b7e98c44d067892c720084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 30/70] fix: don't use the host clock to validate a two-digit
 year

---
 internal/parser/nospace/constants.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/parser/nospace/constants.go b/internal/parser/nospace/constants.go
index eaab82a..d130058 100644
--- a/internal/parser/nospace/constants.go
+++ b/internal/parser/nospace/constants.go
@@ -5,7 +5,6 @@ import (
 	"sort"
 	"strconv"
 	"strings"
-	"time"
 
 	"slices"
 
@@ -228,12 +227,11 @@ func candidateIsValid(mapValues map[string]int) bool {
 			return false
 		}
 
-		currentYear := time.Now().Year()
-		currentCentury := (currentYear / 1000) * 1000
-		if year < currentYear-currentCentury {
-			year += currentCentury
+		// Use the same century as the layout "06"
+		if year < 69 {
+			year += 2000
 		} else {
-			year += currentCentury - 100
+			year += 1900
 		}
 	}
 
-- 
2.43.0


From f6f1850d53fc7938661fa05c167099f88fae0dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 31/70] fix: keep February 29 of a layout without year

---
 internal/parser/absolute/parser.go  | 25 +----------------------
 internal/parser/absolute/root.go    |  3 ++-
 internal/parser/common/leap-year.go | 31 +++++++++++++++++++++++++++++
 internal/parser/formatted/parser.go |  8 +++++++-
 4 files changed, 41 insertions(+), 26 deletions(-)
 create mode 100644 internal/parser/common/leap-year.go

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 5e58f06..95a62cb 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -531,7 +531,7 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 			// The day was limited to the length of February in the current year
 			tDay = min(max(tDay, p.Now.Day()), dateutil.GetLastDayOfMonth(tYear, 2))
 		} else if tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
-			tYear = p.getCorrectLeapYear(tYear)
+			tYear = common.GetCorrectLeapYear(p.Config, tYear)
 		}
 
 		t = time.Date(tYear, tMonth, tDay,
@@ -618,26 +618,3 @@ func (p *Parser) getPeriod() date.Period {
 
 	return date.Day
 }
-
-func (p Parser) getCorrectLeapYear(currentYear int) int {
-	var dateSource setting.PreferredDateSource
-	if p.Config != nil {
-		dateSource = p.Config.PreferredDateSource
-	}
-
-	switch dateSource {
-	case setting.Future:
-		return dateutil.GetLeapYear(currentYear, true)
-	case setting.Past:
-		return dateutil.GetLeapYear(currentYear, false)
-	default:
-		nextLeapYear := dateutil.GetLeapYear(currentYear, true)
-		prevLeapYear := dateutil.GetLeapYear(currentYear, false)
-		nextLeapYearIsCloser := nextLeapYear-currentYear < currentYear-prevLeapYear
-		if nextLeapYearIsCloser {
-			return nextLeapYear
-		} else {
-			return prevLeapYear
-		}
-	}
-}
diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index a844477..fcee66a 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/dateutil"
+	"github.com/markusmobius/go-dateparser/internal/parser/common"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/timezone"
 )
@@ -63,7 +64,7 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 	_, tokenDayExist := p.ComponentTokens["day"]
 	_, tokenYearExist := p.ComponentTokens["year"]
 	if D == 29 && M == 2 && !dateutil.IsLeapYear(Y) && tokenDayExist && !tokenYearExist {
-		Y = p.getCorrectLeapYear(Y)
+		Y = common.GetCorrectLeapYear(p.Config, Y)
 	}
 
 	// Fix max day, unless the day is stated
diff --git a/internal/parser/common/leap-year.go b/internal/parser/common/leap-year.go
new file mode 100644
index 0000000..b57daca
--- /dev/null
+++ b/internal/parser/common/leap-year.go
@@ -0,0 +1,31 @@
+package common
+
+import (
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
+	"github.com/markusmobius/go-dateparser/internal/setting"
+)
+
+// GetCorrectLeapYear returns the leap year that used for February 29 when the current year
+// is not a leap year.
+func GetCorrectLeapYear(cfg *setting.Configuration, currentYear int) int {
+	var dateSource setting.PreferredDateSource
+	if cfg != nil {
+		dateSource = cfg.PreferredDateSource
+	}
+
+	switch dateSource {
+	case setting.Future:
+		return dateutil.GetLeapYear(currentYear, true)
+	case setting.Past:
+		return dateutil.GetLeapYear(currentYear, false)
+	default:
+		nextLeapYear := dateutil.GetLeapYear(currentYear, true)
+		prevLeapYear := dateutil.GetLeapYear(currentYear, false)
+		nextLeapYearIsCloser := nextLeapYear-currentYear < currentYear-prevLeapYear
+		if nextLeapYearIsCloser {
+			return nextLeapYear
+		} else {
+			return prevLeapYear
+		}
+	}
+}
diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index f6b81e3..03c7f4b 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -5,6 +5,7 @@ import (
 	"time"
 
 	"github.com/markusmobius/go-dateparser/date"
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/parser/common"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/timezone"
@@ -45,7 +46,12 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 
 		// Check if format has year. Must be done first because it decides the length of February.
 		if t.Year() == 0 {
-			t = time.Date(currentTime.Year(), t.Month(), t.Day(),
+			year := currentTime.Year()
+			if t.Month() == time.February && t.Day() == 29 && !dateutil.IsLeapYear(year) {
+				year = common.GetCorrectLeapYear(cfg, year)
+			}
+
+			t = time.Date(year, t.Month(), t.Day(),
 				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
 				t.Location())
 		}
-- 
2.43.0


From d414829ebb8d5eee0049c08eba32cfd53f7eda94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 32/70] fix: treat day of the year in layouts as complete date

---
 internal/parser/formatted/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index 03c7f4b..8348b23 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -61,6 +61,11 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 		formatHasDay := strings.Contains(checkerText, "4")
 		formatHasMonth := strings.Contains(checkerText, "3") || strings.Contains(checkerText, "Mar")
 
+		// Day of the year specifies both
+		if strings.Contains(format, "002") || strings.Contains(format, "__2") {
+			formatHasDay, formatHasMonth = true, true
+		}
+
 		if !formatHasMonth && !formatHasDay {
 			period = date.Year
 			t = common.ApplyMonthFromConfig(cfg, t)
-- 
2.43.0


From 85ac414cfe69f3df37a16af20592315a87691768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:57 +0000
Subject: [PATCH 33/70] fix: ignore zero-width non-joiner in Jalali dates

---
 internal/parser/jalali/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 738eff2..5b321b4 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -3,6 +3,7 @@ package jalali
 import (
 	"fmt"
 	"strconv"
+	"strings"
 	"time"
 	"unicode"
 
@@ -19,6 +20,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 	// Normalize the string
 	str = strutil.NormalizeString(str)
 	str = digit.NormalizeString(str)
+	str = strings.ReplaceAll(str, "\u200c", "")
 
 	// Translate the foreign texts
 	str = replaceMonths(str)
-- 
2.43.0


From ccda9ca76e717db86114c3ac6f7600841f3aa529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:12 +0000
Subject: [PATCH 34/70] fix: fill missing parts of Jalali and Hijri dates in
 their own calendar

---
 internal/parser/absolute/parser.go | 115 ++++++++++++++++++++++++-----
 internal/parser/hijri/parser.go    |   1 +
 internal/parser/jalali/parser.go   |   9 ++-
 3 files changed, 101 insertions(+), 24 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 95a62cb..05abb58 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -45,6 +45,7 @@ type Parser struct {
 	FnGetDateTimeParams func(p *Parser) map[string]int
 	FnCreateDateTime    func(p *Parser, params map[string]int, loc *time.Location) (time.Time, error)
 	FnGetDatePartValue  func(p *Parser, component, token, directive string) (int, bool)
+	OtherCalendar       bool // the functions use a calendar other than Gregorian
 
 	Tokens           []tokenizer.Token
 	FilteredTokens   []FilteredToken
@@ -302,6 +303,11 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 		dtParams["nanosecond"] = p.ParsedTime.Nanosecond()
 	}
 
+	// In other calendars the preferences are applied before the date is converted
+	if p.OtherCalendar {
+		p.applyPreferences(dtParams)
+	}
+
 	// Create datetime object
 	dt, err := p.FnCreateDateTime(p, dtParams, dtLocation)
 	if err != nil {
@@ -309,14 +315,24 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 	}
 
 	// Apply correction for past and future
+	if step := p.getYearStep(dt, tz); p.OtherCalendar && step != 0 {
+		dtParams["year"] += step
+		dt, err = p.FnCreateDateTime(p, dtParams, dtLocation)
+		if err != nil {
+			return date.Date{}, err
+		}
+	}
+
 	dt = p.correctForTimeFrame(dt, tz)
 
-	// Apply correction for preference of month: beginning, current, end.
-	// Must be done before day so that day is derived from the correct month.
-	dt = p.correctForMonth(dt)
+	if !p.OtherCalendar {
+		// Apply correction for preference of month: beginning, current, end.
+		// Must be done before day so that day is derived from the correct month.
+		dt = p.correctForMonth(dt)
 
-	// Apply correction for preference of day: beginning, current, end
-	dt = p.correctForDay(dt)
+		// Apply correction for preference of day: beginning, current, end
+		dt = p.correctForDay(dt)
+	}
 
 	// Get the period of this date
 	returnTimeAsPeriod := p.Config != nil && p.Config.ReturnTimeAsPeriod
@@ -464,19 +480,7 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 		dateSource = p.Config.PreferredDateSource
 	}
 
-	// The wall clock is in the popped timezone, the default one, or in the
-	// location of current time, in that order.
-	loc := t.Location()
-	if !tz.IsZero() {
-		loc = time.FixedZone(tz.Name, tz.Offset)
-	} else if p.Config != nil && p.Config.DefaultTimezone != nil {
-		loc = p.Config.DefaultTimezone
-	}
-
-	inLoc := func(t time.Time) time.Time {
-		return time.Date(t.Year(), t.Month(), t.Day(),
-			t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
-	}
+	inLoc := func(t time.Time) time.Time { return p.inLocation(t, tz) }
 
 	if tokenWeekdayExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist {
 		dayIndex := int(t.Weekday())
@@ -514,7 +518,7 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 		t = t.AddDate(0, 0, steps)
 	}
 
-	if monthExist && !yearExist {
+	if monthExist && !yearExist && !p.OtherCalendar {
 		tDay, tMonth, tYear := t.Day(), t.Month(), t.Year()
 
 		if p.Now.Before(inLoc(t)) {
@@ -539,7 +543,7 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 			t.Location())
 	}
 
-	if tokenYearExist && len(tokenYear.Text) == 2 {
+	if tokenYearExist && len(tokenYear.Text) == 2 && !p.OtherCalendar {
 		if p.Now.Before(inLoc(t)) {
 			if dateSource == setting.Past {
 				t = t.AddDate(-100, 0, 0)
@@ -564,6 +568,77 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	return t
 }
 
+// inLocation returns the moment of the wall clock, which is in the popped timezone,
+// the default one, or in the location of current time, in that order.
+func (p *Parser) inLocation(t time.Time, tz timezone.OffsetData) time.Time {
+	loc := t.Location()
+	if !tz.IsZero() {
+		loc = time.FixedZone(tz.Name, tz.Offset)
+	} else if p.Config != nil && p.Config.DefaultTimezone != nil {
+		loc = p.Config.DefaultTimezone
+	}
+
+	return time.Date(t.Year(), t.Month(), t.Day(),
+		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
+}
+
+// applyPreferences replaces the missing month and day with the preferred ones. It does
+// the same as correctForMonth and correctForDay, for calendars other than Gregorian.
+func (p *Parser) applyPreferences(params map[string]int) {
+	if p.Config == nil {
+		return
+	}
+
+	_, tokenDayExist := p.ComponentTokens["day"]
+	_, tokenTimeExist := p.ComponentTokens["time"]
+	_, tokenMonthExist := p.ComponentTokens["month"]
+	_, tokenYearExist := p.ComponentTokens["year"]
+
+	if !tokenMonthExist && (tokenYearExist || tokenDayExist) {
+		switch p.Config.PreferredMonthOfYear {
+		case setting.FirstMonth:
+			params["month"] = 1
+		case setting.LastMonth:
+			params["month"] = 12
+		}
+	}
+
+	if !tokenDayExist && !tokenTimeExist {
+		switch p.Config.PreferredDayOfMonth {
+		case setting.First:
+			params["day"] = 1
+		case setting.Last:
+			params["day"] = 31 // limited later to the length of the month
+		}
+	}
+}
+
+// getYearStep returns the years that must be added to t for the preferred date source. It
+// does the same as correctForTimeFrame, for calendars other than Gregorian.
+func (p *Parser) getYearStep(t time.Time, tz timezone.OffsetData) int {
+	_, yearExist := p.ComponentValues["year"]
+	_, monthExist := p.ComponentValues["month"]
+	tokenYear, tokenYearExist := p.ComponentTokens["year"]
+
+	var step int
+	if monthExist && !yearExist {
+		step = 1
+	} else if tokenYearExist && len(tokenYear.Text) == 2 {
+		step = 100
+	}
+
+	if p.Config != nil {
+		isAfterNow := p.Now.Before(p.inLocation(t, tz))
+		if p.Config.PreferredDateSource == setting.Past && isAfterNow {
+			return -step
+		} else if p.Config.PreferredDateSource == setting.Future && !isAfterNow {
+			return step
+		}
+	}
+
+	return 0
+}
+
 func (p *Parser) correctForDay(t time.Time) time.Time {
 	_, tokenDayExist := p.ComponentTokens["day"]
 	_, tokenTimeExist := p.ComponentTokens["time"]
diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 2df079f..1c378f0 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -48,6 +48,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		FnGetDateTimeParams: getDateTimeParams,
 		FnGetDatePartValue:  getDatePartValue,
 		FnCreateDateTime:    createDateTime,
+		OtherCalendar:       true,
 	}
 
 	if err := parser.Init(str); err != nil {
diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 5b321b4..535a9b8 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -40,6 +40,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		FnGetDateTimeParams: getDateTimeParams,
 		FnGetDatePartValue:  getDatePartValue,
 		FnCreateDateTime:    createDateTime,
+		OtherCalendar:       true,
 	}
 
 	if err := parser.Init(str); err != nil {
@@ -68,22 +69,22 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 
 func getDateTimeParams(p *absolute.Parser) map[string]int {
 	// Get current time in Jalali
-	jd := jalaali.From(p.Now)
+	jYear, jMonth, jDay, _ := jalaali.ToJalaali(p.Now.Year(), p.Now.Month(), p.Now.Day())
 
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
 	if !dayExist || day == 0 {
-		day = jd.Day()
+		day = jDay
 	}
 
 	month, monthExist := p.ComponentValues["month"]
 	if !monthExist || month == 0 {
-		month = int(jd.Month())
+		month = int(jMonth)
 	}
 
 	year, yearExist := p.ComponentValues["year"]
 	if !yearExist || year == 0 {
-		year = jd.Year()
+		year = jYear
 	}
 
 	return map[string]int{
-- 
2.43.0


From 7b2b1048e0ccdcdccb5609516eb5c6014437a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 35/70] fix: don't move incomplete Jalali and Hijri dates to a
 leap year unless the day is stated

---
 internal/parser/hijri/parser.go  | 3 ++-
 internal/parser/jalali/parser.go | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 1c378f0..40fcc33 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -148,8 +148,9 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	}
 
 	// Fix leap year, unless the year is stated
+	_, tokenDayExist := p.ComponentTokens["day"]
 	_, tokenYearExist := p.ComponentTokens["year"]
-	if D == 30 && M == 12 && !isHijriLeapYear(Y) && !tokenYearExist {
+	if D == 30 && M == 12 && !isHijriLeapYear(Y) && tokenDayExist && !tokenYearExist {
 		Y = getCorrectHijriLeapYear(p.Config, Y)
 	}
 
diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 535a9b8..6cd0b3c 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -142,18 +142,18 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
 	// Fix leap year, unless the year is stated
+	_, tokenDayExist := p.ComponentTokens["day"]
 	_, tokenYearExist := p.ComponentTokens["year"]
 	isLeapYear, err := jalaali.IsLeapYear(Y)
 	if err != nil {
 		return time.Time{}, err
 	}
 
-	if D == 30 && M == 12 && !isLeapYear && !tokenYearExist {
+	if D == 30 && M == 12 && !isLeapYear && tokenDayExist && !tokenYearExist {
 		Y = getCorrectLeapYear(p.Config, Y)
 	}
 
 	// Fix max day, unless the day is stated
-	_, tokenDayExist := p.ComponentTokens["day"]
 	lastDayOfMonth, err := jalaali.MonthLength(Y, M)
 	if err == nil && D > lastDayOfMonth {
 		if tokenDayExist {
-- 
2.43.0


From f4b7276c088ee6a78844bbfda3e845ee450b49b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 36/70] fix: use the day of current time in its own location
 for incomplete Hijri dates

---
 internal/parser/hijri/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 40fcc33..0647267 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -76,8 +76,9 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 }
 
 func getDateTimeParams(p *absolute.Parser) map[string]int {
-	// Get current time in Hijri
-	hd, _ := hijri.CreateUmmAlQuraDate(p.Now)
+	// Get current time in Hijri. The package converts it to UTC, which might be another day.
+	now := time.Date(p.Now.Year(), p.Now.Month(), p.Now.Day(), 0, 0, 0, 0, time.UTC)
+	hd, _ := hijri.CreateUmmAlQuraDate(now)
 
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
-- 
2.43.0


From 2c84a398a7c6bb11e33adf1833f8609ccdb81d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 37/70] fix: take the length of the last Jalali month from the
 conversion

---
 internal/parser/jalali/parser.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 6cd0b3c..f038443 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -144,17 +144,24 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	// Fix leap year, unless the year is stated
 	_, tokenDayExist := p.ComponentTokens["day"]
 	_, tokenYearExist := p.ComponentTokens["year"]
-	isLeapYear, err := jalaali.IsLeapYear(Y)
+	leap, err := isLeapYear(Y)
 	if err != nil {
 		return time.Time{}, err
 	}
 
-	if D == 30 && M == 12 && !isLeapYear && tokenDayExist && !tokenYearExist {
+	if D == 30 && M == 12 && !leap && tokenDayExist && !tokenYearExist {
 		Y = getCorrectLeapYear(p.Config, Y)
 	}
 
 	// Fix max day, unless the day is stated
 	lastDayOfMonth, err := jalaali.MonthLength(Y, M)
+	if M == 12 {
+		lastDayOfMonth = 29
+		if leap, _ := isLeapYear(Y); leap {
+			lastDayOfMonth = 30
+		}
+	}
+
 	if err == nil && D > lastDayOfMonth {
 		if tokenDayExist {
 			return time.Time{}, fmt.Errorf("day is out of range for month")
@@ -171,6 +178,23 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	return time.Date(gY, gM, gD, H, m, s, ns, loc), nil
 }
 
+// isLeapYear checks if the year has 366 days. The rule of the package is not used because in
+// several years (e.g. 1205 and 1206) it disagrees with the package's own conversion.
+func isLeapYear(year int) (bool, error) {
+	y1, m1, d1, err := jalaali.ToGregorian(year, 1, 1)
+	if err != nil {
+		return false, err
+	}
+
+	y2, m2, d2, err := jalaali.ToGregorian(year+1, 1, 1)
+	if err != nil {
+		return false, err
+	}
+
+	start := time.Date(y1, m1, d1, 0, 0, 0, 0, time.UTC)
+	return start.AddDate(0, 0, 366).Equal(time.Date(y2, m2, d2, 0, 0, 0, 0, time.UTC)), nil
+}
+
 func isDigit(s string) bool {
 	for _, r := range s {
 		if !unicode.IsDigit(r) {
@@ -191,7 +215,7 @@ func getLeapYear(year int, toFuture bool) int {
 
 	for {
 		year += step
-		isLeap, err := jalaali.IsLeapYear(year)
+		isLeap, err := isLeapYear(year)
 		if isLeap {
 			return year
 		} else if err != nil {
-- 
2.43.0


From 543a79d58f87b2a3b8178d45822f3bf50d3912fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 38/70] fix: don't panic on separators in front of a sentence,
 e.g. the Spanish inverted marks

---
 internal/language/split.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/language/split.go b/internal/language/split.go
index 01e9238..d4de1ca 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -65,6 +65,11 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 	var lastPosition int
 	useDigitAbbrs := langWithDigitAbbrs.Contain(ld.Name)
 	for _, pos := range rxSplitter.FindAllStringSubmatchIndex(str, -1) {
+		// Some separators are in front of the sentence, e.g. `¿`, so there is no end of sentence
+		if pos[2] < 0 {
+			pos[2], pos[3] = pos[0], pos[0]
+		}
+
 		// Fetch end of sentence from this match
 		eos := str[pos[2]:pos[3]]
 
-- 
2.43.0


From 85671cadf59dc0e4565b18757cfb6b255036beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 39/70] fix: don't end a sentence at an ordinal number that
 follows an opening bracket

---
 internal/language/split.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/split.go b/internal/language/split.go
index d4de1ca..d989b96 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -79,7 +79,7 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 		}
 
 		// If this language use digit abbreviation, make sure end of sentence is not number
-		if useDigitAbbrs && strutil.IsNumberOnly(eos) {
+		if useDigitAbbrs && strutil.IsNumberOnly(strutil.TrimChars(eos, `([{"'`)) {
 			continue
 		}
 
-- 
2.43.0


From 520aa858c584447a7213c439b9271f9aff12bf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 40/70] fix: keep the future direction of relative phrases that
 are followed by punctuation in a search

---
 internal/language/translate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/translate.go b/internal/language/translate.go
index 4aa0610..26b46a9 100644
--- a/internal/language/translate.go
+++ b/internal/language/translate.go
@@ -109,7 +109,7 @@ func clearFutureWords(words []string) []string {
 	var hasFreshness bool
 	var wordsWithoutIn []string
 	for _, word := range words {
-		isFreshWord := freshnessWords.Contain(word)
+		isFreshWord := freshnessWords.Contain(strutil.TrimChars(word, `()"'{}[],.،`))
 		hasFreshness = hasFreshness || isFreshWord
 
 		if word != "in" {
-- 
2.43.0


From c9f8bb3ae0b3341f91280a898352d69883bd5ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 41/70] fix: keep punctuation in front of a word when
 translating a searched text

---
 internal/language/translate-search.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 3af500c..bca41e6 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -68,10 +68,14 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 				translatedChunk = append(translatedChunk, translations)
 				originalChunk = append(originalChunk, originalToken)
 			} else if isInDictionary(ld, cleanedWord) && !dashes.Contain(word) {
-				punct := word[len(cleanedWord):]
+				prefix, suffix, _ := strings.Cut(word, cleanedWord)
 				translations, _ := translateWord(ld, cleanedWord)
 				for i, translation := range translations {
-					translations[i] = translation + punct
+					if prefix != "" && translation == "" {
+						translations[i] = word // ignored words aren't the beginning of a date
+					} else {
+						translations[i] = prefix + translation + suffix
+					}
 				}
 
 				translatedChunk = append(translatedChunk, translations)
-- 
2.43.0


From 5f19e970477118646e702f724f1cf333cc2594f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 42/70] fix: don't take words that only contain the letters of
 a timezone for one

---
 internal/timezone/parser.go     | 5 +++--
 internal/timezone/tz-offsets.go | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/timezone/parser.go b/internal/timezone/parser.go
index 8ce9cd0..0141aa1 100644
--- a/internal/timezone/parser.go
+++ b/internal/timezone/parser.go
@@ -22,7 +22,8 @@ func PopTzOffset(str string) (string, OffsetData) {
 	return str, OffsetData{}
 }
 
-// WordIsTz check if the specified word is a timezone code.
+// WordIsTz check if the specified word is a timezone code, and not a word
+// that only contains the letters of a timezone.
 func WordIsTz(word string) bool {
-	return rxSearch.MatchString(word)
+	return rxSearchWord.MatchString(word)
 }
diff --git a/internal/timezone/tz-offsets.go b/internal/timezone/tz-offsets.go
index 3bc2b5f..334548c 100644
--- a/internal/timezone/tz-offsets.go
+++ b/internal/timezone/tz-offsets.go
@@ -18,7 +18,7 @@ func (tod OffsetData) IsZero() bool {
 	return tod.Name == "" && tod.Regex == nil && tod.Offset == 0
 }
 
-var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regexp.Regexp, *regexp.Regexp) {
+var timezoneOffsets, rxSearchWord, rxSearchIgnoreCase = func() ([]OffsetData, *regexp.Regexp, *regexp.Regexp) {
 	// Process timezone info list
 	offsets := []OffsetData{}
 	regexPatterns := map[string]struct{}{}
@@ -80,7 +80,7 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 	sort.Strings(patterns)
 	strSearchPatterns := strings.Join(patterns, "|")
 
-	rxSearch := regexp.MustCompile(strSearchPatterns)
+	rxSearchWord := regexp.MustCompile(`(?:^|[^\pL])(?:` + strSearchPatterns + `)(?:$|[^\pL])`)
 	rxSearchIgnoreCase := regexp.MustCompile("(?i)" + strSearchPatterns)
-	return offsets, rxSearch, rxSearchIgnoreCase
+	return offsets, rxSearchWord, rxSearchIgnoreCase
 }()
-- 
2.43.0


From 9abe9913b431ac5388c144bfd6a59508d5ba877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 43/70] fix: keep ordinal numbers with a period in the sentence
 in more languages that write dates so

---
 internal/language/00-constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index 43f3245..a56a027 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -51,6 +51,6 @@ var (
 	dashes             = strutil.NewDict("-", "——", "—", "～")
 	alwaysKeptTokens   = strutil.NewDict("+", ":", ".", " ", "-", "/")
 	freshnessWords     = strutil.NewDict("decade", "day", "week", "month", "year", "hour", "minute", "second")
-	langWithDigitAbbrs = strutil.NewDict("fi", "cs", "hu", "de", "da")
+	langWithDigitAbbrs = strutil.NewDict("fi", "cs", "hu", "de", "da", "hr", "bs", "sr-Latn", "sk", "sl", "nb", "nn", "et", "lv", "is", "fo", "lb", "hsb", "dsb", "gsw", "ksh")
 	commonCharset      = rangetable.New([]rune(`0123456789()\-/.,:' `)...)
 )
-- 
2.43.0


From 1ede9819919c25174ed6bc7429a4072d08436948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 44/70] fix: replace non-breaking spaces with normal ones
 instead of joining the words

---
 internal/strutil/strutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 1d9a574..530a17c 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -50,7 +50,7 @@ var (
 // SanitizeSpaces replaces non-breaking spaces into a normal one,
 // then remove any excess whitespaces.
 func SanitizeSpaces(s string) string {
-	s = strings.ReplaceAll(s, "\u00A0", "")
+	s = strings.ReplaceAll(s, "\u00A0", " ")
 	s = strings.Join(strings.Fields(s), " ")
 	return s
 }
-- 
2.43.0


From 40ff35b9334aa83b1a2925ff1dd433929d63b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 45/70] fix: align the words of a searched text that contains
 tabs, line breaks or repeated spaces

---
 internal/language/translate-search.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index bca41e6..780eefd 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -128,7 +128,8 @@ func simplifySplitAlign(ld *data.LocaleData, str string, skippedTokens strutil.D
 		return token
 	}
 
-	// Split tokens
+	// Split tokens. Simplified string has its spaces sanitized, so the original must have it as well
+	str = strutil.SanitizeSpaces(str)
 	simplifiedStr := Simplify(ld, normalizeToken(str))
 	originalTokens := wordSplit(ld, str, skippedTokens)
 	simplifiedTokens := wordSplit(ld, simplifiedStr, skippedTokens)
-- 
2.43.0


From d958df478765f1972c20c42ea2ff02461cc8f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 46/70] fix: keep the spaces in excerpts of languages without
 word spacing

---
 internal/language/translate-search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 780eefd..8792db4 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -56,7 +56,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
 				originalChunk = append(originalChunk, originalToken)
-			} else if isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
+			} else if isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable && nextWord != " " {
 				translations, _ := translateWord(ld, currentAndNextJoined)
 				joinedOriginalToken := joinChunk(ld, originalToken, nextOriginalToken)
 
-- 
2.43.0


From 0a107d13ae7b1fbc1bc580d5d1a16bd297e44d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:13 +0000
Subject: [PATCH 47/70] fix: read numeric dates of searches in the order of the
 language, and ignore invalid orders

---
 search.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/search.go b/search.go
index e3f29e0..fcd4f26 100644
--- a/search.go
+++ b/search.go
@@ -87,9 +87,6 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 		return nil, err
 	}
 	iCfg := cfg.toInternalConfig()
-	if cfg.DateOrder != nil {
-		iCfg.DateOrder = cfg.DateOrder(lang)
-	}
 
 	// Find the locale data
 	ld, exist := data.GetLocaleData(lang)
@@ -97,6 +94,15 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 		return nil, fmt.Errorf("unknown language: %s", lang)
 	}
 
+	// Entries are parsed in English, but in the date order of the searched language
+	iCfg.DateOrder = ld.DateOrder[:min(3, len(ld.DateOrder))] // some have a suffix, e.g. "DMY."
+	if cfg.DateOrder != nil {
+		do := cfg.DateOrder(lang)
+		if do, valid := validateDateOrder(do); valid {
+			iCfg.DateOrder = do
+		}
+	}
+
 	// Translate the text
 	translation, original := language.TranslateSearch(iCfg, ld, text)
 
-- 
2.43.0


From cbb4de13fdcaf7e2e8a9a03bf85cd2a09ba19d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:00 +0000
Subject: [PATCH 48/70] fix: keep am behind clock times in searches

---
 search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.go b/search.go
index fcd4f26..a798ea9 100644
--- a/search.go
+++ b/search.go
@@ -13,12 +13,14 @@ import (
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/data"
 	"github.com/markusmobius/go-dateparser/internal/language"
+	"github.com/markusmobius/go-dateparser/internal/regexp"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/strutil"
 )
 
 var (
 	splitters     = []string{",", "،", "——", "—", "–", ".", " "}
+	rxClockOrAm   = regexp.MustCompile(`((?::\d\d(?:[.:]\d+)*|\d{4}\D{0,5}\d{1,2})\s*am)|am`)
 	relativeWords = []string{"ago", "in", "from now", "tomorrow", "today", "yesterday"}
 )
 
@@ -249,7 +251,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 func (p *Parser) parseEntry(iCfg *setting.Configuration, languages []string, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
-	entry = strings.ReplaceAll(entry, "am", "")
+	entry = rxClockOrAm.ReplaceAllString(entry, "$1")
 
 	// Parse entry
 	cfg := configFromInternal(iCfg)
-- 
2.43.0


From ff2b9c1dd70d438d1c698c44eecb67847daf6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:00 +0000
Subject: [PATCH 49/70] fix: keep the direction of amounts that are joined with
 their unit in searches

---
 internal/language/translate-search.go |  2 +-
 internal/language/translate.go        | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 8792db4..5c46af5 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -112,7 +112,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 
 	for i := range translated {
 		originalChunk := filterChunk(original[i]...)
-		translatedChunk := filterChunk(clearFutureWords(translated[i])...)
+		translatedChunk := filterChunk(clearFutureWords(ld, translated[i])...)
 
 		mergedOriginal = append(mergedOriginal, joinChunk(ld, originalChunk...))
 		mergedTranslation = append(mergedTranslation, joinChunk(ld, translatedChunk...))
diff --git a/internal/language/translate.go b/internal/language/translate.go
index 26b46a9..71800f5 100644
--- a/internal/language/translate.go
+++ b/internal/language/translate.go
@@ -2,6 +2,7 @@ package language
 
 import (
 	"slices"
+	"strings"
 
 	"github.com/markusmobius/go-dateparser/internal/data"
 	"github.com/markusmobius/go-dateparser/internal/digit"
@@ -73,7 +74,7 @@ func Translate(cfg *setting.Configuration, ld *data.LocaleData, str string, keep
 	for _, tokens := range tokenPermutations {
 		// Handle future words
 		if slices.Contains(tokens, "in") {
-			tokens = clearFutureWords(tokens)
+			tokens = clearFutureWords(ld, tokens)
 		}
 
 		// Remove empty tokens
@@ -104,13 +105,19 @@ func Simplify(ld *data.LocaleData, str string) string {
 	return str
 }
 
-func clearFutureWords(words []string) []string {
+func clearFutureWords(ld *data.LocaleData, words []string) []string {
 	// Check if words has freshness word
 	var hasFreshness bool
 	var wordsWithoutIn []string
 	for _, word := range words {
-		isFreshWord := freshnessWords.Contain(strutil.TrimChars(word, `()"'{}[],.،`))
-		hasFreshness = hasFreshness || isFreshWord
+		cleanedWord := strutil.TrimChars(word, `()"'{}[],.،`)
+		hasFreshness = hasFreshness || freshnessWords.Contain(cleanedWord)
+
+		// The word might be joined with its number, which is not translated in search
+		if unit := strings.TrimLeft(cleanedWord, "0123456789"); unit != cleanedWord {
+			translations, _ := translateWord(ld, unit)
+			hasFreshness = hasFreshness || slices.ContainsFunc(translations, freshnessWords.Contain)
+		}
 
 		if word != "in" {
 			wordsWithoutIn = append(wordsWithoutIn, word)
-- 
2.43.0


From f8452e72575db40808e6dfeb4b9aeeecf9c31d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:08 +0000
Subject: [PATCH 50/70] fix: translate names of more than two words in searches

---
 internal/language/translate-search.go | 49 ++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 5c46af5..b825a72 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -12,6 +12,9 @@ import (
 	"github.com/markusmobius/go-dateparser/internal/timezone"
 )
 
+// maxWords is the limit for the count of words in a name that is looked for in the text.
+const maxWords = 4
+
 func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string) ([]string, []string) {
 	// Parse config
 	skippedTokens := mapSkippedTokens(cfg, ld)
@@ -25,29 +28,25 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 	for _, sentence := range sentences {
 		var originalChunk []string
 		var translatedChunk [][]string
-		var skipNextToken bool
+		var nSkippedTokens int
 
 		originalTokens, simplifiedTokens := simplifySplitAlign(ld, sentence, skippedTokens)
 		lastTokenIndex := len(simplifiedTokens) - 1
 
 		for i, word := range simplifiedTokens {
 			// The simplified tokens might be longer than the original
-			var originalToken, nextOriginalToken string
+			var originalToken string
 			if i < len(originalTokens) {
 				originalToken = originalTokens[i]
 			}
-			if i+1 < len(originalTokens) {
-				nextOriginalToken = originalTokens[i+1]
-			}
 
 			var nextWord string
 			if i < lastTokenIndex {
 				nextWord = simplifiedTokens[i+1]
 			}
 
-			currentAndNextJoined := joinChunk(ld, word, nextWord)
-			if skipNextToken {
-				skipNextToken = false
+			if nSkippedTokens > 0 {
+				nSkippedTokens--
 				continue
 			}
 
@@ -56,11 +55,10 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
 				originalChunk = append(originalChunk, originalToken)
-			} else if isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable && nextWord != " " {
-				translations, _ := translateWord(ld, currentAndNextJoined)
-				joinedOriginalToken := joinChunk(ld, originalToken, nextOriginalToken)
+			} else if nWords, translations := translateWords(ld, simplifiedTokens[i:]); nWords > 1 && !dashes.Contain(word) && !joinUnusable && nextWord != " " {
+				joinedOriginalToken := joinChunk(ld, originalTokens[min(i, len(originalTokens)):min(i+nWords, len(originalTokens))]...)
 
-				skipNextToken = true
+				nSkippedTokens = nWords - 1
 				translatedChunk = append(translatedChunk, translations)
 				originalChunk = append(originalChunk, joinedOriginalToken)
 			} else if isInDictionary(ld, word) && !dashes.Contain(word) {
@@ -121,6 +119,33 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 	return mergedTranslation, mergedOriginal
 }
 
+// translateWords looks for the longest name of several words, e.g. "day before yesterday",
+// that starts with the first of the words. It might be followed by punctuation.
+func translateWords(ld *data.LocaleData, words []string) (int, []string) {
+	nMax := maxWords
+	if ld.NoWordSpacing {
+		nMax = 2
+	}
+
+	for n := min(nMax, len(words)); n > 1; n-- {
+		joined := joinChunk(ld, words[:n]...)
+		if translations, exist := translateWord(ld, joined); exist {
+			return n, translations
+		}
+
+		if cleaned := strings.TrimRight(joined, `)"'}],.،`); n > 2 && cleaned != joined {
+			if translations, exist := translateWord(ld, cleaned); exist {
+				for i := range translations {
+					translations[i] += strings.TrimPrefix(joined, cleaned)
+				}
+				return n, translations
+			}
+		}
+	}
+
+	return 0, nil
+}
+
 func simplifySplitAlign(ld *data.LocaleData, str string, skippedTokens strutil.Dict) ([]string, []string) {
 	normalizeToken := func(token string) string {
 		token = strutil.NormalizeString(token)
-- 
2.43.0


From bb0547723ac728c89329477d19e4833731fc4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:50 +0000
Subject: [PATCH 51/70] fix: translate relative phrases of several words in
 searches

---
 internal/language/translate-search.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index b825a72..32fc453 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -13,7 +13,7 @@ import (
 )
 
 // maxWords is the limit for the count of words in a name that is looked for in the text.
-const maxWords = 4
+const maxWords = 7
 
 func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string) ([]string, []string) {
 	// Parse config
@@ -119,8 +119,8 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 	return mergedTranslation, mergedOriginal
 }
 
-// translateWords looks for the longest name of several words, e.g. "day before yesterday",
-// that starts with the first of the words. It might be followed by punctuation.
+// translateWords looks for the longest name of several words, e.g. "day before yesterday" or
+// "in 2 weeks", that starts with the first of the words. It might be followed by punctuation.
 func translateWords(ld *data.LocaleData, words []string) (int, []string) {
 	nMax := maxWords
 	if ld.NoWordSpacing {
@@ -129,12 +129,12 @@ func translateWords(ld *data.LocaleData, words []string) (int, []string) {
 
 	for n := min(nMax, len(words)); n > 1; n-- {
 		joined := joinChunk(ld, words[:n]...)
-		if translations, exist := translateWord(ld, joined); exist {
+		if translations, exist := translateRelative(ld, joined); exist {
 			return n, translations
 		}
 
-		if cleaned := strings.TrimRight(joined, `)"'}],.،`); n > 2 && cleaned != joined {
-			if translations, exist := translateWord(ld, cleaned); exist {
+		if cleaned := strings.TrimRight(joined, `)"'}],.،`); cleaned != joined {
+			if translations, exist := translateRelative(ld, cleaned); exist {
 				for i := range translations {
 					translations[i] += strings.TrimPrefix(joined, cleaned)
 				}
@@ -146,6 +146,18 @@ func translateWords(ld *data.LocaleData, words []string) (int, []string) {
 	return 0, nil
 }
 
+func translateRelative(ld *data.LocaleData, str string) ([]string, bool) {
+	if strings.ContainsAny(str, "0123456789") && !ld.NoWordSpacing && ld.RxExactCombined != nil && ld.RxExactCombined.MatchString(str) {
+		for _, data := range ld.RelativeTypeRegexes {
+			if data.Rx.MatchString(str) {
+				return []string{data.Rx.ReplaceAllString(str, data.Replacement)}, true
+			}
+		}
+	}
+
+	return translateWord(ld, str)
+}
+
 func simplifySplitAlign(ld *data.LocaleData, str string, skippedTokens strutil.Dict) ([]string, []string) {
 	normalizeToken := func(token string) string {
 		token = strutil.NormalizeString(token)
-- 
2.43.0


From 0d65f9a600ebb166ab7ada8a390cbba74e566481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:02 +0000
Subject: [PATCH 52/70] fix: normalize apostrophes in searches

---
 internal/language/translate-search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 32fc453..280f7c1 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -160,6 +160,7 @@ func translateRelative(ld *data.LocaleData, str string) ([]string, bool) {
 
 func simplifySplitAlign(ld *data.LocaleData, str string, skippedTokens strutil.Dict) ([]string, []string) {
 	normalizeToken := func(token string) string {
+		token = strutil.NormalizeAposthrope(token)
 		token = strutil.NormalizeString(token)
 		token = digit.NormalizeString(token)
 		return token
-- 
2.43.0


From c5eb08726bc34ef4c5c5f435a958377c01b91f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:18 +0000
Subject: [PATCH 53/70] fix: keep the direction of amounts in searches of
 languages without word spacing

---
 internal/language/translate-search.go | 52 +++++++++++++--------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 280f7c1..e391b31 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -23,7 +23,6 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 	var original [][]string
 	var translated [][]string
 	sentences := SplitSentence(ld, str)
-	joinUnusable := ld.Name == "zh" || ld.Name == "ja"
 
 	for _, sentence := range sentences {
 		var originalChunk []string
@@ -31,7 +30,6 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 		var nSkippedTokens int
 
 		originalTokens, simplifiedTokens := simplifySplitAlign(ld, sentence, skippedTokens)
-		lastTokenIndex := len(simplifiedTokens) - 1
 
 		for i, word := range simplifiedTokens {
 			// The simplified tokens might be longer than the original
@@ -40,11 +38,6 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 				originalToken = originalTokens[i]
 			}
 
-			var nextWord string
-			if i < lastTokenIndex {
-				nextWord = simplifiedTokens[i+1]
-			}
-
 			if nSkippedTokens > 0 {
 				nSkippedTokens--
 				continue
@@ -55,7 +48,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
 				originalChunk = append(originalChunk, originalToken)
-			} else if nWords, translations := translateWords(ld, simplifiedTokens[i:]); nWords > 1 && !dashes.Contain(word) && !joinUnusable && nextWord != " " {
+			} else if nWords, translations := translateWords(ld, simplifiedTokens[i:]); nWords > 1 && !dashes.Contain(word) {
 				joinedOriginalToken := joinChunk(ld, originalTokens[min(i, len(originalTokens)):min(i+nWords, len(originalTokens))]...)
 
 				nSkippedTokens = nWords - 1
@@ -122,21 +115,22 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 // translateWords looks for the longest name of several words, e.g. "day before yesterday" or
 // "in 2 weeks", that starts with the first of the words. It might be followed by punctuation.
 func translateWords(ld *data.LocaleData, words []string) (int, []string) {
-	nMax := maxWords
-	if ld.NoWordSpacing {
-		nMax = 2
-	}
-
-	for n := min(nMax, len(words)); n > 1; n-- {
+	for n := min(maxWords, len(words)); n > 1; n-- {
 		joined := joinChunk(ld, words[:n]...)
-		if translations, exist := translateRelative(ld, joined); exist {
-			return n, translations
+		cleaned := strings.TrimRight(joined, `)"'}],.،`)
+		if words[n-1] == " " {
+			continue
 		}
 
-		if cleaned := strings.TrimRight(joined, `)"'}],.،`); cleaned != joined {
-			if translations, exist := translateRelative(ld, cleaned); exist {
+		for _, str := range []string{joined, cleaned} {
+			translations, exist := translateAmount(ld, str)
+			if !exist && (!ld.NoWordSpacing || n == 2) && ld.Name != "zh" && ld.Name != "ja" {
+				translations, exist = translateWord(ld, str)
+			}
+
+			if exist {
 				for i := range translations {
-					translations[i] += strings.TrimPrefix(joined, cleaned)
+					translations[i] += strings.TrimPrefix(joined, str)
 				}
 				return n, translations
 			}
@@ -146,16 +140,22 @@ func translateWords(ld *data.LocaleData, words []string) (int, []string) {
 	return 0, nil
 }
 
-func translateRelative(ld *data.LocaleData, str string) ([]string, bool) {
-	if strings.ContainsAny(str, "0123456789") && !ld.NoWordSpacing && ld.RxExactCombined != nil && ld.RxExactCombined.MatchString(str) {
-		for _, data := range ld.RelativeTypeRegexes {
-			if data.Rx.MatchString(str) {
-				return []string{data.Rx.ReplaceAllString(str, data.Replacement)}, true
-			}
+// translateAmount translates relative phrases with amount, e.g. "in 2 weeks".
+func translateAmount(ld *data.LocaleData, str string) ([]string, bool) {
+	if !strings.ContainsAny(str, "0123456789") || ld.RxExactCombined == nil || !ld.RxExactCombined.MatchString(str) {
+		return nil, false
+	}
+
+	for _, data := range ld.RelativeTypeRegexes {
+		if data.Rx.MatchString(str) {
+			translation := data.Rx.ReplaceAllString(str, data.Replacement)
+			// Without spaces between the words, only the future needs the whole phrase
+			isFuture := strings.HasPrefix(translation, "in ")
+			return []string{translation}, isFuture || !ld.NoWordSpacing
 		}
 	}
 
-	return translateWord(ld, str)
+	return nil, false
 }
 
 func simplifySplitAlign(ld *data.LocaleData, str string, skippedTokens strutil.Dict) ([]string, []string) {
-- 
2.43.0


From 56127ee676bb6d9a1191dcb8af92f452c35c6451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:39 +0000
Subject: [PATCH 54/70] fix: keep ordinal numbers with a period in the sentence
 in all Serbian and Bosnian scripts and Inari Sami

---
 internal/language/00-constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index a56a027..fef813c 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -51,6 +51,6 @@ var (
 	dashes             = strutil.NewDict("-", "——", "—", "～")
 	alwaysKeptTokens   = strutil.NewDict("+", ":", ".", " ", "-", "/")
 	freshnessWords     = strutil.NewDict("decade", "day", "week", "month", "year", "hour", "minute", "second")
-	langWithDigitAbbrs = strutil.NewDict("fi", "cs", "hu", "de", "da", "hr", "bs", "sr-Latn", "sk", "sl", "nb", "nn", "et", "lv", "is", "fo", "lb", "hsb", "dsb", "gsw", "ksh")
+	langWithDigitAbbrs = strutil.NewDict("fi", "cs", "hu", "de", "da", "hr", "bs", "bs-Latn", "bs-Cyrl", "sr", "sr-Latn", "sr-Cyrl", "sk", "sl", "nb", "nn", "et", "lv", "is", "fo", "smn", "lb", "hsb", "dsb", "gsw", "ksh")
 	commonCharset      = rangetable.New([]rune(`0123456789()\-/.,:' `)...)
 )
-- 
2.43.0


From 448e8eb835545e49e78379f8a02409ead6493a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:56 +0000
Subject: [PATCH 55/70] fix: keep dates and decimal amounts with periods in one
 sentence of searches

---
 internal/language/00-constant.go |  3 +++
 internal/language/split.go       | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index fef813c..bd3f1cf 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -27,6 +27,9 @@ var (
 	rxNumeral    = regexp.MustCompile(`(\d+)`)
 	rxTokenDigit = regexp.MustCompile(`[\d\.:\-/]+`)
 
+	rxDateWithPeriod  = regexp.MustCompile(`\b(?:\d{1,2}\.\d{1,2}\.\d{4}|\d{4}\.\d{1,2}\.\d{1,2})\b`)
+	rxDecimalWithWord = regexp.MustCompile(`\b\d+\.\d+\s*(\p{L}+)`)
+
 	disallowedKnownWordRunes = rangetable.Merge(
 		unicode.Letter,
 		unicode.Mark,
diff --git a/internal/language/split.go b/internal/language/split.go
index d989b96..badb547 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -64,6 +64,7 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 	var sentences []string
 	var lastPosition int
 	useDigitAbbrs := langWithDigitAbbrs.Contain(ld.Name)
+	numbers := numbersWithPeriod(ld, str)
 	for _, pos := range rxSplitter.FindAllStringSubmatchIndex(str, -1) {
 		// Some separators are in front of the sentence, e.g. `¿`, so there is no end of sentence
 		if pos[2] < 0 {
@@ -83,6 +84,11 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 			continue
 		}
 
+		// If the separator is inside of a number, continue
+		if slices.ContainsFunc(numbers, func(n []int) bool { return n[0] < pos[3] && pos[1] < n[1] }) {
+			continue
+		}
+
 		// Extract this sentence
 		sentence := strings.TrimSpace(str[lastPosition:pos[3]])
 		if sentence != "" {
@@ -101,6 +107,19 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 	return sentences
 }
 
+// numbersWithPeriod looks for dates like "28.11.2013" and amounts like "2.5 years", whose periods
+// are not the end of a sentence.
+func numbersWithPeriod(ld *data.LocaleData, str string) [][]int {
+	numbers := rxDateWithPeriod.FindAllStringIndex(str, -1)
+	for _, pos := range rxDecimalWithWord.FindAllStringSubmatchIndex(str, -1) {
+		translations, _ := translateWord(ld, strings.ToLower(str[pos[2]:pos[3]]))
+		if slices.ContainsFunc(translations, freshnessWords.Contain) {
+			numbers = append(numbers, pos[:2])
+		}
+	}
+	return numbers
+}
+
 func splitWithRegex(s string, rx *regexp.Regexp) string {
 	var tmp string
 	for {
-- 
2.43.0


From 3562093a2c3adf121322211e039ff7e72368a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:47 +0000
Subject: [PATCH 56/70] fix: read numeric dates that are followed by the word
 for year

---
 internal/parser/relative/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/parser/relative/parser.go b/internal/parser/relative/parser.go
index 3432407..f0d5b99 100644
--- a/internal/parser/relative/parser.go
+++ b/internal/parser/relative/parser.go
@@ -21,6 +21,7 @@ var (
 	rxInAgo            = regexp.MustCompile(`(?i)\b(?:ago|in)\b`)
 	rxRelativePattern  = regexp.MustCompile(`(?i)(\d+[.,]?\d*)\s*(` + relativeUnits + `)\b`)
 	rxRelativeSkipWord = regexp.MustCompile(`(?i)^(?:` + relativeUnits + `|ago|in|\d+|:|[ap]m)`)
+	rxNumericDate      = regexp.MustCompile(`\d+[/.\-]\d+[/.\-]\d+`)
 	relativeUnits      = `decade|year|month|week|day|hour|minute|second`
 )
 
@@ -72,7 +73,8 @@ func parseTime(s string) (time.Time, date.Period, error) {
 }
 
 func parseDate(cfg *setting.Configuration, str string, now time.Time) (time.Time, date.Period) {
-	if !allWordsAreUnits(str) {
+	// In "28/11/2013 year" the unit only belongs to the year of an absolute date
+	if !allWordsAreUnits(str) || rxNumericDate.MatchString(str) {
 		return time.Time{}, 0
 	}
 
-- 
2.43.0


From 2a603e99a11c77702131ef66d9d663b08bd16a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:14 +0000
Subject: [PATCH 57/70] fix: read amounts with a decimal comma

---
 internal/language/00-constant.go |  1 +
 internal/language/translate.go   | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index bd3f1cf..11feeeb 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -28,6 +28,7 @@ var (
 	rxTokenDigit = regexp.MustCompile(`[\d\.:\-/]+`)
 
 	rxDateWithPeriod  = regexp.MustCompile(`\b(?:\d{1,2}\.\d{1,2}\.\d{4}|\d{4}\.\d{1,2}\.\d{1,2})\b`)
+	rxDecimalComma    = regexp.MustCompile(`(?:^|[^\d.,:/\-])\d{1,3}(,)\d+\s*(\p{L}+)`)
 	rxDecimalWithWord = regexp.MustCompile(`\b\d+\.\d+\s*(\p{L}+)`)
 
 	disallowedKnownWordRunes = rangetable.Merge(
diff --git a/internal/language/translate.go b/internal/language/translate.go
index 71800f5..5a3b5e1 100644
--- a/internal/language/translate.go
+++ b/internal/language/translate.go
@@ -102,6 +102,22 @@ func Simplify(ld *data.LocaleData, str string) string {
 		}
 	}
 
+	return normalizeDecimals(ld, str)
+}
+
+// normalizeDecimals uses period for the decimal comma of amounts, e.g. "1,5 years".
+func normalizeDecimals(ld *data.LocaleData, str string) string {
+	if !strings.Contains(str, ",") {
+		return str
+	}
+
+	for _, pos := range rxDecimalComma.FindAllStringSubmatchIndex(str, -1) {
+		translations, _ := translateWord(ld, strings.ToLower(str[pos[4]:pos[5]]))
+		if slices.ContainsFunc(translations, freshnessWords.Contain) {
+			str = str[:pos[2]] + "." + str[pos[3]:]
+		}
+	}
+
 	return str
 }
 
@@ -114,7 +130,7 @@ func clearFutureWords(ld *data.LocaleData, words []string) []string {
 		hasFreshness = hasFreshness || freshnessWords.Contain(cleanedWord)
 
 		// The word might be joined with its number, which is not translated in search
-		if unit := strings.TrimLeft(cleanedWord, "0123456789"); unit != cleanedWord {
+		if unit := strings.TrimLeft(cleanedWord, "0123456789.,"); unit != cleanedWord {
 			translations, _ := translateWord(ld, unit)
 			hasFreshness = hasFreshness || slices.ContainsFunc(translations, freshnessWords.Contain)
 		}
-- 
2.43.0


From 975cca1df67f6265e6df761eb8768177566af207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:24 +0000
Subject: [PATCH 58/70] fix: keep am behind the hours of complete dates in
 searches

---
 search.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/search.go b/search.go
index a798ea9..a4d8e28 100644
--- a/search.go
+++ b/search.go
@@ -20,7 +20,7 @@ import (
 
 var (
 	splitters     = []string{",", "،", "——", "—", "–", ".", " "}
-	rxClockOrAm   = regexp.MustCompile(`((?::\d\d(?:[.:]\d+)*|\d{4}\D{0,5}\d{1,2})\s*am)|am`)
+	rxClockOrAm   = regexp.MustCompile(`(:\d\d(?:[.:]\d+)*\s*am\b|\b\d{4}\b.*\d\s*am\b)|(\d)\s*am\b|\bam\b`)
 	relativeWords = []string{"ago", "in", "from now", "tomorrow", "today", "yesterday"}
 )
 
@@ -251,7 +251,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 func (p *Parser) parseEntry(iCfg *setting.Configuration, languages []string, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
-	entry = rxClockOrAm.ReplaceAllString(entry, "$1")
+	entry = rxClockOrAm.ReplaceAllString(entry, "$1$2")
 
 	// Parse entry
 	cfg := configFromInternal(iCfg)
-- 
2.43.0


From 28b543f4ad912ab3b4790c64116a5980e67d342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:42 +0000
Subject: [PATCH 59/70] fix: keep abbreviated months with a period in the
 sentence of searches

---
 internal/language/00-constant.go |  1 +
 internal/language/split.go       | 31 +++++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index 11feeeb..429244f 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -55,6 +55,7 @@ var (
 	dashes             = strutil.NewDict("-", "——", "—", "～")
 	alwaysKeptTokens   = strutil.NewDict("+", ":", ".", " ", "-", "/")
 	freshnessWords     = strutil.NewDict("decade", "day", "week", "month", "year", "hour", "minute", "second")
+	monthNames         = strutil.NewDict("january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december")
 	langWithDigitAbbrs = strutil.NewDict("fi", "cs", "hu", "de", "da", "hr", "bs", "bs-Latn", "bs-Cyrl", "sr", "sr-Latn", "sr-Cyrl", "sk", "sl", "nb", "nn", "et", "lv", "is", "fo", "smn", "lb", "hsb", "dsb", "gsw", "ksh")
 	commonCharset      = rangetable.New([]rune(`0123456789()\-/.,:' `)...)
 )
diff --git a/internal/language/split.go b/internal/language/split.go
index badb547..9a2430a 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -79,6 +79,11 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 			continue
 		}
 
+		// If it's a short name of month in front of a number, continue
+		if strings.Trim(str[pos[3]:pos[1]], " \t") == "." && startsWithDigit(str[pos[1]:]) && isShortMonth(ld, eos) {
+			continue
+		}
+
 		// If this language use digit abbreviation, make sure end of sentence is not number
 		if useDigitAbbrs && strutil.IsNumberOnly(strutil.TrimChars(eos, `([{"'`)) {
 			continue
@@ -107,6 +112,32 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 	return sentences
 }
 
+func startsWithDigit(s string) bool {
+	r, _ := utf8.DecodeRuneInString(s)
+	return unicode.IsDigit(r)
+}
+
+// isShortMonth checks if the word is the beginning of a longer month name.
+func isShortMonth(ld *data.LocaleData, word string) bool {
+	word = strings.ToLower(strutil.NormalizeString(word))
+	translations := ld.Translations[word]
+	if n := utf8.RuneCountInString(word); n < 3 || n > 5 {
+		return false
+	}
+
+	isSameMonth := func(s string) bool {
+		return monthNames.Contain(s) && slices.Contains(translations, s)
+	}
+
+	for name, others := range ld.Translations {
+		if len(name) > len(word) && strings.HasPrefix(name, word) && slices.ContainsFunc(others, isSameMonth) {
+			return true
+		}
+	}
+
+	return false
+}
+
 // numbersWithPeriod looks for dates like "28.11.2013" and amounts like "2.5 years", whose periods
 // are not the end of a sentence.
 func numbersWithPeriod(ld *data.LocaleData, str string) [][]int {
-- 
2.43.0


From 0c335525d99afeb4df858ace7ad78c8a062a109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:36 +0000
Subject: [PATCH 60/70] fix: keep abbreviated months with a period in front of
 a preposition in the sentence of searches

---
 internal/language/split.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/language/split.go b/internal/language/split.go
index 9a2430a..49f59a0 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -80,7 +80,7 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 		}
 
 		// If it's a short name of month in front of a number, continue
-		if strings.Trim(str[pos[3]:pos[1]], " \t") == "." && startsWithDigit(str[pos[1]:]) && isShortMonth(ld, eos) {
+		if strings.Trim(str[pos[3]:pos[1]], " \t") == "." && startsWithNumber(ld, str[pos[1]:]) && isShortMonth(ld, eos) {
 			continue
 		}
 
@@ -112,14 +112,24 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 	return sentences
 }
 
-func startsWithDigit(s string) bool {
-	r, _ := utf8.DecodeRuneInString(s)
+// startsWithNumber checks if there is a number at the beginning, maybe behind a word without
+// meaning as in "de 2013".
+func startsWithNumber(ld *data.LocaleData, str string) bool {
+	if word, rest, found := strings.Cut(str, " "); found {
+		translations, exist := translateWord(ld, strings.ToLower(word))
+		if exist && !slices.ContainsFunc(translations, func(s string) bool { return s != "" }) {
+			str = strings.TrimLeft(rest, " ")
+		}
+	}
+
+	r, _ := utf8.DecodeRuneInString(str)
 	return unicode.IsDigit(r)
 }
 
 // isShortMonth checks if the word is the beginning of a longer month name.
 func isShortMonth(ld *data.LocaleData, word string) bool {
-	word = strings.ToLower(strutil.NormalizeString(word))
+	word = strings.ToLower(strutil.NormalizeString(strutil.NormalizeAposthrope(word)))
+	word = word[strings.LastIndex(word, "'")+1:] // d'oct
 	translations := ld.Translations[word]
 	if n := utf8.RuneCountInString(word); n < 3 || n > 5 {
 		return false
-- 
2.43.0


From d4fd0fe8910e2e3cb60268e2aa7c7d7ad444628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:20 +0000
Subject: [PATCH 61/70] fix: translate phrases in parentheses in searches

---
 internal/language/translate-search.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index e391b31..5487ce3 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -113,24 +113,26 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 }
 
 // translateWords looks for the longest name of several words, e.g. "day before yesterday" or
-// "in 2 weeks", that starts with the first of the words. It might be followed by punctuation.
+// "in 2 weeks", that starts with the first of the words. It might be surrounded by punctuation.
 func translateWords(ld *data.LocaleData, words []string) (int, []string) {
 	for n := min(maxWords, len(words)); n > 1; n-- {
 		joined := joinChunk(ld, words[:n]...)
-		cleaned := strings.TrimRight(joined, `)"'}],.،`)
+		rightCleaned := strings.TrimRight(joined, `)"'}],.،`)
+		cleaned := strings.TrimLeft(rightCleaned, `("{[`)
 		if words[n-1] == " " {
 			continue
 		}
 
-		for _, str := range []string{joined, cleaned} {
+		for _, str := range []string{joined, rightCleaned, cleaned} {
 			translations, exist := translateAmount(ld, str)
 			if !exist && (!ld.NoWordSpacing || n == 2) && ld.Name != "zh" && ld.Name != "ja" {
 				translations, exist = translateWord(ld, str)
 			}
 
 			if exist {
+				prefix, suffix, _ := strings.Cut(joined, str)
 				for i := range translations {
-					translations[i] += strings.TrimPrefix(joined, str)
+					translations[i] = prefix + translations[i] + suffix
 				}
 				return n, translations
 			}
-- 
2.43.0


From be1b9b820fe4501414d0edcbb3e99260dd943861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:45 +0000
Subject: [PATCH 62/70] fix: don't read a time as date without separators when
 a date follows

---
 internal/parser/nospace/constants.go | 2 +-
 internal/parser/nospace/parser.go    | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/parser/nospace/constants.go b/internal/parser/nospace/constants.go
index d130058..4f384e4 100644
--- a/internal/parser/nospace/constants.go
+++ b/internal/parser/nospace/constants.go
@@ -13,7 +13,7 @@ import (
 )
 
 var (
-	rxCompatible = regexp.MustCompile(`\D+`)
+	rxCompatible = regexp.MustCompile(`^\d*(?::\d+)*:?(?:\.\d+)?$`)
 	rxNonOrder   = regexp.MustCompile(`[^dmy]`)
 	rxFullDate   = regexp.MustCompile(`^\s*\d{6}`)
 	rxEightDigit = regexp.MustCompile(`^\d{8}$`)
diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index 4d34eb7..8ed04a3 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -113,8 +113,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 }
 
 func isEligible(str string) bool {
-	match := rxCompatible.FindString(str)
-	return match == "" || match == ":"
+	return rxCompatible.MatchString(str)
 }
 
 func findBestMatchingDate(str string) date.Date {
-- 
2.43.0


From 2a891db90fa2e7feea855d3a8284160ea65837ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:26 +0000
Subject: [PATCH 63/70] fix: accept AM and PM in front of a time

---
 internal/parser/absolute/parser.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 05abb58..78eade1 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -21,6 +21,8 @@ var (
 	rxMicrosecond = regexp.MustCompile(`\d{1,6}`)
 	rxMeridian    = regexp.MustCompile(`(?i)am|pm`)
 
+	rxOnlyMeridian = regexp.MustCompile(`(?i)^(?:am|pm)$`)
+
 	alphaDirectives = map[string][]string{
 		"weekday": {"Monday", "Mon"},
 		"month":   {"January", "Jan"},
@@ -113,6 +115,27 @@ func (p *Parser) Init(str string) error {
 		}
 	}
 
+	// In some languages the meridian is in front of the time, e.g. "PM 5:06"
+	for i := 0; i+1 < len(p.FilteredTokens); i++ {
+		isTime := strings.Contains(p.FilteredTokens[i+1].Text, ":")
+		afterTime := i > 0 && strings.Contains(p.FilteredTokens[i-1].Text, ":")
+		if !isTime || afterTime || !rxOnlyMeridian.MatchString(p.FilteredTokens[i].Text) {
+			continue
+		}
+
+		// Move the meridian behind the time and its fraction, if there is any
+		end := i + 1
+		period, _ := p.getToken(p.FilteredTokens[end].OriginalIndex + 1)
+		fraction, exist := p.getFilteredToken(end + 1)
+		if exist && period.Text == "." && fraction.OriginalIndex == p.FilteredTokens[end].OriginalIndex+2 {
+			end++
+		}
+
+		meridian := p.FilteredTokens[i]
+		copy(p.FilteredTokens[i:end], p.FilteredTokens[i+1:end+1])
+		p.FilteredTokens[end] = meridian
+	}
+
 	// Prepare list of number directives
 	if cfg != nil {
 		for _, char := range strings.ToLower(cfg.DateOrder) {
-- 
2.43.0


From 2d70987e89356b618030b1c44e157727af43d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:37 +0000
Subject: [PATCH 64/70] fix: match whole phrase of relative types in regional
 locales

---
 internal/language/translate-search.go | 14 +++++-----
 internal/language/translate.go        | 38 ++++++++++++++++++++++-----
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 5487ce3..bbd88a5 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -148,16 +148,14 @@ func translateAmount(ld *data.LocaleData, str string) ([]string, bool) {
 		return nil, false
 	}
 
-	for _, data := range ld.RelativeTypeRegexes {
-		if data.Rx.MatchString(str) {
-			translation := data.Rx.ReplaceAllString(str, data.Replacement)
-			// Without spaces between the words, only the future needs the whole phrase
-			isFuture := strings.HasPrefix(translation, "in ")
-			return []string{translation}, isFuture || !ld.NoWordSpacing
-		}
+	translation, exist := translateRelativeType(ld, str)
+	if !exist {
+		return nil, false
 	}
 
-	return nil, false
+	// Without spaces between the words, only the future needs the whole phrase
+	isFuture := strings.HasPrefix(translation, "in ")
+	return []string{translation}, isFuture || !ld.NoWordSpacing
 }
 
 func simplifySplitAlign(ld *data.LocaleData, str string, skippedTokens strutil.Dict) ([]string, []string) {
diff --git a/internal/language/translate.go b/internal/language/translate.go
index 5a3b5e1..3d48f44 100644
--- a/internal/language/translate.go
+++ b/internal/language/translate.go
@@ -35,13 +35,9 @@ func Translate(cfg *setting.Configuration, ld *data.LocaleData, str string, keep
 
 		// Try to use regex to translate relative type
 		var translationFound bool
-		for _, data := range ld.RelativeTypeRegexes {
-			if data.Rx.MatchString(token) {
-				translation := data.Rx.ReplaceAllString(token, data.Replacement)
-				translatedTokens[i] = []string{translation}
-				translationFound = true
-				break
-			}
+		if translation, exist := translateRelativeType(ld, token); exist {
+			translatedTokens[i] = []string{translation}
+			translationFound = true
 		}
 
 		// If not found, look in dictionary
@@ -146,3 +142,31 @@ func clearFutureWords(ld *data.LocaleData, words []string) []string {
 
 	return words
 }
+
+// translateRelativeType translates string that matches a regex of the relative types. The
+// regex that matches the whole string comes first, so words that start with another one
+// (e.g. "semanas" and "s") are not mistaken for it.
+func translateRelativeType(ld *data.LocaleData, str string) (string, bool) {
+	var partial *data.ReplacementData
+	for i := range ld.RelativeTypeRegexes {
+		rd := &ld.RelativeTypeRegexes[i]
+		loc := rd.Rx.FindStringIndex(str)
+		if loc == nil {
+			continue
+		}
+
+		if loc[0] == 0 && loc[1] == len(str) {
+			return rd.Rx.ReplaceAllString(str, rd.Replacement), true
+		}
+
+		if partial == nil {
+			partial = rd
+		}
+	}
+
+	if partial == nil {
+		return "", false
+	}
+
+	return partial.Rx.ReplaceAllString(str, partial.Replacement), true
+}
-- 
2.43.0


From 49eef853becbca76e394d8ebed78d46b40b1fad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:00 +0000
Subject: [PATCH 65/70] fix: keep the amount of hours in Belarusian

---
 data-supplementary/date-translation/be.yaml | 1 +
 internal/data/be.go                         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/data-supplementary/date-translation/be.yaml b/data-supplementary/date-translation/be.yaml
index 6b3005f..c5ddc3b 100644
--- a/data-supplementary/date-translation/be.yaml
+++ b/data-supplementary/date-translation/be.yaml
@@ -85,6 +85,7 @@ relative-type:
 simplifications:
   - ^гадзіна: 1 гадзіна
   - гадзіну: 1 гадзіну
+  - (\d+[.,]?\d*)\s+1 гадзіну: \1 гадзіну
   - ^хвіліну: 1 хвіліну
   - ^секунду: 1 секунду
   - некалькі секунд: 44 секунды
diff --git a/internal/data/be.go b/internal/data/be.go
index 1c2b2f0..af77fea 100755
--- a/internal/data/be.go
+++ b/internal/data/be.go
@@ -17,6 +17,7 @@ func init() {
 		Simplifications: []ReplacementData{
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])^гадзіна(\z|[^\pL\pM\d_])`), "${1}1 гадзіна${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])гадзіну(\z|[^\pL\pM\d_])`), "${1}1 гадзіну${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*)\s+1 гадзіну(\z|[^\pL\pM\d_])`), "${1}${2} гадзіну${3}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])^хвіліну(\z|[^\pL\pM\d_])`), "${1}1 хвіліну${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])^секунду(\z|[^\pL\pM\d_])`), "${1}1 секунду${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])некалькі секунд(\z|[^\pL\pM\d_])`), "${1}44 секунды${2}"},
-- 
2.43.0


From b1c2345ba3cacdf811c37b5ebc6ca6341c90eee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:46 +0000
Subject: [PATCH 66/70] fix: don't read what follows the period of a sentence
 as fraction of a second

---
 internal/parser/absolute/parser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 78eade1..d234d44 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -95,7 +95,9 @@ func (p *Parser) Init(str string) error {
 	}
 
 	tokens := tokenizer.Tokenize(str)
+	beforeSpace := make([]bool, len(tokens))
 	for i := range tokens {
+		beforeSpace[i] = strings.HasSuffix(tokens[i].Text, " ")
 		tokens[i].Text = strings.TrimSpace(tokens[i].Text)
 	}
 
@@ -125,9 +127,10 @@ func (p *Parser) Init(str string) error {
 
 		// Move the meridian behind the time and its fraction, if there is any
 		end := i + 1
-		period, _ := p.getToken(p.FilteredTokens[end].OriginalIndex + 1)
+		periodIndex := p.FilteredTokens[end].OriginalIndex + 1
+		period, _ := p.getToken(periodIndex)
 		fraction, exist := p.getFilteredToken(end + 1)
-		if exist && period.Text == "." && fraction.OriginalIndex == p.FilteredTokens[end].OriginalIndex+2 {
+		if exist && period.Text == "." && !beforeSpace[periodIndex] && fraction.OriginalIndex == periodIndex+1 {
 			end++
 		}
 
@@ -210,8 +213,9 @@ func (p *Parser) Init(str string) error {
 
 				nextOriginalToken, _ := p.getToken(nextOriginalIndex + 1)
 
+				// Period in front of a space is the end of a sentence, not of the seconds
 				if strings.Contains(filteredToken.Text, ":") &&
-					strings.Contains(nextOriginalToken.Text, ".") {
+					strings.Contains(nextOriginalToken.Text, ".") && !beforeSpace[nextOriginalIndex+1] {
 					microsecond = rxMicrosecond.FindString(nextFilteredToken.Text)
 				}
 			}
-- 
2.43.0


From 77875157464eaae3440bcd234342c069abbc6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:07 +0000
Subject: [PATCH 67/70] fix: split sentences in searches at the full stops and
 line breaks of more languages

---
 internal/language/00-constant.go | 11 ++++++-----
 internal/language/split.go       |  5 +++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index 429244f..01eb1c0 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -38,18 +38,19 @@ var (
 	)
 
 	rxSentenceSplitters = map[int]*regexp.Regexp{
-		// The most common splitter, used in European, Tagalog, Hebrew, Georgian, Indonesian, Vietnamese
-		1: regexp.MustCompile(`([^\s.]*)[\.!?;…\r\n]+(?:\s|$)*`),
+		// The most common splitter, used in European, Tagalog, Hebrew, Georgian, Indonesian, Vietnamese,
+		// and in every language without its own splitter (e.g. Urdu, Nepali, Amharic, Burmese)
+		1: regexp.MustCompile(`([^\s.]*)[\.!?;…؟؛۔।॥።။\r\n]+(?:\s|$)*`),
 		// Splitter for Spanish
 		2: regexp.MustCompile(`([^\s.]*)[\.!?;…\r\n]+(\s*[¡¿]*|$)|[¡¿]+`),
 		// Splitter for Hindi and Bangla
-		3: regexp.MustCompile(`([^\s.]*)[|!?;\r\n]+(?:\s|$)+`),
+		3: regexp.MustCompile(`([^\s.|!?;।॥]*)(?:[।॥\r\n]+|[|!?;]+(?:\s|$))\s*`),
 		// Splitter for Japanese and Chinese
-		4: regexp.MustCompile(`([^\s.]*)[。…‥\.!?？！;\r\n]+(?:\s|$)+`),
+		4: regexp.MustCompile(`([^\s.。‥…!?？！;]*)(?:[。‥…？！\r\n]+|[\.!?;]+(?:\s|$))\s*`),
 		// Splitter for Thai
 		5: regexp.MustCompile(`([^\s.]*)[\r\n]+`),
 		// Splitter for Arabic and Farsi
-		6: regexp.MustCompile(`([^\s.]*)[\r\n؟!\.…]+(?:\s|$)+`),
+		6: regexp.MustCompile(`([^\s.؟؛!…]*)(?:[؟؛\r\n]+|[!\.…]+(?:\s|$))\s*`),
 	}
 
 	dashes             = strutil.NewDict("-", "——", "—", "～")
diff --git a/internal/language/split.go b/internal/language/split.go
index 49f59a0..fe176be 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -80,12 +80,13 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 		}
 
 		// If it's a short name of month in front of a number, continue
-		if strings.Trim(str[pos[3]:pos[1]], " \t") == "." && startsWithNumber(ld, str[pos[1]:]) && isShortMonth(ld, eos) {
+		isPeriod := strings.Trim(str[pos[3]:pos[1]], " \t") == "."
+		if isPeriod && startsWithNumber(ld, str[pos[1]:]) && isShortMonth(ld, eos) {
 			continue
 		}
 
 		// If this language use digit abbreviation, make sure end of sentence is not number
-		if useDigitAbbrs && strutil.IsNumberOnly(strutil.TrimChars(eos, `([{"'`)) {
+		if useDigitAbbrs && isPeriod && strutil.IsNumberOnly(strutil.TrimChars(eos, `([{"'`)) {
 			continue
 		}
 
-- 
2.43.0


From 0f8033da5b22cfd55a3f66d9efc17a77df9dfecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:33 +0000
Subject: [PATCH 68/70] fix: compute dates in UTC until they are complete, so
 that no intermediate date is one that clocks skip

---
 internal/parser/absolute/parser.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index d234d44..277acf9 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -315,12 +315,9 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 	}
 
 	// Fetch datetime parameters
-	// If there is a timezone it will be applied later to the wall clock, which
-	// might not exist in the location of current time, so use UTC meanwhile.
-	dtLocation := p.Now.Location()
-	if !tz.IsZero() || (p.Config != nil && p.Config.DefaultTimezone != nil) {
-		dtLocation = time.UTC
-	}
+	// The wall clock of an intermediate date might not exist in the location of current
+	// time or in the timezone that is applied later, so use UTC meanwhile.
+	dtLocation := time.UTC
 
 	dtParams := p.FnGetDateTimeParams(p)
 	if !p.ParsedTime.IsZero() {
@@ -361,6 +358,11 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 		dt = p.correctForDay(dt)
 	}
 
+	// Without any timezone the date is in the location of current time
+	if tz.IsZero() && (p.Config == nil || p.Config.DefaultTimezone == nil) {
+		dt = p.inLocation(dt, tz)
+	}
+
 	// Get the period of this date
 	returnTimeAsPeriod := p.Config != nil && p.Config.ReturnTimeAsPeriod
 
@@ -598,7 +600,7 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 // inLocation returns the moment of the wall clock, which is in the popped timezone,
 // the default one, or in the location of current time, in that order.
 func (p *Parser) inLocation(t time.Time, tz timezone.OffsetData) time.Time {
-	loc := t.Location()
+	loc := p.Now.Location()
 	if !tz.IsZero() {
 		loc = time.FixedZone(tz.Name, tz.Offset)
 	} else if p.Config != nil && p.Config.DefaultTimezone != nil {
-- 
2.43.0


From 6b4ab5acece0403c872d291fe17daa0d37fb253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:41 +0000
Subject: [PATCH 69/70] fix: keep the Vietnamese word for day in searches,
 which relative dates need

---
 search.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/search.go b/search.go
index a4d8e28..f71eeeb 100644
--- a/search.go
+++ b/search.go
@@ -250,7 +250,6 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 
 func (p *Parser) parseEntry(iCfg *setting.Configuration, languages []string, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
-	entry = strings.ReplaceAll(entry, "ngày", "")
 	entry = rxClockOrAm.ReplaceAllString(entry, "$1$2")
 
 	// Parse entry
-- 
2.43.0


From 9f50e77b7ff48b4f2b2e29b58aaeb91011d0d61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:05 +0000
Subject: [PATCH 70/70] fix: end sentences at line breaks behind abbreviations

---
 internal/language/split.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/language/split.go b/internal/language/split.go
index fe176be..4a018d4 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -75,12 +75,12 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 		eos := str[pos[2]:pos[3]]
 
 		// If end of sentence is abbreviation, continue
-		if isAbbreviation(eos) {
+		isPeriod := strings.Trim(str[pos[3]:pos[1]], " \t") == "."
+		if isPeriod && isAbbreviation(eos) {
 			continue
 		}
 
 		// If it's a short name of month in front of a number, continue
-		isPeriod := strings.Trim(str[pos[3]:pos[1]], " \t") == "."
 		if isPeriod && startsWithNumber(ld, str[pos[1]:]) && isShortMonth(ld, eos) {
 			continue
 		}
-- 
2.43.0

