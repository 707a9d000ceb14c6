#!/usr/bin/env python3
# Source of properties.jsonl: edit here, then run to regenerate the file.
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
API=["Parser.Parse","Parser.Search","Parser.SearchWithLanguage","ParseJalali","ParseHijri","PopTzOffset"]

p("P01","Every entry point returns for every input, with bounded work",
 "For every string (any bytes, any length, any mix of languages), configuration and list of layouts, Parse, Search, SearchWithLanguage, ParseJalali, ParseHijri and PopTzOffset return: they never panic, never hang and never crash the process. The work done for a call grows moderately with the length of the string: no string makes it grow exponentially.",
 ["inputs","configurations"],"all strings, configurations and layouts given to the six entry points",
 "Tests give a few thousand well-formed dates; a panic, an endless loop or an exponential blow-up hides in strings and configurations nobody wrote a test for.",
 ["parser.go","search.go","internal/language/utils.go","internal/language/translate.go","internal/language/translate-search.go","internal/language/split.go","internal/parser/hijri/parser.go","internal/parser/jalali/parser.go","internal/parser/absolute/parser.go","internal/parser/nospace/constants.go"],
 [("bounds checks on tokens and parts","internal/parser/absolute/parser.go getToken/getFilteredToken"),("limit on translation permutations","internal/language/utils.go createPermutation"),("calendar range checks","internal/parser/hijri/parser.go createDateTime")],API)
p("P02","A call returns either an error or a complete date, never both or neither",
 "Parse, ParseJalali and ParseHijri return exactly one of a non-nil error with the zero date, or a nil error with a non-zero time, a period that is one of the six defined values and, for Parse without layouts, the code of a known locale. Without ReturnTimeAsPeriod the period is Day, Month or Year. Every item of a search has a non-zero date, and the language it was searched with as its locale.",
 ["inputs","configurations"],"all strings, configurations and layouts",
 "Tests compare fields of expected dates; they do not look at the error/date/period/locale combination for arbitrary input.",
 ["parser.go","search.go","date/date.go","jalali-parser.go","hijri-parser.go"],
 [("first non-zero date wins, otherwise an error","parser.go Parser.Parse"),("zero results are dropped","search.go parseFoundObjects"),("period is coarsened","internal/parser/relative/parser.go Parse, internal/parser/absolute/parser.go Parse")],API)
p("P03","The same call gives the same result, whatever happened before",
 "With TryPreviousLocales off, the result of a call (date, locale, period, offset or error) depends only on the configuration, the string and the layouts. It is the same on every repetition, on a new or a long used Parser or the package level functions, after any sequence of other calls including searches and failed calls, and in every process.",
 ["histories","inputs","configurations"],"all sequences of calls on a Parser and all process starts (Go randomises map iteration and hash seeds)",
 "Each test runs in one process with one order of calls; dependence on map iteration order or on what an earlier call left behind shows only over many processes and histories.",
 ["parser.go","search.go","root.go","internal/timezone/tz-offsets.go","internal/language/languages.go","internal/language/loader.go","internal/parser/absolute/parser.go"],
 [("fixed processing order of timezone patterns","internal/timezone/tz-offsets.go"),("sorting with a total order","internal/language/loader.go GetLocales"),("configuration is cloned per call","config.go initiate"),("charsets regenerated when the languages change","search.go initUniqueCharsets")],API,
 [("usedLocales","locales remembered by a Parser","parser.go Parser"),("uniqueCharsets","charsets cached by a Parser","parser.go Parser"),("shared locale data","tables shared by all Parsers, must never be changed by a call","internal/data")])
p("P04","The host clock and host time zone only matter when no CurrentTime is given",
 "When CurrentTime is given, the wall clock of the host and its local time zone have no influence on the returned instant or period. When it is not given, incomplete and relative strings are interpreted relative to the current date and time in UTC (not the host's zone).",
 ["configurations","inputs"],"all host clocks (from year 2001) and host zones, all configurations",
 "Tests run under one host zone and at one moment; a stray time.Now() or time.Local gives the expected result there.",
 ["config.go","internal/parser/relative/parser.go","internal/parser/absolute/parser.go","internal/parser/formatted/parser.go","internal/parser/common/apply-day.go","internal/parser/common/apply-month.go","internal/parser/timestamp/parser.go","internal/parser/nospace/constants.go"],
 [("CurrentTime defaults to time.Now().UTC()","config.go initiate"),("CurrentTime is preferred over the clock","internal/parser/*/parser.go")],["Parser.Parse","ParseJalali","ParseHijri"])
p("P05","Concurrent use is race free and gives the sequential results",
 "Any number of goroutines may use one Parser, different Parsers and the package level functions at the same time, for parsing and searching with different configurations. There is no data race, no deadlock, and every call gives the result it gives when it runs alone.",
 ["schedules","histories"],"all interleavings of calls from many goroutines on shared and separate Parsers",
 "The existing tests are sequential and are not run with the race detector.",
 ["parser.go","search.go","root.go","internal/data","internal/language/utils.go"],
 [("Parser mutex","parser.go Parser.Parse, search.go initUniqueCharsets"),("shared tables are cloned before they are changed","internal/language/utils.go translateWord")],API,
 [("usedLocales, uniqueCharsets","state of a Parser, guarded by its mutex","parser.go Parser"),("locale tables","shared by all Parsers, read only","internal/data")])
p("P06","Caller's data is never modified, and Clone is a complete separate copy",
 "No call modifies the Configuration it is given, the slices in it or the list of layouts, whether it succeeds or fails. Configuration.Clone returns an equal configuration in every field, and changing the elements of any of its slices does not change the original and vice versa.",
 ["inputs","configurations"],"all configurations and strings",
 "Tests never look at the configuration after a call.",
 ["config.go","parser.go","search.go","internal/setting/config.go","internal/language/languages.go"],
 [("clone before defaults are filled in","config.go initiate and Clone"),("slices cloned before sorting","internal/language/languages.go GetLanguages")],["Configuration after each call","Configuration.Clone"])
p("P07","A complete date in English or ISO notation is returned exactly",
 "A string that states a full valid Gregorian date (years 1000-9999, the month written in full, abbreviated or as number, with ordinal suffix, weekday, comma, slash, dash, dot or ISO 8601 notation) and optionally a time (24 or 12 hour clock, with or without seconds and fraction down to microseconds) is returned as exactly that date and time, with nothing shifted, clamped or swapped. An absent time is midnight. (Only a year 1000, 1100 or 1200 after a dash may instead be read as a zone offset.)",
 ["inputs","configurations"],"all valid dates from year 1000 to 9999 and all times, in every listed notation",
 "Tests list about a hundred dates; off by one, month length, leap year, noon/midnight and token order errors affect dates that are not among them.",
 ["internal/parser/absolute/parser.go","internal/parser/absolute/root.go","internal/parser/common/time.go","internal/parser/tokenizer/tokenizer.go","internal/strutil/strutil.go","internal/data"],
 [("token by token parsing with directives","internal/parser/absolute/parser.go Init"),("time formats","internal/parser/common/time.go ParseTime")],["Parser.Parse"])
p("P08","Ambiguous numeric dates follow the date order",
 "When a numeric date can be read in several ways, a valid DateOrder of the configuration (called with the locale code, letters in any case) decides which number is day, month and year; an invalid one is ignored. Without it the order of the locale decides, as documented per language. A time of day in front of or behind the date changes nothing about that. Numbers that the order cannot place give an error or a date made of exactly these numbers, never one with a number lost, clamped or carried over into another month or year. With several locales each one is tried in its own order.",
 ["inputs","configurations"],"all numeric dates, all six orders, per-locale order functions, and all 205 languages and their regional locales",
 "Tests check a few dates for a few orders and languages.",
 ["parser.go","config.go","internal/parser/absolute/parser.go","internal/data","search.go"],
 [("override per locale, then locale order","parser.go Parser.Parse"),("validation of the order","parser.go validateDateOrder"),("number directives in order","internal/parser/absolute/parser.go Init")],["Parser.Parse","Parser.Search"])
p("P09","Month and weekday names of every language keep their meaning",
 "For every supported locale, a complete date written with that locale's month name (full or abbreviated, and optionally with its weekday name) is returned as exactly that date when parsed with that locale; the names that are unambiguous are also understood without naming the locale. A weekday name alone gives the last such day up to the current time.",
 ["inputs","configurations"],"all locales, their month and weekday names, and all valid days and years",
 "Tests have a handful of dates per language for about 60 languages; the tables have over 500 locales.",
 ["internal/data","internal/language/translate.go","internal/language/split.go","internal/language/applicable-check.go","internal/language/loader.go","internal/strutil/strutil.go"],
 [("locale tables","internal/data"),("tokenising and translation","internal/language/translate.go Translate"),("normalisation","internal/strutil/strutil.go")],["Parser.Parse"])
p("P10","Relative dates are exact calendar arithmetic on CurrentTime",
 "English phrases made of amounts (whole or fractional, up to 200 years) of decades, years, months, weeks, days, hours, minutes and seconds, with \"ago\" or \"in\", are CurrentTime minus or plus exactly these amounts: calendar arithmetic for days and larger units, elapsed time for smaller ones, and PreserveEndOfMonth keeps the result in the target month; a fraction of a year counts in months, and one of a month in days of which it has 30. A phrase without direction is in the past unless PreferredDateSource is Future; an explicit time of day in the phrase replaces the time; \"now\", \"today\", \"yesterday\" and \"tomorrow\" are offsets of zero and one day.",
 ["inputs","configurations"],"all amounts, combinations and spellings of units, directions, current times, and zones",
 "Tests use a few amounts around one fixed current time.",
 ["internal/parser/relative/parser.go","internal/language/translate.go","internal/data"],
 [("duration extraction and fractions","internal/parser/relative/parser.go getRelativeDurations"),("direction","internal/parser/relative/parser.go parseDate"),("end of month","internal/parser/relative/parser.go addDate")],["Parser.Parse"])
p("P11","Relative phrases of every language keep their meaning",
 "For every supported locale, its relative phrases (such as its words for yesterday or tomorrow, this, last and next day, week, month and year, and \"N units ago\" and \"in N units\" for every N) are returned as CurrentTime shifted by exactly that amount in that direction, when parsed with that locale. (Phrases without direction are in the past, so PreferredDateSource is not Future here.)",
 ["inputs","configurations"],"all locales, their fixed relative phrases and numbered patterns, and all numbers",
 "Tests have a few phrases per language with one number each.",
 ["internal/data","internal/language/translate.go","internal/language/split.go","internal/parser/relative/parser.go"],
 [("relative tables and patterns","internal/data RelativeType, RelativeTypeRegexes"),("translation","internal/language/translate.go Translate")],["Parser.Parse"])
p("P12","Time zones in the string, then DefaultTimezone, fix the offset",
 "A known UTC offset (+hh:mm, +hhmm, UTC or GMT with an offset) or zone abbreviation at the end of a complete date and time gives the stated wall clock at exactly that offset. Otherwise DefaultTimezone applies, with the offset in force there at that wall clock; otherwise the zone of CurrentTime (UTC when absent). PopTzOffset returns the known zone's name and offset and the string without it, and leaves a string that has no zone unchanged with an empty name.",
 ["inputs","configurations"],"all known offsets and abbreviations in each notation, IANA zones around DST changes, all dates",
 "Tests cover some abbreviations and offsets, and one or two default zones away from DST changes.",
 ["internal/timezone/timezones.go","internal/timezone/tz-offsets.go","internal/timezone/parser.go","parser.go","root.go","internal/parser/relative/parser.go","internal/parser/formatted/parser.go"],
 [("pattern table","internal/timezone/timezones.go"),("offset is popped then applied","parser.go stripBracesAndTimezones, applyTimezone")],["Parser.Parse","PopTzOffset"])
p("P13","Missing day, month and year are filled as configured",
 "A missing year is the year of CurrentTime; a missing day is the day of CurrentTime, or, when no time of day is stated, the first or last day of the month with PreferredDayOfMonth, clamped to the length of the month; a missing month of a string with a year is the month of CurrentTime, or January or December with PreferredMonthOfYear. What the string states is never changed, except that February 29 without a year goes to the nearest leap year (the earlier one of two); a stated day that the stated month does not have is an error. A time or nothing else keeps the date of CurrentTime.",
 ["inputs","configurations"],"all partial dates, all current times (month ends, leap years), and all preferences",
 "Tests use one current time and few strings per option.",
 ["internal/parser/absolute/parser.go","internal/parser/absolute/root.go","internal/parser/common/apply-day.go","internal/parser/common/apply-month.go","internal/dateutil/dateutil.go"],
 [("defaults from now","internal/parser/absolute/root.go getDateTimeParams"),("corrections","internal/parser/absolute/parser.go correctForDay, correctForMonth"),("leap year search","internal/parser/absolute/parser.go getCorrectLeapYear")],["Parser.Parse"])
p("P14","PreferredDateSource puts incomplete dates on the wanted side of now",
 "With Past, a date without year, a weekday alone or a time alone is the latest such moment that is not after CurrentTime; with Future it is the earliest one that is not before it (a weekday equal to today's is a full week away). With two-digit years the century is moved likewise by one. Jalali and Hijri dates do so with their own years and centuries. Current year and day are those where CurrentTime is. The default keeps the current year, the last such weekday up to today, the current day for a time, and complete dates are never moved.",
 ["inputs","configurations"],"all partial dates, weekdays and times, all current times and zones (in the string, default or of CurrentTime)",
 "Tests use few current times and no zones near the boundary where past turns into future.",
 ["internal/parser/absolute/parser.go"],
 [("correction for time frame","internal/parser/absolute/parser.go correctForTimeFrame")],["Parser.Parse"])
p("P15","StrictParsing and RequiredParts reject exactly the incomplete dates",
 "With StrictParsing an absolute date is accepted only if its string states day, month and year; with RequiredParts only if it states each required part. Complete strings give the same result as without these options, and strings that lack a required part give an error instead of a made up date.",
 ["inputs","configurations"],"all strings built from day, month, year, weekday and time parts, in several languages; all subsets of required parts",
 "Tests have a few strings; RequiredParts could not even be used through the public API.",
 ["internal/parser/common/strict-check.go","internal/parser/absolute/parser.go","internal/parser/nospace/parser.go","config.go"],
 [("missing parts check","internal/parser/common/strict-check.go CheckStrictParsing")],["Parser.Parse"])
p("P16","The period tells the finest part the string states",
 "Period is Day when the string states a day (or weekday or time alone), Month when month is the finest stated part, Year when only a year is stated; for relative phrases it is the smallest calendar unit mentioned (weeks and smaller are Day). With ReturnTimeAsPeriod a stated time of day, timestamp or relative hour, minute or second gives Hour, Minute or Second according to its finest stated part.",
 ["inputs","configurations"],"all strings built from stated parts, relative units, time formats, timestamps and layouts",
 "Tests check the period of a few strings.",
 ["internal/parser/absolute/parser.go","internal/parser/relative/parser.go","internal/parser/common/time.go","internal/parser/timestamp/parser.go","internal/parser/formatted/parser.go","internal/parser/nospace/parser.go","date/date.go"],
 [("period from stated parts","internal/parser/absolute/parser.go getPeriod"),("period from units","internal/parser/relative/parser.go parseDate")],["Parser.Parse"])
p("P17","Unix timestamps give their exact instant",
 "A string that consists of 10, 13 or 16 digits (seconds, milliseconds, microseconds) is returned as exactly that instant in every locale and configuration; ten digits with a minus sign give the instant before 1970 when negative timestamps are enabled. Digit strings of other lengths are not read as timestamps.",
 ["inputs","configurations"],"all 10, 13 and 16 digit numbers and negative ones, with any configuration",
 "Tests have about ten numbers.",
 ["internal/parser/timestamp/parser.go","parser.go"],
 [("anchored pattern","internal/parser/timestamp/parser.go")],["Parser.Parse"])
p("P18","Custom layouts are honoured exactly, also in translated form",
 "A string that a complete time was formatted into with one of the given Go layouts is returned as exactly that time, whatever other layouts come before that do not match; the first layout that matches is used. This also holds when month and weekday names are those of another supported language. Without an offset in the string DefaultTimezone, or UTC, applies; a missing year, month or day is filled as for other incomplete dates.",
 ["inputs","configurations"],"all times, layouts and lists of layouts; month names of many languages",
 "Tests use a few layouts with one or two dates.",
 ["internal/parser/formatted/parser.go","parser.go","internal/language/translate.go"],
 [("layouts tried in order","internal/parser/formatted/parser.go Parse"),("translation that keeps formatting","internal/language/translate.go Translate")],["Parser.Parse"])
p("P19","Digits without separators are read in the date order",
 "Eight digits (or fourteen with time) that form a valid four-digit-year date when split by the date order are returned as exactly that date and time. A result is always a split of the given digits: its year, month, day and time read in some order are the digits of the string, never other values.",
 ["inputs","configurations"],"all dates from year 1000 to 9999 and times, six orders",
 "Tests have a few dozen digit strings.",
 ["internal/parser/nospace/parser.go","internal/parser/nospace/constants.go"],
 [("candidate enumeration","internal/parser/nospace/constants.go createParseCandidates"),("formats sorted by order","internal/parser/nospace/constants.go createSortedFormats")],["Parser.Parse"])
p("P20","Complete Jalali dates convert exactly",
 "ParseJalali returns, for every valid complete Jalali date (years 1000-1700, Persian or Latin digits, Persian month names, number words for the day, numbers with day, month and year in the configured order, optional weekday and time), exactly the corresponding Gregorian date and stated time. A missing part is that of CurrentTime, or the preferred one, in the Jalali calendar. A zone in the string or DefaultTimezone is applied; a day that its month does not have never yields another month.",
 ["inputs","configurations"],"all Jalali dates from 1000 to 1700 and notations",
 "Tests have about thirty dates.",
 ["jalali-parser.go","internal/parser/jalali/parser.go","internal/parser/jalali/translate.go","internal/parser/absolute/parser.go"],
 [("conversion","internal/parser/jalali/parser.go createDateTime"),("translation of names and number words","internal/parser/jalali/translate.go")],["ParseJalali"])
p("P21","Complete Hijri dates convert exactly in Umm al-Qura",
 "ParseHijri returns, for every valid complete Hijri date of the Umm al-Qura calendar (1356-1500 AH, Arabic or Latin digits, in the configured order, optional time with Arabic or Latin meridian), exactly the corresponding Gregorian date and stated time, and consecutive Hijri days are consecutive Gregorian days. A missing day is that of CurrentTime, or the preferred one, in the Hijri calendar. Years outside the calendar give an error; a zone in the string or DefaultTimezone is applied.",
 ["inputs","configurations"],"all days of 1356-1500 AH and notations",
 "Tests have about thirty dates.",
 ["hijri-parser.go","internal/parser/hijri/parser.go","internal/parser/absolute/parser.go"],
 [("conversion","internal/parser/hijri/parser.go createDateTime"),("month length","internal/parser/hijri/parser.go getLastDayOfHijriMonth")],["ParseHijri"])
p("P22","Search results are ordered excerpts of the searched text",
 "For texts that embed dates in running prose, every result of Search and SearchWithLanguage has a text that occurs in the searched text and states the date of the result (searched alone it gives the same date), results come in the order of the text, and a text without any date word or digit gives no result. When Search can tell the language, it is one of the allowed ones, and SearchWithLanguage with it gives the same results.",
 ["inputs","configurations"],"all texts composed of prose and dates, several languages and configurations",
 "Tests have some dozens of sentences with expected results.",
 ["search.go","internal/language/translate-search.go","internal/language/detector.go","internal/language/split.go"],
 [("original and translated chunks are kept aligned","internal/language/translate-search.go TranslateSearch"),("excerpt from original","search.go parseFoundObjects")],["Parser.Search","Parser.SearchWithLanguage"])
p("P23","Search finds the dates embedded in prose",
 "A complete date (day, four-digit year and the name of a month in the language, or a numeric date in the order of DateOrder or else of the language) or a relative phrase, separated by ordinary words or sentence ends from the rest of the text, is found with its exact date (relative phrases from CurrentTime) by SearchWithLanguage in that language, and by Search when the language is configured and the text has words of it. This holds for every such date and phrase in the text, in order, and for both dates of a range joined with a dash. (Names and phrases with two meanings, or whose words contain periods, are excepted.)",
 ["inputs","configurations"],"all dates in prose templates of many languages, one or several per text",
 "Tests have some dozens of sentences.",
 ["search.go","internal/language/translate-search.go","internal/language/split.go","internal/language/detector.go"],
 [("chunking","internal/language/translate-search.go TranslateSearch"),("splits rated","search.go chooseBestSplit")],["Parser.Search","Parser.SearchWithLanguage"])
p("P24","Only the configured locales are used, in the defined order",
 "The locale of a result is always one of Locales if given, otherwise of Languages combined with Region if given, otherwise of what DetectLanguagesFunction returned, in each case plus DefaultLanguages; DefaultLanguages are used only when the others give no date. An empty detector result, as an absent list, means all languages. Among several locales that understand a string the first in the given order wins with UseGivenOrder, and the globally more common one wins without (TryPreviousLocales may put remembered ones first). Unknown locales or languages and conflicting locales of one language are errors.",
 ["inputs","configurations"],"all lists of locales, languages, regions, default languages, detector results, and both order modes",
 "Tests cover single settings with one or two locales.",
 ["parser.go","internal/language/loader.go","internal/language/languages.go","internal/language/applicable-check.go","internal/data"],
 [("locale loading","internal/language/loader.go GetLocales"),("selection","parser.go getApplicableLocales")],["Parser.Parse","Parser.Search"])
p("P25","TryPreviousLocales prefers the oldest fitting remembered locale",
 "With TryPreviousLocales a Parser remembers the locales of its successful calls made with that option, in order of first use, and a later call tries the first remembered one that fits the string before the others; everything else is as without the option. Failed calls, calls without the option, searches without it and other Parsers leave this memory unchanged.",
 ["histories","inputs"],"all sequences of successful and failed calls with and without the option, on several Parsers",
 "Tests check histories of two or three calls.",
 ["parser.go"],
 [("memory","parser.go saveUsedLocale, checkPreviousLocales")],["Parser.Parse"],
 [("usedLocales","locales of successful calls in order of first use","parser.go Parser")])
p("P26","ParserTypes selects which interpretations are tried, and their order",
 "A string is only interpreted in the ways listed in ParserTypes (timestamp, negative timestamp, relative, custom layout, absolute, no spaces); a string that only a missing one understands gives an error. When several listed ones understand it, the first in the list decides within a locale. An empty list means the documented default order, and an undefined type is an error. (Layouts given to the call are in any case tried on the untranslated string first.)",
 ["configurations","inputs"],"all subsets and orders of types, all strings",
 "Tests use the default list almost everywhere.",
 ["parser.go"],
 [("loop over types","parser.go Parser.Parse")],["Parser.Parse"])
p("P27","Writing style does not change the meaning",
 "Letter case, repeated, leading, trailing and non-breaking or Unicode white space, tabs and line breaks between words, the decimal digits of any script (also of several in one string), composed or decomposed Unicode forms, full width characters, the different apostrophes, direction marks, surrounding brackets and words in SkipTokens do not change the result of parsing a date or relative phrase.",
 ["inputs"],"all strings of a corpus in many languages, under random combinations of these transformations",
 "Tests have a few such variants for single strings.",
 ["internal/strutil/strutil.go","internal/digit/digit.go","internal/language/translate.go","internal/parser/tokenizer/tokenizer.go"],
 [("normalisation","internal/strutil/strutil.go"),("digits","internal/digit/digit.go NormalizeString")],["Parser.Parse","ParseJalali","ParseHijri"])
p("P28","Both regular expression engines give the same results",
 "The library built with the re2_wasm tag gives for every call the same result as the default build: the same dates, locales, periods, offsets, search results and whether there is an error.",
 ["inputs","configurations"],"all valid UTF-8 strings, locales and entry points",
 "Tests are run with both engines, but only compare some hundreds of strings to expected values.",
 ["internal/regexp/regexp.go","internal/regexp/regexp-re2.go","internal/data"],
 [("same interface over two engines","internal/regexp")],API)
p("P29","Invalid configurations are refused, valid ones are accepted",
 "Out of range values of PreferredDayOfMonth, PreferredMonthOfYear and PreferredDateSource and unknown RequiredParts give an error from every entry point, for every string, before anything is parsed. Every combination of documented values is accepted: it never fails a string only because of the configuration's values, and a nil configuration is the same as an empty one.",
 ["configurations","inputs"],"all combinations of configuration values",
 "Tests never give invalid values, and few combinations of valid ones.",
 ["config.go","parser.go","search.go","jalali-parser.go","hijri-parser.go"],
 [("validation","config.go validate"),("defaults","config.go initiate")],API)
p("P30","Searches interpret what they find with the configured options, as Parse does",
 "When a date, part of a date, time of day or relative phrase stands between words without any date meaning, and SearchWithLanguage finds it as a whole as the only result, then the date, wall clock and period of the result are those that Parse gives for it with the same configuration and the language of the search: PreferredDateSource, PreferredDayOfMonth, PreferredMonthOfYear, DateOrder, CurrentTime, DefaultTimezone, ReturnTimeAsPeriod, PreserveEndOfMonth, StrictParsing, RequiredParts and the ParserTypes of the Parser have the same effect. What these options make Parse refuse is not found, and what Parse accepts (with at least three letters, or as a full numeric date) is found.",
 ["configurations","inputs"],"all dates and parts of dates of many languages under all combinations of options and parser types",
 "Tests search under one or two options.",
 ["search.go","config.go","parser.go","internal/language/translate-search.go"],
 [("options reach the inner parser","config.go configFromInternal"),("entries are parsed","search.go parseEntry")],["Parser.SearchWithLanguage","Parser.Parse"])
p("P31","Without CurrentTime, dates of a text are read from the date in front of them",
 "When no CurrentTime is configured and a searched text has a complete date, then every later incomplete date, time of day or relative phrase of the text is read as if CurrentTime were the last date found in front of it that is not itself relative (an amount with a direction, or yesterday, today, tomorrow): the result has the date, wall clock and period that a search for the piece alone gives with that CurrentTime and otherwise the same configuration. With CurrentTime configured, other dates of the text have no influence.",
 ["inputs","histories","configurations"],"all sequences of complete and incomplete dates, times and relative phrases in a text, in many languages",
 "Tests have a handful of texts with two dates.",
 ["search.go"],
 [("base of relative dates","search.go getRelativeBase, parseEntry")],["Parser.SearchWithLanguage","Parser.Search"])
p("P32","Words for units, numbers and times of day keep their meaning in every language",
 "In the language they belong to, the words that the library knows besides names of months and weekdays keep their meaning wherever they are used: an amount with any of the words or abbreviations of a unit, with or without the words for ago and in, is that distance from CurrentTime, exactly, with that unit; number words and halves (one, an, two, half an hour, a quarter) are their number; words for before and after noon, behind the time or in front of it where the language writes it so, choose the half of the day and leave the date alone; noon and midnight are 12:00 and 0:00; dates and times written with unit words (14h30, 2020\u5e743\u670825\u65e5\u5348\u5f8c5\u66426\u5206) have exactly these numbers; filler words around or within a date change nothing.",
 ["inputs"],"all words of the 205 languages and their regional locales, all amounts, dates and times",
 "Tests check about a thousand phrases in some dozens of languages, none of the regional locales, and few amounts.",
 ["internal/data","internal/language/translate.go","internal/parser/relative","internal/parser/absolute/parser.go"],
 [("words of the locale","internal/data"),("simplifications","internal/language/translate.go"),("relative phrases","internal/language/translate.go Translate"),("amounts","internal/parser/relative")],["Parser.Parse"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
