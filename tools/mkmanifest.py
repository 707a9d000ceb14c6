#!/usr/bin/env python3
# Source of MANIFEST.json.
import json, os
V = "/verif"
T = {
 "P01": ("watchdog and allocation monitor over hostile workloads", "adversarial strings and configurations in serial processes; CPU watchdog, heap guard and a bound on the bytes allocated per call"),
 "P02": ("contract monitor on every result of random calls", "checks the error/date/period/locale contract of each observed result"),
 "P03": ("offline comparison of outcome logs between processes and histories", "each call is repeated on new and used parsers, by package functions and in several processes in other orders; trusts that four to eight process starts show map order dependence"),
 "P04": ("simulated host clocks and zones, outcome logs compared", "the standard library's time.Now is replaced at build time by an overlay; the same calls run under several clocks and TZ settings"),
 "P05": ("Go race detector and linearised outcomes under stress", "goroutines on shared and separate Parsers in race detector builds; every outcome is compared to that of a sequential process; decides only the interleavings that were seen"),
 "P06": ("deep snapshots around each call", "slices have sentinels in their spare capacity; Clone is compared by reflection, so new fields are covered"),
 "P07": ("generator with known answer as oracle", "dates rendered in 19 notations and 7 time notations must come back exactly"),
 "P08": ("reference model of the date order", "independent model of the reading of numeric dates; date orders of locales frozen in a table"),
 "P09": ("frozen locale tables as oracle", "all month and weekday names of all locales, frozen at the pinned commit and validated against ICU data where possible"),
 "P10": ("reference model of calendar arithmetic", "independent calendar arithmetic"),
 "P11": ("frozen locale tables as oracle", "all relative phrases of all locales, frozen at the pinned commit"),
 "P12": ("frozen zone table and zoneinfo as oracle", "every known offset and abbreviation in each notation; trusts Go's time zone database for DefaultTimezone"),
 "P13": ("reference model of completion", "independent model of how missing parts are filled"),
 "P14": ("reference model and ordering monitor", "independent model of the nearest date on the wanted side, and direct comparison with CurrentTime"),
 "P15": ("generator with known stated parts as oracle", "all subsets of stated parts against all subsets of required parts"),
 "P16": ("generator with known stated parts as oracle", "period expected from the parts that the generator stated"),
 "P17": ("generator with known answer as oracle", "instants computed from the digits"),
 "P18": ("round trip through the standard library's formatter", "trusts time.Format as inverse"),
 "P19": ("generator with known answer and split checker", "every result must be a split of the given digits"),
 "P20": ("frozen calendar table (ICU) as oracle", "month starts of the Persian calendar frozen from an independent library"),
 "P21": ("frozen calendar table (ICU) as oracle", "month starts of the Umm al-Qura calendar frozen from an independent library"),
 "P22": ("trace monitor on search results", "every result must be an excerpt of the text, in order"),
 "P23": ("generator with planted dates as oracle", "dates planted in prose of several languages must be found"),
 "P24": ("reference model of locale selection", "independent model of the locales that may be used and of their order"),
 "P25": ("history checked against a sequential model", "random histories on several parsers against a model of the memory"),
 "P26": ("reference model of parser types", "strings with known interpretations under all kinds of type lists"),
 "P27": ("metamorphic comparison", "the plain string's result is the oracle for its variants"),
 "P28": ("differential run of two builds", "outcome logs of both builds must be equal"),
 "P29": ("contract monitor on valid and invalid configurations", "invalid values must be refused by all entry points, valid ones accepted"),
 "P31": ("online checker of the sequence of results", "every result must follow from its own text and the last absolute date in front"),
 "P32": ("frozen table of phrases as oracle", "phrases made of every known word of every locale, with random amounts, dates and times"),
 "P30": ("differential monitor of searches and single parses", "a date found in a text must be the one that Parse gives for it with the same options"),
}
have = open(f"{V}/tools/claimed.txt").read().split()
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[])
for l in open(f"{V}/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in have:
        t, n = T[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
            technique="runtime monitoring: " + t, level="exploration", level_note=n + ". Held on the executions the evidence file counts, no more."))
    else:
        m["not_applicable"].append(dict(property=i, reason="its monitor is not built yet"))
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]))
