# Freezes small tables of the pinned tree for the oracles: locales (date order, rank) from the
# dump, and the known zones from the source table. Usage: mktables.py dump.json OUTDIR
import gzip, json, re, sys
d = json.load(open(sys.argv[1]))
out = sys.argv[2]
def save(name, v):
    with open(f'{out}/{name}', 'wb') as f, gzip.GzipFile('', 'wb', 9, f, 0) as z:
        z.write(json.dumps(v, ensure_ascii=False, separators=(',', ':')).encode())
loc = [{'n': l['Name'], 'd': re.sub('[^DMY]', '', l['DateOrder']) or 'MDY', 'o': l['Order'], 'w': l['NoWordSpacing']}
       for l in sorted(d['locales'], key=lambda l: (l['Order'], l['Name']))]
langs = sorted(d['langs'], key=lambda k: d['langs'][k])
save('locales.json.gz', {'locales': loc, 'langs': langs})
s = open('/repo/internal/timezone/timezones.go').read()
b = s.split('RegexPatterns: []string{')[1:]
z = [re.findall(r'`([^`]+)`:\s*(-?\d+)', x) for x in b]
save('tz.json.gz', {'offsets': [[n, int(o)] for n, o in z[0]], 'names': [[n, int(o)] for n, o in z[1]]})
save('ambiguous.json.gz', sorted([l['Name'], k] for l in d['locales'] for k, v in l['Translations'].items() if len(v) > 1))
