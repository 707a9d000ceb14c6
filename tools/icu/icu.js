// Raw material from ICU (Node's Intl), independent of the repository's tables:
// node icu.js dump.json > icu.json
const fs = require('fs');
const dump = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const out = {};
const N = [1, 2, 3, 4, 5, 7, 10, 11, 12, 15, 20, 21, 22, 25, 48, 99, 101];
for (const l of dump.locales.map(x => x.Name).sort()) {
  if (Intl.DateTimeFormat.supportedLocalesOf([l]).length === 0) continue;
  const rl = new Intl.DateTimeFormat(l).resolvedOptions().locale;
  if (rl.split('-')[0] !== l.split('-')[0]) continue;
  const o = { dates: [], weekdays: [], rel: [], fixed: [] };
  const seen = new Set();
  const add = (opts) => {
    for (const nu of ['latn', undefined]) {
      let f;
      try { f = new Intl.DateTimeFormat(l, { ...opts, timeZone: 'UTC', calendar: 'gregory', ...(nu ? { numberingSystem: nu } : {}) }); } catch (e) { continue; }
      for (let m = 0; m < 12; m++) {
        // day 17 of 2014: the parts of day and year become placeholders
        const d = new Date(Date.UTC(2014, m, 17));
        let t = '', ok = { d: 0, y: 0, m: 0 }, wd = '';
        for (const p of f.formatToParts(d)) {
          if (p.type === 'day') { t += '{d}'; ok.d++; }
          else if (p.type === 'year') { t += '{y}'; ok.y++; }
          else if (p.type === 'month') { t += p.value; ok.m++; }
          else if (p.type === 'weekday') { t += '{w}'; wd = p.value; }
          else t += p.value;
        }
        if (ok.d !== 1 || ok.y !== 1 || ok.m !== 1) continue;
        const mp = f.formatToParts(d).find(p => p.type === 'month').value;
        if (/^\p{Nd}+$/u.test(mp)) continue;
        let ws = null;
        if (t.includes('{w}')) {
          ws = [];
          for (let k = 0; k < 7; k++) ws.push(f.formatToParts(new Date(Date.UTC(2014, m, 2 + k))).find(p => p.type === 'weekday').value);
          const base = new Date(Date.UTC(2014, m, 2)).getUTCDay();
          const r = Array(7); for (let k = 0; k < 7; k++) r[(base + k) % 7] = ws[k]; ws = r;
        }
        const ds = f.formatToParts(d).find(p => p.type === 'day').value;
        const native = ds !== '17' ? (/^\p{Nd}+$/u.test(ds) ? ds : null) : 'latn';
        if (native === null) continue;
        const zero = native === 'latn' ? 48 : ds.codePointAt(0) - 1;
        const key = t + '|' + zero;
        if (seen.has(key)) continue; seen.add(key);
        o.dates.push({ t, m: m + 1, z: zero, w: ws });
      }
    }
  };
  for (const s of ['full', 'long', 'medium']) add({ dateStyle: s });
  for (const mo of ['long', 'short']) {
    add({ day: 'numeric', month: mo, year: 'numeric' });
    add({ weekday: 'long', day: 'numeric', month: mo, year: 'numeric' });
    add({ weekday: 'short', day: 'numeric', month: mo, year: 'numeric' });
    add({ month: mo, day: '2-digit', year: 'numeric' });
  }
  for (const s of ['long', 'short']) for (let k = 0; k < 7; k++) {
    const v = new Intl.DateTimeFormat(l, { weekday: s, timeZone: 'UTC', calendar: 'gregory' }).format(new Date(Date.UTC(2014, 5, 1 + k)));
    o.weekdays.push([v, k]);
  }
  for (const style of ['long', 'short', 'narrow']) {
    const fa = new Intl.RelativeTimeFormat(l, { numeric: 'always', style, numberingSystem: 'latn' });
    const fx = new Intl.RelativeTimeFormat(l, { numeric: 'auto', style });
    for (const u of ['year', 'month', 'week', 'day', 'hour', 'minute', 'second']) {
      for (const n of N) for (const sg of [-1, 1]) o.rel.push([fa.format(sg * n, u), u, sg * n]);
      for (const n of [-2, -1, 0, 1, 2]) {
        const s = fx.format(n, u);
        if (!/\p{Nd}/u.test(s)) o.fixed.push([s, u, n]);
      }
    }
  }
  out[l] = o;
}
fs.writeFileSync('/dev/stdout', JSON.stringify(out));
