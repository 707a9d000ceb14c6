// Calendar tables from ICU (Node's Intl), independent of the libraries the repository uses:
// node cal.js > ../../corpus/cal.json   (first day of each Persian year; first day of each Umm al-Qura month)
const day = 86400000;
const num = (cal) => { const f = new Intl.DateTimeFormat('en-u-nu-latn', { calendar: cal, timeZone: 'UTC', year: 'numeric', month: 'numeric', day: 'numeric' });
  return (t) => { const o = {}; for (const p of f.formatToParts(new Date(t))) o[p.type === 'relatedYear' ? 'year' : p.type] = parseInt(p.value); return o; }; };
const out = { persian: {}, hijri: {} };
let p = num('persian');
for (let t = Date.UTC(1599, 0, 1); t < Date.UTC(2340, 0, 1); t += day) { const o = p(t); if (o.month === 1 && o.day === 1) out.persian[o.year] = t / day; }
let h = num('islamic-umalqura');
for (let t = Date.UTC(1937, 0, 1); t < Date.UTC(2079, 0, 1); t += day) { const o = h(t); if (o.day === 1) out.hijri[o.year * 12 + o.month - 1] = t / day; }
console.log(JSON.stringify(out));
