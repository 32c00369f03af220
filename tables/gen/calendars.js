// node calendars.js persian|umalqura: first day of every year (persian) or month (umalqura), from ICU.
const kind = process.argv[2];
const cal = kind === "persian" ? "persian" : "islamic-umalqura";
const f = new Intl.DateTimeFormat("en-u-ca-" + cal + "-nu-latn", { timeZone: "UTC", year: "numeric", month: "numeric", day: "numeric" });
const [from, to] = kind === "persian" ? [Date.UTC(1820, 0, 1), Date.UTC(2122, 11, 31)] : [Date.UTC(1937, 0, 1), Date.UTC(2078, 11, 31)];
for (let t = from; t <= to; t += 86400000) {
  const p = Object.fromEntries(f.formatToParts(new Date(t)).map(x => [x.type, x.value]));
  if (p.day !== "1" || (kind === "persian" && p.month !== "1")) continue;
  const y = parseInt(p.year || p.relatedYear);
  const iso = new Date(t).toISOString().slice(0, 10);
  console.log(kind === "persian" ? [y, iso].join("\t") : [y, p.month, iso].join("\t"));
}
