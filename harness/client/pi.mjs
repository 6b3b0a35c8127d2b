// data of a Performance Insights report as gr writes it
import { fc, must } from "./prop.mjs";
import { parseHtml, squash } from "./html.mjs";
import { sql, special } from "./gens.mjs";
const START = Date.UTC(2022, 7, 1);
const HOUR = 3600000;
const dbName = fc.oneof({ weight: 5, arbitrary: fc.constantFrom("gravityr", "app", "db1", "db2", "a b") }, { weight: 1, arbitrary: special }, { weight: 1, arbitrary: fc.constantFrom('we"ird', "$db", "it's") });
const load = fc.oneof(fc.constantFrom(0, 0.001, 0.0049, 0.005, 0.0051, 0.5, 1, 2.5), fc.double({ min: 0, max: 8, noNaN: true }));
// a history: hours, some of them without anything, with loads of some SQLs of some databases
const history = (sqls, entries, hours = fc.integer({ min: 1, max: 8 }), tids = 3) => fc
  .record({
    hours,
    dbs: fc.uniqueArray(dbName, { minLength: 1, maxLength: 3 }),
    sqls,
    tids: fc.uniqueArray(fc.stringMatching(/^[0-9A-F]{6}$/), { minLength: 1, maxLength: tids }),
    raw: entries,
    tok: entries,
  })
  .map((r) => {
    const table = (list) => {
      const out = [];
      for (let h = 0; h < r.hours; h++) {
        const dbs = new Map();
        for (const [hh, d, s, t, max, sum] of list) {
          if (hh % r.hours !== h) continue;
          const dn = r.dbs[d % r.dbs.length];
          const sn = r.sqls[s % r.sqls.length];
          if (!dbs.has(dn)) dbs.set(dn, new Map());
          if (!dbs.get(dn).has(sn)) dbs.get(dn).set(sn, { sql: sn, loadMax: max, loadSum: sum, tokenizedId: r.tids[(s + (t >> 1)) % r.tids.length] });
        }
        out.push({ timestamp: START + h * HOUR, databases: [...dbs].map(([name, m]) => ({ name, sqls: [...m.values()] })) });
      }
      return out;
    };
    return { sqlDbLoads: table(r.raw), tokenizedSqlDbLoads: table(r.tok) };
  });
const few = history(fc.uniqueArray(sql, { minLength: 1, maxLength: 6 }), fc.array(fc.tuple(fc.nat(7), fc.nat(2), fc.nat(5), fc.nat(2), load, load), { maxLength: 25 }));
// more SQLs than a ranking has places
const crowd = history(fc.integer({ min: 15, max: 40 }).map((n) => Array.from({ length: n }, (_, i) => "SELECT " + i)), fc.array(fc.tuple(fc.nat(7), fc.nat(1), fc.nat(39), fc.nat(2), load, load), { minLength: 20, maxLength: 90 }));
// a week, with more loads of one tokenized SQL than a list has places and databases that turn up late
const week = history(fc.uniqueArray(sql, { minLength: 1, maxLength: 4 }), fc.array(fc.tuple(fc.nat(168), fc.nat(2), fc.nat(3), fc.nat(2), load, load), { minLength: 3, maxLength: 160 }), fc.integer({ min: 60, max: 169 }));
const busy = history(fc.uniqueArray(sql, { minLength: 2, maxLength: 4 }), fc.array(fc.tuple(fc.nat(168), fc.nat(1), fc.nat(3), fc.nat(2), load, load), { minLength: 70, maxLength: 160, size: "max" }), fc.integer({ min: 60, max: 169 }), 1);
export const loads = few;
export const anyLoads = fc.oneof({ weight: 12, arbitrary: few }, { weight: 3, arbitrary: crowd }, { weight: 1, arbitrary: week }, { weight: 1, arbitrary: busy });
export const piParam = (l) => ({ suggestData: null, digData: { performanceInsights: l, jaeger: null } });

// the databases a bar can be of, as far as its tooltip says
export const databasesOf = (chart, seriesIndex, dataPointIndex, names) => {
  const t = squash(parseHtml(chart.options.tooltip.custom({ seriesIndex, dataPointIndex, w: { config: { series: chart.options.series } } })).text) + " ";
  const m = names.filter((n) => t.includes(`Database: ${squash(n)} `));
  must(m.length > 0, () => "the tooltip names no database: " + t);
  return m.sort((a, b) => squash(b).length - squash(a).length)[0];
};
