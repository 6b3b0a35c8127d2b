// The page of a Performance Insights report: charts and lists against the loads of the report, along sequences of clicks.
import { build, Page, textOf } from "./page.mjs";
import { fc, check, must, same, cls, nontrivial, Violation } from "./prop.mjs";
import { command, options } from "./sh.mjs";
import { parseHtml, squash } from "./html.mjs";
import { anyLoads, piParam, databasesOf } from "./pi.mjs";

const script = await build("main.ts");
const close = (a, b) => Math.abs(a - b) <= 1e-9 * Math.max(1, Math.abs(a), Math.abs(b));

// the two parts of the shown tab
const parts = (p) => {
  const charts = p.chartsAlive();
  const cards = p.all((n) => n.tag === "Details").map((d) => {
    const els = p.all((n) => n.el, [d]).map((n) => n.el);
    const mine = charts.filter((c) => els.includes(c.el));
    must(mine.length === 1, () => `${mine.length} charts in a part of the page`);
    const all = squash(textOf(d));
    return {
      chart: mine[0],
      kind: /Timeline/.test(all) ? "timeline" : "ranking",
      boxes: p.all((n) => n.tag === "Checkbox", [d]),
      radios: p.all((n) => n.tag === "Radio", [d]),
      rows: p.all((n) => n.tag === "tr", [d]).map((r) => r.children.filter((c) => c.tag === "td").map((t) => textOf(t))).filter((r) => r.length),
      codes: p.all((n) => n.tag === "code", [d]).map(textOf),
      node: d,
    };
  });
  same(cards.map((c) => c.kind).sort(), ["ranking", "timeline"], "parts of the page");
  return cards.sort((a, b) => (a.kind < b.kind ? -1 : 1));
};
const point = (chart, s, i) => ({ seriesIndex: s, dataPointIndex: i, w: { config: { series: chart.options.series } } });
const tooltip = (chart, s, i, want) => {
  const { text, tags } = parseHtml(chart.options.tooltip.custom(point(chart, s, i)));
  const t = squash(text);
  for (const w of want) must(t.includes(squash(w)), () => `the tooltip lacks ${JSON.stringify(w)}\n${t}`);
  must(tags.every((x) => /^\/?(div|span|br|p|b|strong|table|tr|td|ul|li)\b/.test(x)) && !tags.some((x) => /onerror|src=/.test(x)), () => "the tooltip has tags of the SQL: " + tags.join(" "));
};
const hour = (h) => new Date(h.timestamp);

function judgeTimeline(part, list, ticked) {
  const series = part.chart.options.series;
  const want = new Map();
  list.forEach((h, i) => {
    for (const d of h.databases) {
      if (!ticked.includes(d.name)) continue;
      for (const s of d.sqls) {
        if (s.loadMax < 0.005) continue;
        const k = JSON.stringify([d.name, s.sql]);
        if (!want.has(k)) want.set(k, { db: d.name, sql: s.sql, at: list.map(() => null) });
        want.get(k).at[i] = s;
      }
    }
  });
  const names = list.flatMap((h) => h.databases.map((d) => d.name));
  const key = (s) => {
    const i = s.data.findIndex((d) => d.y > 0);
    must(i >= 0, () => "a series without any load: " + s.name);
    return JSON.stringify([databasesOf(part.chart, series.indexOf(s), i, names), s.name]);
  };
  same(series.map(key).sort(), [...want.keys()].sort(), "SQLs of the timeline");
  series.forEach((s, si) => {
    const w = want.get(key(s));
    same(s.data.map((d) => new Date(d.x).toISOString()), list.map((h) => hour(h).toISOString()), "hours of a SQL in the timeline");
    s.data.forEach((d, i) => {
      must(close(d.y, w.at[i] ? w.at[i].loadMax * 100 : 0), () => `load of ${w.sql} in hour ${i}: ${d.y}, of the report: ${JSON.stringify(w.at[i])}`);
      if (w.at[i]) {
        tooltip(part.chart, si, i, [hour(list[i]).toUTCString(), w.db, (w.at[i].loadMax * 100).toFixed(2) + "%", w.sql]);
        cls("bar of the timeline");
      } else if (i > 0 && s.data.slice(0, i).every((x) => x.y === 0)) cls("empty hours before the first load");
    });
  });
}
const MAX = 20;
function judgeRanking(part, list, ticked) {
  const sums = new Map();
  for (const h of list)
    for (const d of h.databases) {
      if (!ticked.includes(d.name)) continue;
      for (const s of d.sqls) {
        const k = JSON.stringify([d.name, s.sql]);
        sums.set(k, (sums.get(k) ?? 0) + s.loadSum * 100);
      }
    }
  const data = part.chart.options.series.flatMap((s) => s.data);
  must(part.chart.options.series.length <= 1, "the ranking has several series");
  must(data.length === Math.min(MAX, sums.size), () => `${data.length} SQLs in the ranking, of ${sums.size}`);
  const seen = new Set();
  data.forEach((d, i) => {
    const k = JSON.stringify([databasesOf(part.chart, 0, i, list.flatMap((h) => h.databases.map((x) => x.name))), d.x]);
    must(sums.has(k) && !seen.has(k), () => `${k} of the ranking is not in the report or ranked twice`);
    seen.add(k);
    must(close(d.y, sums.get(k)), () => `total load of ${k}: ${d.y}, of the report: ${sums.get(k)}`);
    if (i > 0) must(data[i - 1].y >= d.y, "the ranking is not in descending order");
    const shown = sums.get(k).toFixed(2);
    if (Math.abs(Number(shown) - sums.get(k)) < 0.00499) tooltip(part.chart, 0, i, [JSON.parse(k)[0], shown + "%", d.x]);
  });
  const least = data.length ? data[data.length - 1].y : 0;
  for (const [k, v] of sums) if (!seen.has(k)) must(v <= least + 1e-6, () => `${k} with ${v} is missing from the ranking, the last place has ${least}`);
  if (sums.size > MAX) cls("more SQLs than places");
}
function judgeList(part, raw, tokenizedId) {
  const all = [];
  for (const h of raw) for (const d of h.databases) for (const s of d.sqls) if (s.tokenizedId === tokenizedId) all.push({ load: s.loadMax, row: [d.name, (s.loadMax * 100).toFixed(2) + "%", hour(h).toUTCString(), s.sql].map(squash) });
  if (all.length === 0) {
    same(part.rows.map((r) => r.map(squash)), [["No data"]], "list for a tokenized SQL without plain SQL");
    cls("no plain SQL");
    return all.length;
  }
  const rows = part.rows.map((r) => r.slice(-4).map(squash));
  must(rows.length === Math.min(10, all.length), () => `${rows.length} plain SQLs listed, of ${all.length}`);
  const left = all.map((a) => ({ ...a, k: JSON.stringify(a.row) }));
  let prev = Infinity;
  for (const r of rows) {
    const k = JSON.stringify(r);
    const i = left.findIndex((a) => a.k === k);
    must(i >= 0, () => `listed plain SQL not in the report, or twice: ${k}`);
    const same = left.filter((a) => a.k === k);
    const best = Math.max(...same.map((a) => a.load));
    left.splice(left.findIndex((a) => a.k === k && a.load === best), 1);
    must(best <= prev, "the plain SQLs are not in descending order");
    prev = best;
  }
  for (const a of left) must(a.load <= prev, () => `${a.k} is missing from the heaviest plain SQLs`);
  cls(all.length > 10 ? "more than ten plain SQLs" : "plain SQLs");
  return all.length;
}
const shellWords = (text) => {
  try {
    const { vars, words } = command(text.replace(/^\s*\$ /, ""));
    return { db: vars.DB_DATABASE, sql: options(words, []).opts.q?.[0] };
  } catch (e) {
    throw new Violation(`the command is not one command to a shell: ${e.message}\n${text}`);
  }
};
const judgeCommand = (part, chosen) => {
  must(part.codes.length === 1, () => `${part.codes.length} commands in a part`);
  const got = shellWords(part.codes[0]);
  same(got, chosen ?? { db: "...", sql: "..." }, "database and SQL of the command");
};

const op = fc.oneof(
  { weight: 1, arbitrary: fc.record({ k: fc.constant("tab"), to: fc.constantFrom("plain", "tokenized") }) },
  { weight: 4, arbitrary: fc.record({ k: fc.constant("tick"), part: fc.nat(1), i: fc.nat(2) }) },
  { weight: 4, arbitrary: fc.record({ k: fc.constant("click"), part: fc.nat(1), s: fc.nat(60), i: fc.nat(200) }) },
  { weight: 3, arbitrary: fc.record({ k: fc.constant("radio"), part: fc.nat(1), i: fc.nat(9) }) }
);
check("Performance Insights page", fc.tuple(anyLoads, fc.constantFrom("plain", "tokenized"), fc.array(op, { maxLength: 10 })), 1800, ([l, first, ops]) => {
  const p = new Page(script, piParam(l));
  let tab = "plain";
  let state;
  const lists = () => (tab === "plain" ? l.sqlDbLoads : l.tokenizedSqlDbLoads);
  const dbs = () => [...new Set(lists().flatMap((h) => h.databases.map((d) => d.name)))].sort();
  const fresh = () => {
    state = [0, 1].map(() => ({ ticked: dbs().slice(0, 1), click: null, radio: null }));
  };
  const judge = () => {
    const ps = parts(p);
    for (const [i, part] of ps.entries()) {
      const st = state[i];
      const all = dbs();
      if (all.length > 1) {
        same(part.boxes.map((b) => squash(textOf(b.children))), all.map(squash), "databases to choose from");
        same([...part.boxes[0].binds.group.get()].sort(), [...st.ticked].sort(), "databases ticked");
      } else same(part.boxes.length, 0, "boxes for a single database");
      (part.kind === "timeline" ? judgeTimeline : judgeRanking)(part, lists(), st.ticked);
      if (tab === "tokenized") {
        if (st.click) judgeList(part, l.sqlDbLoads, st.click.tokenizedId);
        else {
          same(part.rows, [], "plain SQLs listed before a bar was clicked");
          must(squash(textOf(part.node)).includes("Click bar"), "no hint to click a bar");
        }
        judgeCommand(part, st.radio);
      } else if (st.click && !st.ticked.includes(st.click.db) && part.kind === "ranking") {
        // whether the ranking forgets the SQL of a database no longer ticked is left open
        const got = shellWords(part.codes[0]);
        if (got.db === "..." && st.click.db !== "...") st.click = null;
        else judgeCommand(part, { db: st.click.db, sql: st.click.sql });
      } else judgeCommand(part, st.click && { db: st.click.db, sql: st.click.sql });
    }
    return ps;
  };
  const go = (to) => {
    p.all((n) => n.tag === "Tabs")[0].binds.active.set(to);
    p.flush();
    if (to !== tab) {
      tab = to;
      fresh();
    }
  };
  fresh();
  judge();
  const script2 = [{ k: "tab", to: first }, ...ops];
  let did = 0;
  for (const o of script2) {
    const ps = parts(p);
    const part = ps[o.part ?? 0];
    const st = state[o.part ?? 0];
    if (o.k === "tab") go(o.to);
    else if (o.k === "tick") {
      const all = dbs();
      if (all.length < 2) continue;
      const d = all[o.i % all.length];
      const b = part.boxes.find((x) => squash(textOf(x.children)) === squash(d));
      const now = st.ticked.includes(d) ? st.ticked.filter((x) => x !== d) : [...st.ticked, d];
      st.ticked = now;
      // as the component does: the box adds its own value to the group or takes it away
      const group = b.binds.group.get();
      p.bind(b, "group", group.includes(b.props.value) ? group.filter((x) => x !== b.props.value) : [...group, b.props.value]);
      if (!(tab === "plain" && part.kind === "ranking") && st.click && !now.includes(st.click.db)) st.click = st.radio = null;
      cls("database ticked or unticked");
      did++;
    } else if (o.k === "click") {
      const series = part.chart.options.series;
      if (series.length === 0) continue;
      const si = o.s % series.length;
      if (series[si].data.length === 0) continue;
      const di = o.i % series[si].data.length;
      const { w, ...at } = point(part.chart, si, di);
      // what the bar means according to the report, found by the place of the bar
      const x = series[si].data[di];
      const empty = part.kind === "timeline" && !(x.y > 0);
      const db = empty ? null : databasesOf(part.chart, si, di, dbs());
      part.chart.options.chart.events.click({}, { w }, at);
      p.flush();
      if (empty) {
        st.click = st.radio = null;
        cls("empty place clicked");
      } else {
        const sql = part.kind === "timeline" ? series[si].name : x.x;
        const e = lists().flatMap((h, i) => (part.kind === "timeline" && i !== di ? [] : h.databases)).filter((d) => d.name === db).flatMap((d) => d.sqls).find((s) => s.sql === sql);
        must(e, () => `the bar of ${sql} of ${db} has no load in the report`);
        st.click = { db, sql, tokenizedId: e.tokenizedId };
        st.radio = null;
        cls("bar clicked");
        did++;
      }
    } else {
      if (part.radios.length === 0) continue;
      const r = part.radios[o.i % part.radios.length];
      const row = part.rows[o.i % part.radios.length].slice(-4);
      p.bind(r, "group", r.props.value);
      st.radio = { db: row[0], sql: row[3] };
      cls("plain SQL chosen");
      did++;
    }
    judge();
  }
  if (did >= 2) nontrivial([l.sqlDbLoads.length, dbs().length, ops, l.sqlDbLoads.flatMap((h) => h.databases.map((d) => [d.name, d.sqls.length]))]);
});
