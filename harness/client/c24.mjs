// The plan on a suggest page: text, time line, labels, tooltips and highlighting speak of the same steps.
import { build, Page, textOf } from "./page.mjs";
import { fc, check, must, same, cls, nontrivial } from "./prop.mjs";
import { grParam, card } from "./suggest.mjs";
import { wild1, wild, word } from "./gens.mjs";
import { parseHtml, squash } from "./html.mjs";

const script = await build("main.ts");

const time = fc.oneof(fc.constantFrom(0, 0.001, 0.5, 1, 10), fc.double({ min: 0, max: 5000, noNaN: true }).map((x) => Math.round(x * 1000) / 1000));
const count = fc.oneof(fc.constantFrom(0, 1, 2, 1000, 1001, 6553600), fc.nat(100000));
const planText = fc.oneof(
  fc.constantFrom("Nested loop inner join  (cost=1.0 rows=2)", "Filter: (t.a<b.c)", "Table scan on <temporary>", "Seq Scan on users  (cost=0.00..1.05 rows=5 width=40)\n  Filter: (a <b)", "Index Cond: (x >y)", "Hash Join"),
  wild1
);
const own = fc.record({
  text: fc.tuple(fc.nat(6), planText).map(([n, t]) => " ".repeat(n * 2) + "-> " + t),
  title: fc.oneof(fc.constantFrom("Nested loop inner join", "Filter: (t.a<b.c)", "", "Seq Scan"), wild),
  tableName: fc.oneof(fc.constant(""), word, fc.constantFrom("<temporary>", "a&b")),
  est: fc.option(fc.record({ init: fc.option(time, { nil: null }), cost: time, rows: count, width: count }), { freq: 6, nil: null }),
  act: fc.option(fc.record({ first: time, avg: time, rows: count, loops: fc.oneof({ weight: 3, arbitrary: fc.constant(1) }, { weight: 2, arbitrary: count.map((c) => c + 1) }) }), { freq: 4, nil: null }),
});
const { tree } = fc.letrec((tie) => ({
  tree: fc.record({ own, kids: fc.oneof({ depthSize: "small", withCrossShrink: true }, fc.constant([]), fc.array(tie("tree"), { minLength: 1, maxLength: 3 })) }),
}));
const forest = fc.array(tree, { minLength: 1, maxLength: 3 });

const toVm = (backend) => (t) => {
  const { own: o } = t;
  const n = { text: o.text, title: o.title, tableName: o.tableName };
  const pg = backend !== "mysql";
  const e = o.est ?? (pg ? { init: 0, cost: 1.5, rows: 1, width: 4 } : null);
  n.estimatedInitCost = e ? (pg ? e.init ?? 0 : e.init) : null;
  n.estimatedCost = e ? e.cost : null;
  n.estimatedReturnedRows = e ? e.rows : null;
  if (pg) n.estimatedWidth = e.width;
  const a = backend === "hasura" ? null : o.act;
  n.actualTimeFirstRow = a ? a.first : null;
  n.actualTimeAvg = a ? a.avg : null;
  n.actualReturnedRows = a ? a.rows : null;
  n.actualLoopCount = a ? a.loops : null;
  n.children = t.kids.length ? t.kids.map(toVm(backend)) : null;
  return n;
};
const preorder = (nodes, out = []) => {
  for (const n of nodes) {
    out.push(n);
    if (n.children) preorder(n.children, out);
  }
  return out;
};
// reference: when each step starts and ends on the time line
const spans = (backend, n, out) => {
  const at = out.length;
  out.push(null);
  let start = 0;
  for (const c of n.children ?? []) start = Math.max(start, spans(backend, c, out));
  let end;
  if (backend === "hasura") end = n.estimatedCost ?? 0;
  else if (backend === "postgres") end = n.actualTimeAvg ?? 0;
  else if (n.actualLoopCount > 1) {
    const avg = n.actualLoopCount > 1000 && n.actualTimeAvg === 0 ? 0.0001 : n.actualTimeAvg ?? 0;
    end = start + avg * n.actualLoopCount;
  } else end = n.actualTimeAvg ?? 0;
  end = Math.max(end, start);
  out[at] = [start, end];
  return end;
};
const close = (a, b) => Math.abs(a - b) <= 1e-9 * Math.max(1, Math.abs(a), Math.abs(b));

const lines = (p) => {
  const c = card(p, "explain");
  must(c.length === 1, "no plan text");
  return p.all((n) => n.tag === "span" && !n.children.some((k) => k.tag === "span"), c[0].children.filter((s) => s.name === "default"));
};

check("plan", fc.tuple(fc.constantFrom("mysql", "postgres", "hasura"), forest, fc.oneof(fc.constant(""), wild, fc.constant("Planning Time: 1 ms")), fc.array(fc.nat(50), { maxLength: 3 })), 1200, ([backend, f, summary, hovers]) => {
  const nodes = f.map(toVm(backend));
  const c = { backend, query: "SELECT 1", gql: "query { a }", jsonVariables: "", variables: {}, output: "o.html", indexTargets: null, results: null, summary };
  const p = new Page(script, grParam(c, nodes));
  const steps = preorder(nodes);

  // text
  const tail = backend === "mysql" || summary === "" ? 0 : 2;
  const shown = lines(p).map(textOf);
  same(shown.slice(0, shown.length - tail), steps.map((s) => s.text), "steps listed in the plan");
  if (tail) same(shown[shown.length - 1], summary, "summary below the plan");

  // time line
  const charts = p.chartsAlive();
  must(charts.length === 1, () => `${charts.length} charts`);
  const opt = charts[0].options;
  must(opt.series.length === 1, "number of series");
  const data = opt.series[0].data;
  must(data.length === steps.length, () => `${data.length} bars for ${steps.length} steps`);
  same(new Set(data.map((d) => String(d.x))).size, steps.length, "bars with a row of their own");
  const ref = [];
  nodes.forEach((n) => spans(backend, n, ref));
  const w = { config: { series: opt.series } };
  data.forEach((d, i) => {
    const [s, e] = ref[i];
    const id = `bar ${i} (${JSON.stringify(steps[i].text)})`;
    must(Number.isFinite(d.y[0]) && Number.isFinite(d.y[1]), () => `${id} has no place: ${d.y}`);
    must(close(d.y[1], e), () => `${id} ends at ${d.y[1]}, the step at ${e}`);
    must(d.y[0] <= s + 1e-9 && d.y[0] >= s - 0.00011, () => `${id} starts at ${d.y[0]}, the step at ${s}`);
    must(d.y[0] < d.y[1] || d.y[1] > 1e9, () => `${id} has no width`);
    for (const g of d.goals ?? []) must(close(g.value, e), () => `${id} is marked at ${g.value}`);
    same(opt.dataLabels.formatter("x", { seriesIndex: 0, dataPointIndex: i, w }), steps[i].title, `label of ${id}`);

    // tooltip
    const html = opt.tooltip.custom({ seriesIndex: 0, dataPointIndex: i, w });
    const t = parseHtml(html);
    const text = squash(t.text);
    const want = squash(steps[i].text.trim().slice(0, 40));
    must(text.startsWith(want), () => `the tooltip of ${id} reads ${JSON.stringify(t.text)}`);
    same(t.tags.filter((x) => !/^\/?(div|span|b|br|p|table|tr|td|tbody|strong)\b/.test(x)), [], `elements in the tooltip of ${id}`);
    same(t.tags.filter((x) => /onerror|src=/.test(x)), [], `elements in the tooltip of ${id}`);
    const opens = (n) => t.tags.filter((x) => x === n || x.startsWith(n + " ")).length;
    must(opens("div") === t.tags.filter((x) => x === "/div").length, () => `the tooltip of ${id} is not well formed: ${html}`);
    must(opens("b") === 0, () => `text became markup in the tooltip of ${id}`);
    const fig = {};
    for (const l of t.text.split("\n")) {
      const m = /^\s*(Table|Initial cost \(estimated\)|Cost \(estimated\)|Rows returned \(estimated\)|Width \(estimated\)|Time first row \(actual\)|Time per loop \(actual\)|Time \(actual\)|Rows returned \(actual\)|Loop count \(actual\))\s*:([\s\S]*)$/.exec(l);
      if (m) fig[m[1]] = m[2].trim();
    }
    const n = steps[i];
    const num = (k, v) => {
      must(k in fig, () => `${id}: no "${k}" in the tooltip`);
      same(fig[k], v === null ? "-" : String(v), `${id}: "${k}" in the tooltip`);
    };
    // the value of Table may stand on the next line
    must(t.text.replace(/\s+/g, " ").includes("Table: " + (n.tableName || "-")), () => `${id}: table ${n.tableName} is not in the tooltip ${text}`);
    num("Cost (estimated)", n.estimatedCost);
    num("Rows returned (estimated)", n.estimatedReturnedRows);
    if (n.estimatedInitCost) num("Initial cost (estimated)", n.estimatedInitCost);
    if (backend !== "mysql") num("Width (estimated)", n.estimatedWidth);
    if (backend !== "hasura") {
      num("Rows returned (actual)", n.actualReturnedRows);
      num("Loop count (actual)", n.actualLoopCount);
    }
    if (backend === "mysql") {
      num("Time first row (actual)", n.actualTimeFirstRow);
      num(n.actualLoopCount > 1 ? "Time per loop (actual)" : "Time (actual)", n.actualTimeAvg);
    } else if (backend === "postgres") num("Time (actual)", n.actualTimeFirstRow === null ? null : `${n.actualTimeFirstRow} ~ ${n.actualTimeAvg}`);
  });

  // pointing at a bar marks its line
  for (const h of hovers) {
    const i = h % steps.length;
    const el = { style: {} };
    opt.chart.events.dataPointMouseEnter({ target: el, currentTarget: el, composedPath: () => [el] }, { w }, { seriesIndex: 0, dataPointIndex: i });
    p.flush();
    same(lines(p).map((s, j) => [j, !!s.props["class:bold"] || /\bbold\b/.test(s.props.class ?? "")]).filter(([, b]) => b).map(([j]) => j), [i], "lines marked after pointing at a bar");
    cls("pointed at");
  }
  cls("backend " + backend);
  if (steps.some((s) => s.actualLoopCount > 1)) cls("repeated steps");
  if (steps.some((s) => s.actualTimeAvg === null)) cls("steps not executed");
  const deep = steps.filter((s) => s.children).length;
  if (steps.length >= 3 && deep >= 1) nontrivial([backend, nodes]);
});
