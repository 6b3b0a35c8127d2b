// Opens report pages on request: one line of JSON in ({kind, param}), one line out (what the page shows, or its error).
import readline from "node:readline";
import { build, Page, textOf, HarnessError } from "./page.mjs";
import { command, options } from "./sh.mjs";
import { parseHtml, squash } from "./html.mjs";
import { card, codes } from "./suggest.mjs";

const shell = (t) => {
  try {
    const { vars, words } = command(t.replace(/^\s*\$ /, ""));
    const { rest, opts } = options(words, ["with-examine"]);
    return { vars, words, rest, opts: Object.fromEntries(Object.entries(opts).map(([k, v]) => [k, v.map(String)])) };
  } catch (e) {
    return { error: `${e.message}: ${t}` };
  }
};
const content = (p, id) => {
  const c = card(p, id);
  if (c.length !== 1) return null;
  const d = p.all((n) => n.tag === "div", c[0].children);
  return d.map(textOf).reduce((a, b) => (b.length > a.length ? b : a), "");
};
const rowsOf = (p, nodes) => p.all((n) => n.tag === "tr", nodes).map((r) => r.children.filter((k) => k.tag === "td")).filter((r) => r.length);
const charts = (p) =>
  p.chartsAlive().map((c) => ({
    series: c.options.series.map((s, si) => ({
      name: String(s.name ?? ""),
      data: s.data.map((d, i) => ({
        x: d.x instanceof Object && typeof d.x.getTime === "function" ? d.x.getTime() : d.x,
        y: d.y,
        tip: c.options.tooltip?.custom && d.y > 0 ? squash(parseHtml(c.options.tooltip.custom({ seriesIndex: si, dataPointIndex: i, w: { config: { series: c.options.series } } })).text) : "",
      })),
    })),
  }));
const kinds = {
  suggest(p) {
    const ex = card(p, "explain");
    const su = card(p, "suggest");
    const re = card(p, "examination");
    return {
      sql: content(p, "sql"),
      gql: content(p, "query"),
      plan: ex.length === 1 ? p.all((n) => n.tag === "span" && !n.children.some((k) => k.tag === "span"), ex[0].children.filter((s) => s.name === "default")).map(textOf) : null,
      bars: p.chartsAlive().flatMap((c) => c.options.series.map((s) => s.data.length)),
      suggest: su.length === 1 ? p.all((n) => n.tag === "li", su).map((l) => squash(textOf(l))) : null,
      commands: su.length === 1 ? p.all((n) => n.tag === "code", su).map(textOf).filter((t) => /\bgr\s/.test(t)).map(shell) : [],
      results: re.length === 1 ? rowsOf(p, re).map((r) => r.map((t) => squash(textOf(t)))) : null,
    };
  },
  pi(p) {
    const out = {};
    for (const tab of ["plain", "tokenized"]) {
      p.all((n) => n.tag === "Tabs")[0].binds.active.set(tab);
      p.flush();
      const boxes = p.all((n) => n.tag === "Checkbox");
      const done = new Set();
      for (const b of boxes) {
        const g = b.binds?.group;
        if (!g) continue;
        const want = boxes.map((x) => x.props.value).filter((v, i, a) => a.indexOf(v) === i);
        const now = g.get();
        if (now.length < want.length) {
          p.bind(b, "group", want);
          done.add(b);
        }
      }
      out[tab] = { charts: charts(p), dbs: boxes.length };
    }
    return out;
  },
  jaeger(p) {
    const out = {};
    for (const id of ["slowTraces", "sameServiceTraces"]) {
      const c = () => p.all((n) => n.tag === "Details" && n.props["data-testid"] === id);
      const rows = () => rowsOf(p, c()).filter((r) => r.length > 1);
      out[id] = rows().map((r) => ({ cells: r.map((t) => squash(textOf(t))), links: p.all((n) => n.tag === "a", r).map((a) => String(a.props.href)) }));
      out[id].forEach((o, i) => {
        const btn = p.all((n) => n.tag === "button" || n.tag === "Button", rows()[i]);
        const before = p.rec.diagrams.length;
        for (const b of btn) p.fire(b, "click");
        o.diagrams = p.rec.diagrams.slice(before);
        for (const m of p.all((n) => n.tag === "Modal", c())) m.binds?.open?.set(false);
        p.flush();
      });
    }
    return out;
  },
};
let scripts;
for await (const line of readline.createInterface({ input: process.stdin })) {
  if (!line.trim()) continue;
  let answer;
  try {
    scripts ??= { suggest: await build("main.ts"), pi: await build("main.ts"), jaeger: await build("mermaid.ts") };
    const { kind, param } = JSON.parse(line);
    answer = kinds[kind](new Page(scripts[kind], param));
  } catch (e) {
    const h = e instanceof HarnessError || String(e?.message ?? e).startsWith("HARNESS:");
    answer = { [h ? "harness" : "error"]: String(e?.stack ?? e).slice(0, 1500) };
  }
  process.stdout.write(JSON.stringify(answer) + "\n");
}
