// The page of a trace report: its tables, links and sequence diagrams.
import { build, Page, textOf } from "./page.mjs";
import { fc, check, must, same, cls, nontrivial, Violation } from "./prop.mjs";
import { squash } from "./html.mjs";

const script = await build("mermaid.ts");

// names a diagram can carry: letters, digits, _ . / blanks and inner hyphens, no word of the diagram language alone
const service = fc.oneof({ weight: 6, arbitrary: fc.constantFrom("bff", "user", "todo", "db-1", "redis", "my service", "a.b/c", "frontend_2", "loopback", "ending") }, { weight: 1, arbitrary: fc.stringMatching(/^[a-z]{1,4}[0-9_]{1,2}$/) });
const T0 = 1668321500225;
const { span } = fc.letrec((tie) => ({
  kids: fc.oneof(
    { depthSize: "small", withCrossShrink: true },
    fc.constant([]),
    // children in runs: the same service again and again, as a loop of calls gives
    fc.array(
      fc.oneof(
        fc.tuple(service, fc.integer({ min: 1, max: 9 })).map(([s, n]) => Array.from({ length: n }, () => ({ serviceName: s, children: [] }))),
        tie("span").map((s) => [s]),
        fc.tuple(tie("span"), fc.integer({ min: 2, max: 6 })).map(([s, n]) => Array.from({ length: n }, () => s))
      ),
      { minLength: 1, maxLength: 4 }
    ).map((l) => l.flat())
  ),
  span: fc.record({ serviceName: service, children: tie("kids") }),
}));
const vm = (s, n = { i: 0 }) => ({ name: "op " + n.i, spanId: (n.i++).toString(16), startTimeMillis: T0, endTimeMillis: T0 + 1, serviceName: s.serviceName, children: s.children.map((c) => vm(c, n)) });
const duration = fc.oneof(fc.nat(20), fc.nat(5000000));
const trace = fc.tuple(span, duration, fc.nat(2000), fc.oneof(service, fc.constant("a<b>&")), fc.stringMatching(/^[0-9a-f]{6,32}$/)).map(([root, d, n, s, id]) => {
  const r = vm(root);
  r.endTimeMillis = r.startTimeMillis + d;
  return { traceId: id, sameServiceAccessCount: n, timeConsumingServiceName: s, root: r };
});
const traces = fc.uniqueArray(trace, { maxLength: 4, selector: (t) => t.traceId });
const ui = fc.record({ scheme: fc.constantFrom("http", "https"), host: fc.constantFrom("localhost:16686", "jaeger.example.com", "10.0.0.1:8080"), base: fc.constantFrom("", "", "/jaeger", "/a/b"), slash: fc.constantFrom("", "/", "//") });

// reads the diagram back into a tree of calls; an abbreviated run counts as many calls as it says
function readDiagram(text) {
  const bad = (m) => {
    throw new Violation(`${m}\n${text}`);
  };
  const ls = text.split(/\r?\n/).map((l) => l.trim()).filter((l) => l !== "");
  if (ls.shift() !== "sequenceDiagram") bad("no sequence diagram");
  const ev = ls.filter((l) => !/^(participant|actor|autonumber|%%)/.test(l)).map((l) => {
    let m = /^(activate|deactivate)\s+(.+)$/.exec(l);
    if (m) return { k: m[1], a: m[2].trim() };
    m = /^(.+?)--?>>?([+-]?)(.+?):(.*)$/.exec(l);
    if (!m || m[2]) bad("line not understood: " + l);
    if (/[#;]/.test(m[4])) bad("message with a character of the language: " + l);
    return { k: "call", a: m[1].trim(), b: m[3].trim(), t: m[4].trim() };
  });
  let i = 0;
  const body = (me, caller) => {
    const out = [];
    while (i < ev.length) {
      const e = ev[i];
      if (e.k === "deactivate") return out;
      if (e.k === "activate") bad("activation without a call: " + e.a);
      if (e.a !== me) bad(`a call of ${e.a} stands among those of ${me}`);
      if (caller !== null && e.b === caller && ev[i + 1]?.k === "deactivate") {
        // the answer
        i++;
        return out;
      }
      i++;
      const more = /^More (\d+) times/.exec(e.t);
      if (more) out.push({ s: e.b, n: Number(more[1]), kids: [], more: true });
      else if (e.t === "" && out.length && out[out.length - 1].more && out[out.length - 1].s === e.b) continue;
      else if (ev[i]?.k === "activate" && ev[i].a === e.b) {
        i++;
        const kids = body(e.b, me);
        if (ev[i]?.k !== "deactivate" || ev[i].a !== e.b) bad(`the activation of ${e.b} does not end`);
        i++;
        out.push({ s: e.b, n: 1, kids });
      } else out.push({ s: e.b, n: 1, kids: [] });
    }
    return out;
  };
  const root = ev[0]?.a;
  if (root === undefined) bad("empty diagram");
  const kids = body(root, null);
  if (i < ev.length) bad("text after the end of the root");
  return { root, kids, ev };
}
// calls in order; neighbouring leaf calls of the same service as one entry
const squeeze = (list) => {
  const out = [];
  for (const c of list) {
    const last = out[out.length - 1];
    if (c.kids.length === 0 && last && last.leaf && last.s === c.s) last.n += c.n;
    else if (c.kids.length === 0) out.push({ s: c.s, n: c.n, leaf: true });
    else out.push({ s: c.s, n: 1, kids: squeeze(c.kids) });
  }
  return out;
};
const calls = (span) => span.children.map((c) => ({ s: c.serviceName, n: 1, kids: calls(c) }));

const number = (s) => Number(s.replace(/[^0-9.-]/g, ""));
check("trace report", fc.tuple(traces, traces, ui, fc.nat(100000), fc.nat(500), fc.array(fc.nat(9), { maxLength: 3 })), 900, ([slow, many, u, ms, times, opens]) => {
  const uiPath = `${u.scheme}://${u.host}${u.base}${u.slash}`;
  const p = new Page(script, { suggestData: null, digData: { performanceInsights: null, jaeger: { uiPath, slowThresholdMilli: ms, sameServiceThreshold: times, slowTraces: slow, sameServiceTraces: many } } });
  for (const [id, list] of [["slowTraces", slow], ["sameServiceTraces", many]]) {
    const card = () => {
      const c = p.all((n) => n.tag === "Details" && n.props["data-testid"] === id);
      must(c.length === 1, "no card " + id);
      return c;
    };
    const rows = () => p.all((n) => n.tag === "tr", card()).map((r) => r.children.filter((c) => c.tag === "td")).filter((r) => r.length > 1);
    const got = rows().map((r) => ({ id: textOf(r[0]).trim(), ms: number(textOf(r[1])), times: number(textOf(r[2])), service: textOf(r[3]).trim(), r }));
    const want = list.map((t) => ({ id: t.traceId, ms: t.root.endTimeMillis - t.root.startTimeMillis, times: t.sameServiceAccessCount, service: t.timeConsumingServiceName.trim() }));
    const strip = (g) => JSON.stringify({ id: g.id, ms: g.ms, times: g.times, service: g.service });
    same(got.map(strip).sort(), want.map(strip).sort(), "traces listed");
    for (let i = 1; i < got.length; i++) must(got[i - 1].ms >= got[i].ms, "the traces are not ordered by duration");
    if (list.length === 0) must(squash(textOf(card())).includes("No trace found"), "an empty list does not say so");
    const intro = squash(textOf(card())).replace(/,/g, "");
    must(intro.includes(`${ms} ms`), () => `the threshold ${ms} is not named: ${intro.slice(0, 200)}`);
    if (id === "sameServiceTraces") must(intro.includes(`${times} times`), "the threshold of accesses is not named");
    for (const g of got) {
      const a = p.all((n) => n.tag === "a", g.r);
      must(a.length === 1, "no link to the trace");
      let href;
      try {
        href = new URL(a[0].props.href).href;
      } catch {
        throw new Violation("the link is no URL: " + a[0].props.href);
      }
      same(href, new URL(`${u.scheme}://${u.host}${u.base}/trace/${g.id}`).href, "link to the trace");
    }
    for (const o of opens) {
      if (list.length === 0) break;
      const k = o % list.length;
      const row = rows()[k];
      const t = list.find((x) => x.traceId === textOf(row[0]).trim());
      const btn = p.all((n) => n.tag === "button" || n.tag === "Button", row);
      must(btn.length === 1, "no button for the diagram");
      const before = p.rec.diagrams.length;
      p.fire(btn[0], "click");
      must(p.rec.diagrams.length === before + 1, "no diagram was drawn");
      const modal = p.all((n) => n.tag === "Modal", card());
      must(squash(textOf(modal)).includes(t.traceId), "the diagram is not headed by its trace");
      const d = readDiagram(p.rec.diagrams[before]);
      same(d.root, t.root.serviceName, "service the diagram starts with");
      const w = squeeze(calls(t.root));
      if (w.length === 0) {
        must(d.ev.every((e) => e.k === "call" && e.a === d.root && e.b === d.root && e.t === ""), "calls drawn for a trace without any");
        cls("trace without calls");
      } else {
        same(squeeze(d.kids), w, "calls drawn in the diagram");
        // only long runs are abbreviated
        for (const [n, e] of flat(d.kids)) if (e.more) must(e.n >= 2 && n >= 5, "a short run is abbreviated");
      }
      cls("diagram");
      const longest = Math.max(0, ...runs(t.root));
      if (longest >= 5) cls("run of five or more");
      if (w.some((x) => x.kids)) nontrivial([t.root, longest]);
      modal[0].binds.open.set(false);
      p.flush();
    }
  }
  cls(u.base ? "UI below a path" : "UI at the root");
});
function flat(list, out = []) {
  for (let i = 0; i < list.length; i++) {
    const e = list[i];
    if (e.more) {
      let n = e.n;
      for (let j = i - 1; j >= 0 && list[j].s === e.s && list[j].kids.length === 0; j--) n += list[j].n;
      out.push([n, e]);
    }
    flat(e.kids, out);
  }
  return out;
}
function runs(span, out = []) {
  let n = 0;
  let s = null;
  for (const c of span.children) {
    if (c.children.length === 0 && c.serviceName === s) n++;
    else (n = c.children.length === 0 ? 1 : 0), (s = c.serviceName);
    out.push(n);
    runs(c, out);
  }
  return out;
}
