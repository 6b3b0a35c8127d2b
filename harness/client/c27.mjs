// The page of a suggest report: the query, the suggested indexes and the measured times are those of the report.
import { build, Page, textOf } from "./page.mjs";
import { fc, check, must, same, cls, nontrivial, Violation } from "./prop.mjs";
import { suggest, grParam, label, squash, card } from "./suggest.mjs";

const script = await build("main.ts");
const num = (s) => Number(s.replace(/[,\s]|ms$|%$/g, ""));
const one = (p, id) => {
  const c = card(p, id);
  must(c.length === 1, () => `${c.length} parts "${id}" on the page`);
  return c[0];
};
// the text of the part's content, without its title
const content = (p, id) => {
  const d = p.all((n) => n.tag === "div", one(p, id).children);
  must(d.length >= 1, "an empty part");
  return d.map(textOf).reduce((a, b) => (b.length > a.length ? b : a));
};

check("suggest report", suggest, 2500, (c) => {
  const p = new Page(script, grParam(c));
  const gql = c.backend === "hasura";
  same(content(p, "sql").trim(), c.query.trim(), "query shown");
  if (gql) {
    const t = content(p, "query");
    must(t.trim().startsWith(c.gql.trim()), () => `GraphQL shown: ${t}\nof the report: ${c.gql}`);
    const rest = t.trim().slice(c.gql.trim().length);
    let vars;
    try {
      vars = JSON.parse(rest.slice(rest.indexOf("{")));
    } catch {
      throw new Violation("the variables are not shown: " + rest);
    }
    same(vars, JSON.parse(JSON.stringify(c.variables)), "variables shown");
  } else must(card(p, "query").length === 0, "a GraphQL part in a report without GraphQL");
  if (c.indexTargets === null) must(card(p, "suggest").length === 0, "suggestions shown that the report does not have");
  else same(p.all((n) => n.tag === "li", [one(p, "suggest")]).map((l) => squash(textOf(l))), c.indexTargets.map((t) => squash(label(t))), "suggested indexes listed");
  if (c.results === null) {
    must(card(p, "examination").length === 0, "times shown that the report does not have");
    cls("not examined");
    return;
  }
  const rows = p.all((n) => n.tag === "tr", [one(p, "examination")]).map((r) => r.children.filter((k) => k.tag === "td").map((t) => squash(textOf(t)))).filter((r) => r.length);
  const o = c.results.originalTimeMillis;
  must(rows.length === c.results.indexResults.length + 1, () => `${rows.length} times shown, ${c.results.indexResults.length} indexes were examined`);
  const orig = rows.filter((r) => /original/i.test(r[2]) && !/^Table=/.test(r[2]));
  must(orig.length === 1 && rows[0] === orig[0], "the original time does not come first");
  same(num(orig[0][0]), o, "original time");
  const left = c.results.indexResults.map((r) => JSON.stringify([squash(label(r.indexTarget)), r.executionTimeMillis]));
  let prev = -1;
  for (const r of rows.slice(1)) {
    const t = num(r[0]);
    const i = left.indexOf(JSON.stringify([r[2], t]));
    must(i >= 0, () => `time of an index: ${JSON.stringify(r.slice(0, 3))}, measured: ${left}`);
    left.splice(i, 1);
    must(t >= prev, "the times are not in ascending order");
    prev = t;
    if (t === o) same(Math.abs(num(r[1])), 0, "reduction of an index that changes nothing");
    else if (o === 0) {
      must(!(num(r[1]) >= 0), () => `reduction ${r[1]} of an index that made the query slower`);
      cls("original time 0");
    } else {
      const want = (1 - t / o) * 100;
      must(Math.abs(num(r[1]) - want) <= 0.00501 + Math.abs(want) * 1e-9, () => `reduction ${r[1]} from ${o} to ${t}`);
      cls(want > 0 ? "faster" : "slower");
    }
  }
  cls("backend " + c.backend);
  if (left.length + rows.length > 2) nontrivial([c.backend, o, c.results.indexResults]);
});
