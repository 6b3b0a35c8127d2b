// data of a suggest report as gr writes it, and how to find things on its page
import { fc } from "./prop.mjs";
import { textOf } from "./page.mjs";
import { wild, wild1, name, word } from "./gens.mjs";
import { squash } from "./html.mjs";

export const target = fc.record({ tableName: name, columns: fc.array(name.map((n) => ({ name: n })), { minLength: 1, maxLength: 4 }) });
// indexes that differ in little: same table, same first column, same columns in another order
const alike = fc.tuple(name, fc.uniqueArray(name, { minLength: 2, maxLength: 3 }), fc.array(fc.array(fc.nat(2), { minLength: 1, maxLength: 3 }), { minLength: 2, maxLength: 5 })).map(([t, cs, l]) => l.map((ix) => ({ tableName: t, columns: [...new Set(ix.map((i) => cs[i % cs.length]))].map((n) => ({ name: n })) })));
const uniq = (l) => l.filter((t, i) => l.findIndex((x) => JSON.stringify(x) === JSON.stringify(t)) === i);
export const targets = fc.oneof({ weight: 3, arbitrary: fc.uniqueArray(target, { maxLength: 5, selector: (t) => JSON.stringify(t) }) }, { weight: 1, arbitrary: alike.map(uniq) });
export const backend = fc.constantFrom("mysql", "postgres", "hasura");
const outName = fc.oneof(fc.constantFrom("a.html", "out/report.html", "/tmp/My report.html", "r$1.html", "x", 'q"uote.html', "tick`.html", "back\\.html"), wild1);
export const suggest = fc.record({
  backend,
  query: fc.oneof(wild1, fc.constantFrom("SELECT name FROM users", "query MyQuery($email: String) {\n  tasks(where: {user: {email: {_eq: $email}}}) {\n    id\n  }\n}")),
  gql: wild1,
  jsonVariables: fc.oneof(fc.constantFrom("", '{"email": "test1112@example.com"}', "{}"), wild),
  variables: fc.dictionary(word, fc.oneof(fc.string(), fc.integer(), fc.boolean(), fc.constant(null)), { maxKeys: 3 }),
  output: outName,
  indexTargets: fc.option(targets, { freq: 12, nil: null }),
  results: fc.option(
    fc.record({ originalTimeMillis: fc.oneof(fc.integer({ min: 0, max: 20 }), fc.nat(2000000)), indexResults: fc.array(fc.record({ indexTarget: target, executionTimeMillis: fc.oneof(fc.integer({ min: 0, max: 20 }), fc.nat(2000000)) }), { maxLength: 6 }) }),
    { nil: null }
  ),
  summary: fc.oneof(fc.constant(""), wild, fc.constant("Planning Time: 0.5 ms\nExecution Time: 1.2 ms")),
});
export const SUB = { mysql: ["mysql"], postgres: ["postgres"], hasura: ["hasura", "postgres"] };
export const commandOptions = (c) => {
  const o = [
    { isShort: true, name: "o", value: c.output },
    { isShort: true, name: "q", value: c.backend === "hasura" ? c.gql : c.query },
  ];
  if (c.backend === "hasura") o.push({ isShort: false, name: "json-variables", value: c.jsonVariables });
  return o;
};
export const grParam = (c, nodes = null) => {
  const d = { query: c.query, analyzeNodes: nodes, indexTargets: c.indexTargets, examinationCommandOptions: commandOptions(c), examinationResult: c.results };
  const e = { mysql: null, postgres: null, hasura: null };
  if (c.backend === "mysql") e.mysql = d;
  else if (c.backend === "postgres") e.postgres = { ...d, summaryText: c.summary };
  else e.hasura = { postgres: { gql: c.gql, gqlVariables: c.variables, ...d, summaryText: c.summary } };
  return { suggestData: e, digData: null };
};
export const codes = (p) => p.all((n) => n.tag === "code").map(textOf);
export const label = (t) => `Table=${t.tableName} / Column=${t.columns.map((c) => c.name).join(", ")}`;
// the card with the given data-testid
export const card = (p, id) => p.all((n) => n.tag === "Details" && n.props["data-testid"] === id);
export { squash };
