// Commands and statements a report offers mean what they say when pasted.
import { build, Page, textOf } from "./page.mjs";
import { fc, check, must, same, cls, nontrivial, Violation } from "./prop.mjs";
import { suggest, grParam, SUB, commandOptions, codes, label, squash, card } from "./suggest.mjs";
import { command, options } from "./sh.mjs";
import { loads, piParam, databasesOf } from "./pi.mjs";

const script = await build("main.ts");

const rerun = (p) => {
  const c = codes(p).filter((t) => /gr\s+db\s+suggest/.test(t));
  must(c.length === 1, () => `${c.length} commands on the page`);
  return c[0].replace(/^\s*\$ /, "");
};
const shell = (text, env) => {
  try {
    return command(text, env);
  } catch (e) {
    throw new Violation(`the command is not one command to a shell: ${e.message}\n${text}`);
  }
};
const judge = (c, text, wanted) => {
  const { vars, words } = shell(text);
  same(vars, {}, "variables set by the command");
  let o;
  try {
    o = options(words, ["with-examine"]);
  } catch (e) {
    throw new Violation(`${e.message}\n${text}`);
  }
  same(o.rest, ["gr", "db", "suggest", ...SUB[c.backend]], "command");
  const want = { "with-examine": [true] };
  for (const x of commandOptions(c)) want[x.name] = [x.value];
  const got = { ...o.opts };
  const idx = got.i ?? [];
  delete got.i;
  same(Object.fromEntries(Object.entries(got).sort()), Object.fromEntries(Object.entries(want).sort()), "options of the command");
  if (wanted.length > 0) same(idx, wanted.map((t) => `${t.tableName}:${t.columns.map((k) => k.name).join("+")}`), "indexes to examine");
};

check("rerun command", fc.tuple(suggest, fc.array(fc.nat(9), { maxLength: 6 })), 1500, ([c, clicks]) => {
  const p = new Page(script, grParam(c));
  if (c.indexTargets === null) {
    cls("no suggestion part");
    return;
  }
  let on = c.indexTargets.map(() => true);
  const boxes = () => p.all((n) => n.tag === "Checkbox", card(p, "suggest"));
  same(boxes().map((b) => squash(textOf(b.children))), c.indexTargets.map((t) => squash(label(t))), "suggested indexes listed");
  judge(c, rerun(p), c.indexTargets);
  for (const k of clicks) {
    if (c.indexTargets.length === 0) break;
    const i = k % c.indexTargets.length;
    on[i] = !on[i];
    p.bind(boxes()[i], "checked", on[i]);
    judge(c, rerun(p), c.indexTargets.filter((_, j) => on[j]));
  }
  cls("backend " + c.backend);
  if (clicks.length && c.indexTargets.length > 1) cls("boxes unticked");
  const special = commandOptions(c).some((o) => /["'$`\\\n;&|<>]/.test(o.value));
  if (special) cls("value needs quoting");
  if (special && c.indexTargets.length) nontrivial([c.backend, commandOptions(c), c.indexTargets, clicks]);
});

// ---- statements ----
const MY_RESERVED = new Set("add all alter and as asc between by case column create cross delete desc distinct drop else exists false for from group having in index insert int into is join key like limit not null on or order primary references select set table then to true union unique update user_ using values when where with".split(" "));
const PG_RESERVED = new Set("all analyse analyze and any array as asc both case cast check collate column constraint create current_date default desc distinct do else end except false fetch for foreign from grant group having in initially intersect into lateral leading limit not null offset on only or order placing primary references returning select some table then to trailing true union unique user using variadic when where window with".split(" "));
function lexer(src, dialect) {
  let i = 0;
  const q = dialect === "mysql" ? "`" : '"';
  const ws = () => {
    while (/\s/.test(src[i] ?? "")) i++;
  };
  const bad = (m) => {
    throw new Violation(`${m} at ${JSON.stringify(src.slice(i))} in ${src}`);
  };
  return {
    word(w) {
      ws();
      const m = /^[A-Za-z]+/.exec(src.slice(i));
      if (!m || m[0].toUpperCase() !== w) bad("expected " + w);
      i += m[0].length;
    },
    punct(c) {
      ws();
      if (src[i] !== c) bad("expected " + c);
      i++;
    },
    peek() {
      ws();
      return src[i];
    },
    ident() {
      ws();
      if (src[i] === q) {
        let s = "";
        i++;
        for (;;) {
          if (i >= src.length) bad("quoted name not closed");
          if (src[i] === q) {
            if (src[i + 1] === q) {
              s += q;
              i += 2;
              continue;
            }
            i++;
            return s;
          }
          s += src[i++];
        }
      }
      const m = (dialect === "mysql" ? /^[0-9A-Za-z$_\u0080-\uffff]+/ : /^[A-Za-z_\u0080-\uffff][A-Za-z_0-9$\u0080-\uffff]*/).exec(src.slice(i));
      if (!m) bad("expected a name");
      if ((dialect === "mysql" ? MY_RESERVED : PG_RESERVED).has(m[0].toLowerCase())) bad(`the reserved word ${m[0]} stands unquoted as a name`);
      if (dialect === "mysql" && /^[0-9]+$/.test(m[0])) bad("a number stands as a name");
      i += m[0].length;
      return dialect === "mysql" ? m[0] : m[0].toLowerCase();
    },
    end() {
      ws();
      if (src[i] === ";") i++;
      ws();
      if (i < src.length) bad("text after the statement");
    },
  };
}
function readDdl(sql, dialect) {
  const l = lexer(sql, dialect);
  let table;
  if (dialect === "mysql") {
    l.word("ALTER");
    l.word("TABLE");
    table = l.ident();
    l.word("ADD");
    l.word("INDEX");
  } else {
    l.word("CREATE");
    l.word("INDEX");
    l.word("ON");
    table = l.ident();
  }
  const cols = [];
  l.punct("(");
  for (;;) {
    cols.push(l.ident());
    if (l.peek() === ",") l.punct(",");
    else break;
  }
  l.punct(")");
  l.end();
  return { tableName: table, columns: cols.map((n) => ({ name: n })) };
}
const rows = (p) => {
  const c = card(p, "examination");
  must(c.length === 1, "no table of results");
  return p.all((n) => n.tag === "tr", c).map((r) => r.children.filter((x) => x.tag === "td")).filter((r) => r.length > 0);
};
check("statements of examined indexes", suggest, 1500, (c) => {
  if (!c.results) return;
  const p = new Page(script, grParam(c));
  const d = c.backend === "mysql" ? "mysql" : "postgres";
  const want = c.results.indexResults.map((r) => JSON.stringify(r.indexTarget)).sort();
  const rs = rows(p).filter((r) => /(ALTER|CREATE)/.test(textOf(r[r.length - 1])));
  const cell = (r) => {
    const t = r[r.length - 1];
    // the menu beside the statement is not part of it
    return t.children.filter((n) => n.tag === "#text").map((n) => n.text).join("").trim();
  };
  same(rs.map((r) => JSON.stringify(readDdl(cell(r), d))).sort(), want, "indexes the shown statements create");
  if (c.backend === "hasura") {
    const got = [];
    for (const r of rs) {
      const b = p.all((n) => n.tag === "Button" && n.on?.length > 0, r[r.length - 1].children);
      must(b.length === 1, () => `${b.length} buttons to copy`);
      p.rec.clipboard.length = 0;
      p.fire(b[0], "click");
      must(p.rec.clipboard.length === 1, "nothing copied");
      const { words } = shell(p.rec.clipboard[0], { HASURA_URL: "http://h:1/x y", HASURA_ADMIN_SECRET: 's"e$c' });
      same(words[0], "curl", "command");
      const { rest, opts } = options(words.slice(1), []);
      same(rest, [], "arguments of curl");
      same((opts.X ?? opts.request ?? ["POST"])[0], "POST", "method");
      same(opts.url, ["http://h:1/x y/v2/query"], "address");
      const headers = (opts.header ?? opts.H ?? []).map((h) => [h.slice(0, h.indexOf(":")).toLowerCase(), h.slice(h.indexOf(":") + 1).trim()]);
      same(Object.fromEntries(headers.sort()), { "content-type": "application/json", "x-hasura-admin-secret": 's"e$c' }, "headers");
      let body;
      try {
        body = JSON.parse((opts.data ?? opts.d ?? opts["data-raw"])[0]);
      } catch (e) {
        throw new Violation(`the body of the request is no JSON: ${e.message}\n${p.rec.clipboard[0]}`);
      }
      same(body.type, "run_sql", "type of request");
      got.push(JSON.stringify(readDdl(body.args.sql, d)));
    }
    same(got.sort(), want, "indexes the copied requests create");
    if (got.length) cls("curl");
  }
  cls("statements " + d);
  if (c.results.indexResults.some((r) => !/^[a-z_]+$/.test(r.indexTarget.tableName) || r.indexTarget.columns.some((k) => !/^[a-z_]+$/.test(k.name)))) nontrivial(["ddl", c.backend, c.results.indexResults.map((r) => r.indexTarget)]);
});

// ---- the command of the Performance Insights page ----
check("command for a chosen SQL", fc.tuple(loads, fc.nat(1), fc.nat(1), fc.nat(30), fc.nat(200)), 800, ([l, tab, which, s, k]) => {
  const p = new Page(script, piParam(l));
  if (tab) {
    const t = p.all((n) => n.tag === "Tabs")[0];
    t.binds.active.set("tokenized");
    p.flush();
  }
  const charts = p.chartsAlive();
  must(charts.length === 2, () => `${charts.length} charts`);
  const chart = charts[which];
  const series = chart.options.series;
  if (series.length === 0) return;
  const si = s % series.length;
  const live = series[si].data.map((d, i) => [d, i]).filter(([d]) => which === 0 || d.y > 0);
  if (live.length === 0) return;
  const [d, di] = live[k % live.length];
  const db = databasesOf(chart, si, di, (tab ? l.tokenizedSqlDbLoads : l.sqlDbLoads).flatMap((h) => h.databases.map((x) => x.name)));
  chart.options.chart.events.click({}, { w: { config: { series } } }, { seriesIndex: si, dataPointIndex: di });
  p.flush();
  let want = { db, sql: which === 0 ? d.x : series[si].name };
  if (tab) {
    const radios = p.all((n) => n.tag === "Radio");
    if (radios.length === 0) return;
    const r = radios[k % radios.length];
    const row = p.all((n) => n.tag === "tr").filter((t) => p.all((n) => n === r, [t]).length)[0].children.filter((n) => n.tag === "td").slice(-4).map(textOf);
    p.bind(r, "group", r.props.value);
    want = { db: row[0].trim(), sql: row[3] };
    cls("tokenized");
  }
  const cs = codes(p).filter((t) => t.includes("gr db suggest"));
  must(cs.length === 2, () => `${cs.length} commands`);
  // the command of the chart that was clicked is one of the two; the other one shows placeholders
  const cand = cs.filter((t) => !/DB_DATABASE="?\.\.\./.test(t) || want.db === "...");
  must(cand.length >= 1, "no command names the chosen SQL");
  const { vars, words } = shell(cand[0].replace(/^\s*\$ /, ""));
  same(vars, { DB_DATABASE: want.db }, "variables set by the command");
  const o = options(words, []);
  same(o.rest, ["gr", "db", "suggest", "mysql"], "command");
  same(o.opts.q, [want.sql], "query of the command");
  must(o.opts.o?.length === 1, "no output file");
  cls("PI command");
  if (/["'$`\\\n;&|<>]/.test(want.sql + want.db)) nontrivial(["pi", want]);
});
