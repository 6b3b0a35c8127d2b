// Bundles the report's page from /repo/client/src and runs it, in a context of its own, on a report's data.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";
import { compileSvelte, HarnessError } from "./svelte.mjs";
const require = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = require("esbuild");
export { HarnessError };

const REPO = process.env.VERIF_REPO ?? "/repo";
const SRC = path.join(REPO, "client/src");
const HERE = path.dirname(new URL(import.meta.url).pathname);

const RT = fs.readFileSync(path.join(HERE, "runtime.js"), "utf8");
const STUBS = {
  "reflect-metadata": "",
  chota: "",
  "class-transformer": `
const types = new WeakMap();
export const Type = (fn) => (target, key) => { if (!types.has(target)) types.set(target, {}); types.get(target)[key] = fn; };
const transforms = new WeakMap();
export const Transform = (fn) => (target, key) => { if (!transforms.has(target)) transforms.set(target, {}); transforms.get(target)[key] = fn; };
const transformOf = (cls, key) => { for (let p = cls.prototype; p; p = Object.getPrototypeOf(p)) { const t = transforms.get(p); if (t && Object.hasOwn(t, key)) return t[key]; } return undefined; };
export const Expose = () => () => {}; export const Exclude = () => () => {};
const typeOf = (cls, key) => { for (let p = cls.prototype; p; p = Object.getPrototypeOf(p)) { const t = types.get(p); if (t && Object.hasOwn(t, key)) return t[key](); } return undefined; };
const getterOnly = (cls, key) => { for (let p = cls.prototype; p; p = Object.getPrototypeOf(p)) { const d = Object.getOwnPropertyDescriptor(p, key); if (d) return !!d.get && !d.set; } return false; };
const conv = (cls, v) => {
  if (Array.isArray(v)) return v.map((x) => conv(cls, x));
  if (v === null || v === undefined || typeof v !== "object") return v;
  if (v instanceof Date) return new Date(v.valueOf());
  if (!cls) { const o = {}; for (const k of Object.keys(v)) if (k !== "__proto__" && k !== "constructor") o[k] = conv(undefined, v[k]); return o; }
  const o = new cls();
  for (const k of Object.keys(v)) { if (k === "__proto__" || k === "constructor" || getterOnly(cls, k)) continue; o[k] = conv(typeOf(cls, k), v[k]); const tf = transformOf(cls, k); if (tf) o[k] = tf({ value: o[k], key: k, obj: v }); }
  return o;
};
export const plainToInstance = (cls, v) => conv(cls, v);
export const plainToClass = plainToInstance;
export const instanceToPlain = (v) => JSON.parse(JSON.stringify(v));
`,
  "sql-formatter": "export const format = (s) => s;",
  apexcharts: `
export default class ApexCharts {
  constructor(el, options) { this.el = el; this.options = options; globalThis.__rec.charts.push(this); this.alive = false; }
  render() { this.alive = true; return Promise.resolve(); }
  destroy() { this.alive = false; }
  updateOptions(o) { Object.assign(this.options, o); return Promise.resolve(); }
  updateSeries(s) { this.options.series = s; return Promise.resolve(); }
}`,
  mermaid: `
const m = { mermaidAPI: { initialize() {}, render(id, text, cb) { return m.render(id, text, cb); } }, initialize() {},
  render(id, text, cb) { globalThis.__rec.diagrams.push(text); cb && cb("<svg></svg>"); return "<svg></svg>"; }, init() {}, parse() { return true; } };
export default m;`,
};

const CHOTA = "Button Card Checkbox Col Container Details Field Icon Input Modal Nav Pagination Radio Row Tab Tabs Tag Table".split(" ");

const plugin = {
  name: "page",
  setup(b) {
    b.onResolve({ filter: /^@\// }, (a) => b.resolve("./" + a.path.slice(2), { resolveDir: SRC, kind: a.kind }));
    b.onResolve({ filter: /^mini:runtime$|^svelte$|^svelte\/store$/ }, () => ({ path: "runtime", namespace: "mini" }));
    b.onResolve({ filter: /^svelte-chota$/ }, () => ({ path: "svelte-chota", namespace: "mini" }));
    b.onResolve({ filter: /^[A-Za-z@][^:]*$/ }, (a) => {
      if (a.path.startsWith("@/") || a.path.startsWith(".")) return undefined;
      if (a.path in STUBS) return { path: a.path, namespace: "mini" };
      if (a.kind === "entry-point") return undefined;
      return { errors: [{ text: "no stand-in for module " + a.path }] };
    });
    b.onLoad({ filter: /.*/, namespace: "mini" }, (a) => {
      if (a.path === "runtime") return { contents: RT, loader: "js" };
      if (a.path === "svelte-chota")
        return { contents: `import { host } from "mini:runtime";\n` + CHOTA.map((n) => `export const ${n} = host("${n}");`).join("\n"), loader: "js" };
      return { contents: STUBS[a.path], loader: "js" };
    });
    b.onLoad({ filter: /\.svelte$/ }, (a) => {
      const js = compileSvelte(fs.readFileSync(a.path, "utf8"), path.relative(SRC, a.path));
      return { contents: js, loader: "js", resolveDir: path.dirname(a.path) };
    });
    b.onLoad({ filter: /\.(css|svg|png)$/ }, () => ({ contents: "", loader: "js" }));
    // the import "./stores/gr_param.js" means the TypeScript file
    b.onResolve({ filter: /\.js$/ }, (a) => {
      if (!a.path.startsWith(".") && !a.path.startsWith("@/")) return undefined;
      const base = a.path.startsWith("@/") ? path.join(SRC, a.path.slice(2)) : path.join(a.resolveDir, a.path);
      const t = base.replace(/\.js$/, ".ts");
      return fs.existsSync(t) ? { path: t } : undefined;
    });
  },
};

const scripts = {};
export async function build(entry) {
  if (scripts[entry]) return scripts[entry];
  let r;
  try {
    r = await esbuild.build({
      entryPoints: [path.join(SRC, entry)],
      bundle: true,
      write: false,
      format: "iife",
      target: "esnext",
      logLevel: "silent",
      charset: "utf8",
      tsconfigRaw: { compilerOptions: { experimentalDecorators: true, useDefineForClassFields: true, target: "ESNext" } },
      plugins: [plugin],
      resolveExtensions: [".ts", ".js", ".json"],
    });
  } catch (e) {
    throw new HarnessError("the page could not be built: " + (e.errors ?? [e]).map((x) => (x.location ? x.location.file + ":" + x.location.line + " " : "") + (x.detail?.message ?? x.text ?? x.message)).join("; "));
  }
  if (process.env.VERIF_DUMP) fs.writeFileSync(process.env.VERIF_DUMP + "." + entry + ".js", r.outputFiles[0].text);
  return (scripts[entry] = new vm.Script(r.outputFiles[0].text, { filename: entry + ".bundle.js" }));
}

export class Page {
  // entry: main.ts or mermaid.ts; data: window.grParam
  constructor(script, data) {
    this.rec = { charts: [], diagrams: [], clipboard: [] };
    const g = { URL, URLSearchParams, console: { log() {}, warn() {}, error() {}, info() {}, debug() {} }, __rec: this.rec, setTimeout: (f) => f, clearTimeout() {}, Intl };
    g.window = g;
    g.location = { href: "http://localhost/report.html" };
    g.document = { getElementById: () => ({}), createElement: () => ({ style: {} }), querySelector: () => ({}) };
    g.navigator = { clipboard: { writeText: (t) => { this.rec.clipboard.push(t); return Promise.resolve(); } } };
    const ctx = vm.createContext(g);
    vm.runInContext("window.grParam = " + JSON.stringify(data).replace(/\u2028|\u2029/g, (c) => "\\u" + c.charCodeAt(0).toString(16)), ctx);
    script.runInContext(ctx);
    this.page = g.__page;
    if (!this.page) throw new HarnessError("the page did not mount");
  }
  get nodes() {
    return this.page.nodes;
  }
  flush() {
    this.page.flush();
  }
  all(pred, nodes = this.nodes, out = []) {
    for (const n of nodes) {
      if (pred(n)) out.push(n);
      if (n.children) this.all(pred, n.children, out);
    }
    return out;
  }
  one(pred, what, nodes) {
    const r = this.all(pred, nodes);
    if (r.length !== 1) throw new Error(`${r.length} of ${what} on the page`);
    return r[0];
  }
  fire(node, name, e = {}) {
    for (const [n, h] of node.on ?? []) if (n === name) h(e);
    this.flush();
  }
  // the user changes a bound value (ticks a box): the binding is written first, then the change event
  bind(node, name, v) {
    // without a binding the page listens to the event
    if (!node.binds?.[name] && !(node.on ?? []).some(([n]) => n === "change" || n === "click" || n === "input")) throw new HarnessError(`no binding of ${name}`);
    if (node.binds?.[name]) node.binds[name].set(v);
    else node.props[name] = v;
    this.flush();
    const target = { value: node.props.value, checked: name === "checked" ? v : Array.isArray(v) ? v.includes(node.props.value) : v === node.props.value };
    for (const n of ["click", "input", "change"]) this.fire(node, n, { target, currentTarget: target, type: n });
  }
  chartsAlive() {
    // charts drawn in an element of the page, the latest one per element
    const at = new Map();
    const els = this.all((n) => n.el).map((n) => n.el);
    for (const c of this.rec.charts) if (c.alive && els.includes(c.el)) at.set(c.el, c);
    return els.filter((e) => at.has(e)).map((e) => at.get(e));
  }
}
export const textOf = (n) => {
  if (Array.isArray(n)) return n.map(textOf).join("");
  if (n.tag === "#text") return n.text;
  if (n.tag === "br") return "\n";
  return n.children ? textOf(n.children) : "";
};
