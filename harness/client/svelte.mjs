// A small compiler for the subset of Svelte 3 the pages of GravityR are written in. It turns a component into a plain
// function over the runtime in runtime.js: props, `$:` statements with dependency tracking, `$store` values, slots,
// bindings and events behave as in Svelte; elements become plain objects. What it does not know it refuses (HarnessError),
// so that a page is never judged from a wrong translation.
import { createRequire } from "node:module";
const require = createRequire("/opt/veriftools/node/node_modules/");
const acorn = require("acorn");
const walk = require("acorn-walk");
const ts = require("typescript");
const MagicString = require("magic-string").default ?? require("magic-string");

export class HarnessError extends Error {}

const OPT = { ecmaVersion: "latest", sourceType: "module", allowUndeclaredExports: true, allowReturnOutsideFunction: true, allowAwaitOutsideFunction: true };
const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]);
const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0", bull: "•", hellip: "…", copy: "©", times: "×" };

export const decodeEntities = (s) =>
  s.replace(/&(#x[0-9a-fA-F]+|#\d+|[A-Za-z]+);/g, (m, e) => {
    if (e[0] === "#") return String.fromCodePoint(e[1] === "x" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10));
    return ENT[e] ?? m;
  });

const patNames = (p, out = []) => {
  if (!p) return out;
  if (p.type === "Identifier") out.push(p.name);
  else if (p.type === "ObjectPattern") p.properties.forEach((q) => patNames(q.type === "RestElement" ? q.argument : q.value, out));
  else if (p.type === "ArrayPattern") p.elements.forEach((q) => patNames(q, out));
  else if (p.type === "RestElement") patNames(p.argument, out);
  else if (p.type === "AssignmentPattern") patNames(p.left, out);
  return out;
};
const rootOf = (n) => {
  while (n.type === "MemberExpression" || n.type === "ChainExpression" || n.type === "ParenthesizedExpression") n = n.object ?? n.expression;
  return n.type === "Identifier" ? n.name : null;
};
const targets = (n) => {
  if (n.type === "MemberExpression") return [rootOf(n)];
  return patNames(n);
};

// rewrites a piece of JavaScript: assignments to variables of the component are reported to the runtime, `$store` is read
// and written through the store
function rewrite(code, ast, vars, ms = new MagicString(code), from = 0) {
  const isStore = (name) => name.length > 1 && name[0] === "$" && name[1] !== "$" && vars.has(name.slice(1));
  const seen = new Set();
  walk.fullAncestor(ast, (node, _state, anc) => {
    if (seen.has(node)) return;
    seen.add(node);
    if (node.type === "Identifier" && isStore(node.name)) {
      const parent = anc[anc.length - 2];
      if (parent && parent.type === "AssignmentExpression" && parent.left === node) return;
      if (parent && parent.type === "MemberExpression" && parent.property === node && !parent.computed) return;
      if (parent && parent.type === "Property" && parent.shorthand) ms.overwrite(node.start - from, node.end - from, `${node.name}: $$$$i.get(${node.name.slice(1)})`);
      else if (parent && parent.type === "Property" && parent.key === node && !parent.computed) return;
      else ms.overwrite(node.start - from, node.end - from, `$$i.get(${node.name.slice(1)})`);
    } else if (node.type === "AssignmentExpression") {
      if (node.left.type === "Identifier" && isStore(node.left.name)) {
        const s = node.left.name.slice(1);
        const op = node.operator.slice(0, -1);
        ms.overwrite(node.left.start - from, node.right.start - from, `$$i.put(${s}, ${op ? `$$i.get(${s}) ${op} (` : ""}`);
        ms.appendLeft(node.end - from, op ? "))" : ")");
        return;
      }
      const t = targets(node.left).filter((v) => v && vars.has(v));
      if (t.length) {
        ms.prependRight(node.start - from, `$$i.touch(${JSON.stringify(t)}, `);
        ms.appendLeft(node.end - from, ")");
      }
    } else if (node.type === "UpdateExpression") {
      const r = rootOf(node.argument);
      if (r && isStore(r)) {
        if (node.argument.type !== "Identifier" || anc[anc.length - 2]?.type !== "ExpressionStatement") throw new HarnessError("update of a store value: " + r);
        ms.overwrite(node.start - from, node.end - from, `$$i.put(${r.slice(1)}, $$i.get(${r.slice(1)}) ${node.operator[0]} 1)`);
        node.argument.name = "";
        seen.add(node.argument);
        return;
      }
      if (r && vars.has(r)) {
        ms.prependRight(node.start - from, `$$i.touch(${JSON.stringify([r])}, `);
        ms.appendLeft(node.end - from, ")");
      }
    }
  });
  return ms;
}

function idents(ast) {
  const s = new Set();
  walk.full(ast, (n) => {
    if (n.type === "Identifier") s.add(n.name);
  });
  return s;
}

// ---- template parser ----
function parseTemplate(src, file) {
  let pos = 0;
  const fail = (m) => {
    throw new HarnessError(`${file}: ${m} near ${JSON.stringify(src.slice(pos, pos + 60))}`);
  };
  const ws = () => {
    while (/\s/.test(src[pos] ?? "")) pos++;
  };
  const expr = () => {
    let n;
    try {
      n = acorn.parseExpressionAt(src, pos, OPT);
    } catch (e) {
      fail("expression not understood: " + e.message);
    }
    const r = { start: pos, end: n.end, ast: n, code: src.slice(pos, n.end) };
    // parentheses around the whole expression are not part of the node
    pos = n.end;
    let depth = 0;
    for (let i = r.start; i < n.start; i++) if (src[i] === "(") depth++;
    while (depth > 0) {
      ws();
      if (src[pos] !== ")") fail("unbalanced parenthesis");
      pos++;
      depth--;
    }
    r.end = pos;
    r.code = src.slice(r.start, pos);
    return r;
  };
  const close = () => {
    ws();
    if (src[pos] !== "}") fail("expected }");
    pos++;
  };
  const pattern = () => {
    const m = /^\s*(\{[^{}]*\}|\[[^\[\]]*\]|[A-Za-z_$][\w$]*)/.exec(src.slice(pos));
    if (!m) fail("pattern not understood");
    pos += m[0].length;
    return m[1];
  };
  const eat = (s) => {
    if (src.startsWith(s, pos)) {
      pos += s.length;
      return true;
    }
    return false;
  };
  const until = (stops) => {
    // children until one of the given markers is next
    const out = [];
    for (;;) {
      if (pos >= src.length) {
        if (stops.includes("EOF")) return out;
        fail("unexpected end");
      }
      if (stops.some((s) => s !== "EOF" && src.startsWith(s, pos))) return out;
      if (eat("<!--")) {
        pos = src.indexOf("-->", pos);
        if (pos < 0) fail("comment");
        pos += 3;
      } else if (src[pos] === "<") out.push(element());
      else if (src[pos] === "{") out.push(mustache());
      else {
        let e = pos;
        while (e < src.length && src[e] !== "<" && src[e] !== "{") e++;
        out.push({ type: "text", text: decodeEntities(src.slice(pos, e)) });
        pos = e;
      }
    }
  };
  const mustache = () => {
    if (eat("{#if")) {
      const branches = [];
      let cond = expr();
      close();
      for (;;) {
        const body = until(["{:else if", "{:else", "{/if}"]);
        branches.push({ cond, body });
        if (eat("{/if}")) break;
        if (eat("{:else if")) {
          cond = expr();
          close();
        } else {
          eat("{:else");
          close();
          branches.push({ cond: null, body: until(["{/if}"]) });
          eat("{/if}");
          break;
        }
      }
      return { type: "if", branches };
    }
    if (eat("{#each")) {
      const e = expr();
      ws();
      if (!eat("as")) fail("expected as");
      const pat = pattern();
      let idx = null;
      ws();
      if (eat(",")) {
        idx = pattern();
        ws();
      }
      let key = null;
      if (eat("(")) {
        key = expr();
        ws();
        if (!eat(")")) fail("expected )");
      }
      close();
      const body = until(["{:else}", "{/each}"]);
      let alt = [];
      if (eat("{:else}")) alt = until(["{/each}"]);
      eat("{/each}");
      return { type: "each", e, pat, idx, key, body, alt };
    }
    if (eat("{#key")) {
      const e = expr();
      close();
      const body = until(["{/key}"]);
      eat("{/key}");
      return { type: "key", e, body };
    }
    if (eat("{@const")) {
      const pat = pattern();
      ws();
      if (!eat("=")) fail("expected =");
      const e = expr();
      close();
      return { type: "const", pat, e };
    }
    if (eat("{@html")) {
      const e = expr();
      close();
      return { type: "html", e };
    }
    if (eat("{@debug")) {
      pos = src.indexOf("}", pos) + 1;
      return { type: "text", text: "" };
    }
    if (src.startsWith("{#", pos) || src.startsWith("{@", pos) || src.startsWith("{:", pos) || src.startsWith("{/", pos)) fail("block not supported");
    eat("{");
    const e = expr();
    close();
    return { type: "expr", e };
  };
  const attrValue = () => {
    if (src[pos] === "{") {
      eat("{");
      const e = expr();
      close();
      return [{ type: "expr", e }];
    }
    const q = src[pos] === '"' || src[pos] === "'" ? src[pos++] : null;
    const parts = [];
    for (;;) {
      if (pos >= src.length) fail("attribute");
      if (q ? src[pos] === q : /[\s>]/.test(src[pos]) || src.startsWith("/>", pos)) {
        if (q) pos++;
        return parts;
      }
      if (src[pos] === "{") {
        eat("{");
        const e = expr();
        close();
        parts.push({ type: "expr", e });
      } else {
        let e = pos;
        while (e < src.length && src[e] !== "{" && (q ? src[e] !== q : !/[\s>]/.test(src[e]))) e++;
        parts.push({ type: "text", text: decodeEntities(src.slice(pos, e)) });
        pos = e;
      }
    }
  };
  const element = () => {
    eat("<");
    const m = /^[A-Za-z][\w:.-]*/.exec(src.slice(pos));
    if (!m) fail("tag");
    const tag = m[0];
    pos += tag.length;
    const attrs = [];
    for (;;) {
      ws();
      if (eat("/>")) return { type: "el", tag, attrs, body: [] };
      if (eat(">")) break;
      if (eat("{")) {
        ws();
        if (eat("...")) {
          attrs.push({ kind: "spread", e: expr() });
        } else {
          const e = expr();
          attrs.push({ kind: "attr", name: e.code.trim(), value: [{ type: "expr", e }] });
        }
        close();
        continue;
      }
      const am = /^[^\s=>\/]+/.exec(src.slice(pos));
      if (!am) fail("attribute");
      let name = am[0];
      pos += name.length;
      let value = null;
      if (eat("=")) value = attrValue();
      const d = /^(on|bind|class|style|let|use|transition|in|out|animate):(.*)$/.exec(name);
      if (d) attrs.push({ kind: d[1], name: d[2].split("|")[0], value });
      else attrs.push({ kind: "attr", name, value });
    }
    if (VOID.has(tag)) return { type: "el", tag, attrs, body: [] };
    const body = until([`</${tag}`]);
    eat(`</${tag}`);
    ws();
    if (!eat(">")) fail("closing tag");
    return { type: "el", tag, attrs, body };
  };
  return until(["EOF"]);
}

export function compileSvelte(source, file) {
  let moduleScript = "";
  let script = "";
  let template = source.replace(/<script([^>]*)>([\s\S]*?)<\/script>/g, (_m, a, body) => {
    if (/context\s*=\s*["']?module/.test(a)) moduleScript += body + "\n";
    else script += body + "\n";
    return "";
  });
  template = template.replace(/<style[^>]*>[\s\S]*?<\/style>/g, "");
  const strip = (code) =>
    ts.transpileModule(code, {
      compilerOptions: { target: "ESNext", module: "ESNext", verbatimModuleSyntax: true, experimentalDecorators: true, useDefineForClassFields: true },
    }).outputText;
  script = strip(script);
  moduleScript = strip(moduleScript);
  let ast;
  try {
    ast = acorn.parse(script, OPT);
  } catch (e) {
    throw new HarnessError(`${file}: script not understood: ${e.message}`);
  }
  const vars = new Set();
  const imports = [];
  const props = [];
  const importNames = new Set();
  for (const st of ast.body) {
    if (st.type === "ImportDeclaration") {
      imports.push(script.slice(st.start, st.end));
      st.specifiers.forEach((s) => (vars.add(s.local.name), importNames.add(s.local.name)));
    }
    const d = st.type === "ExportNamedDeclaration" ? st.declaration : st;
    if (!d) continue;
    if (d.type === "VariableDeclaration") d.declarations.forEach((v) => patNames(v.id).forEach((n) => vars.add(n)));
    if (d.type === "FunctionDeclaration" || d.type === "ClassDeclaration") vars.add(d.id.name);
  }
  const implicit = [];
  for (const st of ast.body) {
    if (st.type === "LabeledStatement" && st.label.name === "$" && st.body.type === "ExpressionStatement" && st.body.expression.type === "AssignmentExpression") {
      for (const n of patNames(st.body.expression.left)) if (!vars.has(n)) (vars.add(n), implicit.push(n));
    }
  }
  const ms = new MagicString(script);
  const localOf = {};
  const reactive = [];
  // rewriting first, then cutting the pieces out
  for (const st of ast.body) {
    if (st.type === "ImportDeclaration") continue;
    rewrite(script, st, vars, ms);
  }
  for (const st of ast.body) {
    if (st.type === "ImportDeclaration") ms.remove(st.start, st.end);
    else if (st.type === "ExportNamedDeclaration") {
      if (!st.declaration) {
        if (st.source) throw new HarnessError(`${file}: export from`);
        ms.overwrite(st.start, st.end, st.specifiers.map((x) => `${x.local.name} = $$i.prop(${JSON.stringify(x.exported.name)}, () => ${x.local.name});`).join(" "));
        st.specifiers.forEach((x) => (props.push(x.exported.name), (localOf[x.exported.name] = x.local.name)));
        continue;
      }
      if (st.declaration.type === "VariableDeclaration" && st.declaration.kind !== "const") {
        let text = [];
        for (const v of st.declaration.declarations) {
          if (v.id.type !== "Identifier") throw new HarnessError(`${file}: export pattern`);
          props.push(v.id.name);
          const init = v.init ? ms.slice(v.init.start, v.init.end) : "undefined";
          text.push(`let ${v.id.name} = $$i.prop(${JSON.stringify(v.id.name)}, () => (${init}));`);
        }
        ms.overwrite(st.start, st.end, text.join(" "));
      } else ms.remove(st.start, st.declaration.start);
    } else if (st.type === "LabeledStatement" && st.label.name === "$") {
      const code = ms.slice(st.body.start, st.body.end);
      const used = idents(st.body);
      const assigned = new Set();
      walk.full(st.body, (n) => {
        if (n.type === "AssignmentExpression") targets(n.left).forEach((t) => assigned.add(t));
      });
      // a variable that is only assigned (not read) is no dependency
      const read = new Set();
      walk.fullAncestor(st.body, (n, _s, anc) => {
        if (n.type !== "Identifier") return;
        const p = anc[anc.length - 2];
        if (p?.type === "AssignmentExpression" && p.left === n && p.operator === "=") return;
        read.add(n.name);
      });
      const deps = [...used].filter((n) => read.has(n) && (vars.has(n) ? !importNames.has(n) : n[0] === "$" && vars.has(n.slice(1))));
      reactive.push({ code, deps, assigned: [...assigned].filter((n) => n && vars.has(n)) });
      ms.remove(st.start, st.end);
    }
  }
  // order: a statement comes after those that assign what it reads
  const order = [];
  const done = new Set();
  const visit = (r, path) => {
    if (done.has(r) || path.has(r)) return;
    path.add(r);
    for (const o of reactive) if (o !== r && o.assigned.some((a) => r.deps.includes(a) && !r.assigned.includes(a))) visit(o, path);
    done.add(r);
    order.push(r);
  };
  reactive.forEach((r) => visit(r, new Set()));

  const nodes = parseTemplate(template, file);
  let uid = 0;
  const E = (e) => {
    const m = rewrite(e.code, e.ast, vars, new MagicString(e.code), e.start);
    return `(${m.toString()})`;
  };
  const value = (v) => {
    if (v === null) return "true";
    if (v.length === 1 && v[0].type === "expr") return E(v[0].e);
    return v.length === 0 ? '""' : v.map((p) => (p.type === "text" ? JSON.stringify(p.text) : `$$R.str(${E(p.e)})`)).join(" + ");
  };
  const key = (n) => (/^[A-Za-z_$][\w$]*$/.test(n) ? n : JSON.stringify(n));
  const setter = (e) => {
    const root = rootOf(e.ast);
    return `($$v) => { ${e.code.trim()} = $$v; $$i.touch(${JSON.stringify(root && vars.has(root) ? [root] : [...vars].filter((v) => !importNames.has(v)))}); }`;
  };
  // children() gives JavaScript for an array of nodes; {@const} splits the list into a function body
  const children = (list) => {
    const consts = list.filter((n) => n.type === "const");
    const rest = list.filter((n) => n.type !== "const").map(node);
    if (consts.length === 0) return `[${rest.join(",\n")}]`;
    return `(() => { ${consts.map((c) => `const ${c.pat} = ${E(c.e)};`).join(" ")} return [${rest.join(",\n")}]; })()`;
  };
  const node = (n) => {
    switch (n.type) {
      case "text":
        return `$$R.text(${JSON.stringify(n.text)})`;
      case "expr":
        return `$$R.text($$R.str(${E(n.e)}))`;
      case "html":
        return `$$R.html(${E(n.e)})`;
      case "key":
        return `...((($$k) => ${children(n.body)})($$k + ".k" + $$R.keyId(${E(n.e)})))`;
      case "if": {
        let s = "";
        n.branches.forEach((b, i) => {
          const body = `((($$k) => ${children(b.body)})($$k + ".${uid}b${i}"))`;
          s += b.cond ? `${E(b.cond)} ? ${body} : ` : body;
        });
        uid++;
        if (n.branches[n.branches.length - 1].cond) s += "[]";
        return `...(${s})`;
      }
      case "each": {
        const id = uid++;
        const idx = n.idx ?? "$$ix";
        const k = n.key ? `$$R.keyId(${E(n.key)})` : idx;
        const each = `$$R.each(${E(n.e)}, (${n.pat}, ${idx}, $$base) => ((($$k) => ${children(n.body)})($$base + ".${id}e" + ${k})), $$k)`;
        if (n.alt.length === 0) return `...${each}`;
        return `...(($$l) => $$l.length ? $$l : ((($$k) => ${children(n.alt)})($$k + ".${id}z")))(${each})`;
      }
      case "el":
        return elem(n);
    }
    throw new HarnessError(`${file}: node ${n.type}`);
  };
  const elem = (n) => {
    const id = uid++;
    const attr = (name) => n.attrs.find((a) => a.kind === "attr" && a.name === name);
    if (n.tag === "slot") {
      const nm = attr("name");
      const ps = n.attrs.filter((a) => a.kind === "attr" && a.name !== "name").map((a) => `${key(a.name)}: ${value(a.value)}`);
      return `...$$i.slot(${nm ? value(nm.value) : '"default"'}, {${ps.join(", ")}}, $$k + ".${id}", () => ${children(n.body)})`;
    }
    if (n.tag === "svelte:fragment") return `...${children(n.body)}`;
    if (n.tag === "svelte:head" || n.tag === "svelte:options" || n.tag === "svelte:window" || n.tag === "svelte:body") return `$$R.text("")`;
    const comp = n.tag === "svelte:component" ? E(attr("this").value[0].e) : /^[A-Z]/.test(n.tag) || n.tag.includes(".") ? n.tag : null;
    if (n.tag.startsWith("svelte:") && !comp) throw new HarnessError(`${file}: ${n.tag}`);
    const props = [];
    const binds = [];
    const on = [];
    let bindThis = "null";
    for (const a of n.attrs) {
      if (a.kind === "spread") props.push(`...${E(a.e)}`);
      else if (a.kind === "attr") {
        if (a.name === "slot" || (n.tag === "svelte:component" && a.name === "this")) continue;
        props.push(`${key(a.name)}: ${value(a.value)}`);
      } else if (a.kind === "on") on.push(`[${JSON.stringify(a.name)}, ${a.value ? E(a.value[0].e) : `($$e) => $$i.forward(${JSON.stringify(a.name)}, $$e)`}]`);
      else if (a.kind === "bind") {
        const e = a.value ? a.value[0].e : (() => { const x = { code: a.name, start: 0, ast: acorn.parseExpressionAt(a.name, 0, OPT) }; return x; })();
        if (a.name === "this") bindThis = setter(e);
        else binds.push(`${key(a.name)}: { get: () => ${E(e)}, set: ${setter(e)} }`);
      } else if (a.kind === "class") props.push(`${JSON.stringify("class:" + a.name)}: ${a.value ? value(a.value) : a.name}`);
      else if (a.kind === "style") props.push(`${JSON.stringify("style:" + a.name)}: ${a.value ? value(a.value) : a.name}`);
      else if (a.kind === "let") continue;
      // transitions and actions do not change what is shown
    }
    if (!comp) return `$$i.el(${JSON.stringify(n.tag)}, {${props.join(", ")}}, [${on.join(", ")}], {${binds.join(", ")}}, ${bindThis}, ${children(n.body)}, $$k + ".${id}")`;
    const letOf = (x) => x.attrs.filter((a) => a.kind === "let").map((a) => (a.value ? `${a.name}: ${a.value[0].e.code}` : a.name));
    const own = letOf(n);
    const slots = {};
    for (const c of n.body) {
      const s = c.type === "el" ? c.attrs.find((a) => a.kind === "attr" && a.name === "slot") : null;
      const nm = s ? s.value.map((p) => p.text).join("") : "default";
      (slots[nm] ??= { lets: new Set(own), body: [] }).body.push(c);
      if (s) letOf(c).forEach((l) => slots[nm].lets.add(l));
    }
    const blank = (b) => b.every((c) => c.type === "text" && c.text.trim() === "");
    const sl = Object.entries(slots)
      .filter(([, s]) => !blank(s.body))
      .map(([nm, s]) => `${key(nm)}: ({${[...s.lets].join(", ")}}, $$sk) => ((($$k) => ${children(s.body)})($$k + ".${id}s(" + $$sk + ")"))`);
    return `$$i.comp(${comp}, {${props.join(", ")}}, [${on.join(", ")}], {${binds.join(", ")}}, ${bindThis}, {${sl.join(",\n")}}, $$k + ".${id}")`;
  };
  const body = children(nodes);
  return `import * as $$R from "mini:runtime";
${imports.join("\n")}
${moduleScript}
export default $$R.component(${JSON.stringify(file)}, function ($$i) {
${implicit.length ? `let ${implicit.join(", ")};` : ""}
${ms.toString()}
$$i.setters = { ${props.map((p) => `${key(p)}: ($$v) => { ${localOf[p] ?? p} = $$v; }`).join(", ")} };
$$i.getters = { ${props.map((p) => `${key(p)}: () => ${localOf[p] ?? p}`).join(", ")} };
$$i.reactive = [
${order.map((r) => `{ deps: ${JSON.stringify(r.deps)}, stores: () => [${r.deps.filter((d) => d[0] === "$" && !vars.has(d)).map((d) => d.slice(1)).join(", ")}], run: () => { ${r.code} } }`).join(",\n")}
];
$$i.template = ($$k) => ${body};
});
`;
}
