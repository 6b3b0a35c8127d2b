// runtime of the compiled components; bundled into the page
let current = null;
let rootFlush = null;
export const str = (v) => (v === null || v === undefined ? "" : String(v));
export const text = (t) => ({ tag: "#text", text: t });
export const html = (h) => ({ tag: "#html", html: str(h) });
let ids = new Map();
export const keyId = (v) => {
  if (typeof v !== "object" || v === null) return typeof v + ":" + String(v);
  if (!ids.has(v)) ids.set(v, "o" + ids.size);
  return ids.get(v);
};
export const each = (list, fn, k) => {
  const out = [];
  const a = Array.from(list ?? []);
  a.forEach((v, i) => out.push(...fn(v, i, k)));
  return out;
};
const readStore = (s) => {
  let v;
  if (s === null || s === undefined) return undefined;
  const u = s.subscribe((x) => (v = x));
  if (typeof u === "function") u();
  else u?.unsubscribe?.();
  return v;
};
class Instance {
  constructor(def, parent, props, slots, binds, on) {
    this.def = def;
    this.parent = parent;
    this.root = parent ? parent.root : this;
    this.props = { ...props };
    this.slots = slots;
    this.binds = binds;
    this.on = on;
    this.children = new Map();
    this.ctx = new Map();
    this.mounts = [];
    this.destroys = [];
    this.updates = [];
    this.dirty = null;
    this.mounted = false;
    this.els = new Map();
    for (const b of Object.keys(binds)) this.props[b] = binds[b].get();
    const prev = current;
    current = this;
    try {
      def.init(this);
    } finally {
      current = prev;
    }
    this.storeVals = (this.reactive ?? []).map(() => undefined);
    this.root.fresh.push(this);
    // a bound property the parent has no value for takes the default
    if (!def.host) for (const b of Object.keys(binds)) if (this.getters?.[b] && this.getters[b]() !== this.props[b]) this.binds[b].set((this.props[b] = this.getters[b]()));
  }
  prop(name, dflt) {
    return this.props[name] === undefined ? dflt() : this.props[name];
  }
  touch(names, v) {
    if (this.dirty === null) this.dirty = new Set();
    names.forEach((n) => this.dirty.add(n));
    if (!this.settling) this.root.again = true;
    // a property the parent has bound is written back
    if (!this.def.host && this.getters)
      for (const n of names)
        if (this.binds[n] && this.getters[n]) {
          this.props[n] = this.getters[n]();
          this.binds[n].set(this.props[n]);
          this.root.again = true;
        }
    return v;
  }
  get(store) {
    return readStore(store);
  }
  put(store, v) {
    store.set(v);
    this.root.again = true;
    return v;
  }
  forward(name, e) {
    for (const [n, h] of this.on) if (n === name) h(e);
  }
  update(props, slots, binds, on) {
    this.slots = slots;
    this.binds = binds;
    this.on = on;
    const p = { ...props };
    for (const b of Object.keys(binds)) p[b] = binds[b].get();
    const changed = [];
    for (const n of Object.keys(p)) {
      const o = this.props[n];
      if (p[n] !== o || (p[n] !== null && (typeof p[n] === "object" || typeof p[n] === "function"))) changed.push(n);
      if (p[n] !== o && this.setters?.[n]) this.setters[n](p[n]);
    }
    this.props = p;
    if (changed.length) {
      if (this.dirty === null) this.dirty = new Set();
      changed.forEach((n) => this.dirty.add(n));
    }
  }
  render(k = "") {
    const prev = current;
    current = this;
    try {
      const first = !this.ran;
      this.ran = true;
      const dirty = this.dirty ?? new Set();
      this.settling = true;
      (this.reactive ?? []).forEach((r, i) => {
        const sv = r.stores().map(readStore);
        const old = this.storeVals[i];
        const storeChanged = sv.length > 0 && (!old || sv.some((v, j) => v !== old[j] || (v !== null && typeof v === "object")));
        this.storeVals[i] = sv;
        if (first || storeChanged || r.deps.some((d) => dirty.has(d) || (this.dirty && this.dirty.has(d)))) r.run();
      });
      this.settling = false;
      this.dirty = null;
      this.used = new Set();
      const out = this.template(k);
      for (const [key, c] of [...this.children])
        if (!this.used.has(key)) {
          c.destroy();
          this.children.delete(key);
        }
      return out;
    } finally {
      this.settling = false;
      current = prev;
    }
  }
  destroy() {
    for (const c of this.children.values()) c.destroy();
    for (const d of this.destroys) d();
    this.destroys = [];
  }
  slot(name, props, k, fallback) {
    const s = this.slots[name];
    return s ? s(props, k) : fallback();
  }
  comp(def, props, on, binds, bindThis, slots, k) {
    if (!def) return { tag: "#text", text: "" };
    const owner = current; // the component whose markup is being produced: context and life cycle follow it
    owner.used.add(k);
    let c = owner.children.get(k);
    if (c && c.def !== def.$$def) {
      c.destroy();
      owner.children.delete(k);
      c = null;
    }
    if (!c) {
      c = new Instance(def.$$def, owner, props, slots, binds, on);
      owner.children.set(k, c);
      if (bindThis) bindThis(c);
    } else c.update(props, slots, binds, on);
    return { tag: "#comp", name: def.$$def.name, props: c.props, children: c.render() };
  }
  el(tag, props, on, binds, bindThis, children, k) {
    const owner = current;
    let e = owner.els.get(k);
    if (!e) {
      e = { nodeName: tag, style: {}, innerHTML: "", setAttribute() {}, addEventListener() {}, removeEventListener() {}, appendChild() {} };
      owner.els.set(k, e);
      if (bindThis) this.root.thisses.push(() => bindThis(e));
    }
    return { tag, props, on, binds, children, el: e };
  }
}
export const component = (name, init) => {
  const def = { name, init };
  function Component(opts) {
    return mount(def, opts?.props ?? {});
  }
  Component.$$def = def;
  return Component;
};
function mount(def, props) {
  const root = Object.create(Instance.prototype);
  root.fresh = [];
  root.thisses = [];
  root.again = false;
  root.root = root;
  // the fields of Instance are set by hand because the root needs its lists before its script runs
  const boot = { root, ctx: new Map(), parent: null };
  const inst = new Instance(def, boot, props, {}, {}, []);
  const flush = () => {
    for (let n = 0; ; n++) {
      if (n > 60) throw new Error("the page keeps re-rendering");
      root.again = false;
      page.nodes = inst.render();
      const t = root.thisses;
      root.thisses = [];
      t.forEach((f) => f());
      const f = root.fresh;
      root.fresh = [];
      // children mount before their parents
      for (const c of f.reverse()) {
        c.mounted = true;
        for (const m of c.mounts) {
          const d = m();
          if (typeof d === "function") c.destroys.push(d);
        }
      }
      if (!root.again && root.fresh.length === 0) break;
    }
  };
  const page = { nodes: [], flush };
  globalThis.__page = page;
  rootFlush = flush;
  flush();
  return { $destroy() {} , $set() {} };
}
// --- svelte ---
export const onMount = (f) => void current.mounts.push(f);
export const onDestroy = (f) => void current.destroys.push(f);
export const beforeUpdate = () => {};
export const afterUpdate = (f) => void current.mounts.push(f);
export const tick = () => Promise.resolve();
export const setContext = (k, v) => (current.ctx.set(k, v), v);
export const getContext = (k) => {
  for (let c = current; c; c = c.parent) if (c.ctx.has(k)) return c.ctx.get(k);
  return undefined;
};
export const hasContext = (k) => {
  for (let c = current; c; c = c.parent) if (c.ctx.has(k)) return true;
  return false;
};
export const createEventDispatcher = () => {
  const c = current;
  return (n, detail) => c.forward(n, { type: n, detail });
};
// --- svelte/store ---
export const writable = (value, start) => {
  const subs = new Set();
  return {
    set(v) {
      value = v;
      for (const s of [...subs]) s(v);
    },
    update(f) {
      this.set(f(value));
    },
    subscribe(f) {
      if (subs.size === 0) start?.((v) => (value = v));
      subs.add(f);
      f(value);
      return () => subs.delete(f);
    },
  };
};
export const readable = (value, start) => ({ subscribe: writable(value, start).subscribe });
export const derived = (stores, f) => ({
  subscribe(s) {
    const one = !Array.isArray(stores);
    const vs = (one ? [stores] : stores).map(readStore);
    s(f(one ? vs[0] : vs));
    return () => {};
  },
});
export const get = readStore;
// --- svelte-chota: every component shows its slots; a modal only while it is open ---
export const host = (name) => {
  const C = component(name, ($$i) => {
    $$i.setters = {};
    $$i.reactive = [];
    $$i.template = (k) => {
      const kids = [];
      const shown = name !== "Modal" || $$i.props.open;
      if (shown) for (const s of Object.keys($$i.slots)) kids.push({ tag: "#slot", name: s, props: {}, children: $$i.slots[s]({}, k + "." + s) });
      return [{ tag: name, props: { ...$$i.props }, on: $$i.on, binds: $$i.binds, children: kids }];
    };
  });
  C.$$def.host = true;
  return C;
};
