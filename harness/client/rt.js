// The runtime for what minisvelte.mjs produces: renders to plain trees.
const G = globalThis.$$verif || (globalThis.$$verif = {});
const st = { path: [], stack: [], insts: new Map(), seen: null, dirty: false, mounts: [], root: null, elements: new Map(), ids: new WeakMap(), nextId: 1, after: [] };
G.st = st;

export const define = (name, props, init) => {
  const C = function (opts) { return G.boot(C, opts); };
  C.$$name = name; C.$$props = props; C.$$init = init;
  return C;
};
// components given as a plain function: (instance) => void
export const native = (name, props, init) => define(name, props, init);

export const text = (v) => String(v);
export const str = (v) => (v === null || v === undefined ? "" : String(v));
export const html = (v) => ({ html: String(v) });
export const id = (v) => {
  if ((typeof v === "object" && v) || typeof v === "function") {
    if (!st.ids.has(v)) st.ids.set(v, "o" + st.nextId++);
    return st.ids.get(v);
  }
  return typeof v + ":" + String(v);
};
export const at = (site, fn) => {
  st.path.push(site);
  try { return fn(); } finally { st.path.pop(); }
};
export const each = (site, list, key, fn, els) => {
  const arr = list === null || list === undefined ? [] : list.length === undefined ? Array.from(list) : list;
  if (list !== null && list !== undefined && typeof list === "object" && !("length" in list)) throw new Error("{#each} only iterates over array-like objects.");
  if (list === null || list === undefined) throw new TypeError("Cannot read properties of " + list + " (reading 'length')");
  const out = [];
  if (arr.length === 0 && els) return at(site + "e", els);
  for (let i = 0; i < arr.length; i++) out.push(at(site + "#" + key(arr[i], i), () => fn(arr[i], i)));
  return out;
};

class Inst {
  constructor(C, parent, path) {
    this.C = C; this.parent = parent; this.path = path; this.props = {}; this.dirtyNames = new Set(); this.all = true;
    this.get = {}; this.set = {}; this.reactives = []; this.mountFns = []; this.destroyFns = []; this.updateFns = []; this.context = new Map(); this.handlers = []; this.slots = {}; this.binds = {}; this.last = {};
  }
  prop(n, dflt) { return n in this.props && this.props[n] !== undefined ? this.props[n] : dflt(); }
  rest() { const r = {}; for (const k in this.props) if (!this.C.$$props.includes(k)) r[k] = this.props[k]; return r; }
  slotNames() { const r = {}; for (const k in this.slots) r[k] = true; return r; }
  a(names, v) {
    for (const n of String(names).split(",")) {
      if (!n) continue;
      this.dirtyNames.add(n);
      // a bound property tells its owner at once
      if (this.ready && this.binds[n] && this.get[n]) {
        const w = this.get[n]();
        if (w !== this.last[n] || (w && typeof w === "object")) { this.last[n] = w; this.props[n] = w; this.binds[n][1](w); }
      }
    }
    st.dirty = true;
    return v;
  }
  store(s) {
    let v;
    if (s === null || s === undefined) return undefined;
    const un = s.subscribe((x) => { v = x; });
    if (typeof un === "function") un();
    return v;
  }
  setStore(s, v) { s.set(v); st.dirty = true; return v; }
  fire(ev, e) { for (const [n, f] of this.handlers) if (n === ev && f) f(e); }
  slot(name, site, props, fallback) {
    const f = this.slots[name];
    if (!f) return fallback ? at(site, fallback) : null;
    return at("s" + site, () => f(props));
  }
  el(site, tag, attrs, binds, on, classes, styles, uses, bindThis, fn) {
    st.path.push(site);
    try {
      const key = st.path.join("/");
      const n = { tag, attrs: {}, on, binds, inst: this, key };
      for (const k in attrs) if (attrs[k] !== null && attrs[k] !== undefined && attrs[k] !== false) n.attrs[k] = attrs[k];
      for (const [c, v] of classes) if (v) n.attrs.class = (n.attrs.class ? n.attrs.class + " " : "") + c;
      for (const [c, v] of styles) if (v !== null && v !== undefined && v !== false) n.attrs.style = (n.attrs.style ? n.attrs.style + ";" : "") + c + ":" + v;
      if (bindThis || uses.length) {
        let el = st.elements.get(key);
        if (!el) {
          el = G.makeElement(tag);
          st.elements.set(key, el);
          if (bindThis) { bindThis(el); st.dirty = st.dirty; }
          for (const [f, p] of uses) st.mounts.push(() => f(el, p));
        }
        n.el = el;
      }
      n.children = fn();
      return n;
    } finally { st.path.pop(); }
  }
  child(site, C, props, binds, on, slots, bindThis) {
    if (!C) return null;
    st.path.push(site + C.$$name);
    try {
      const key = st.path.join("/");
      st.seen.add(key);
      let c = st.insts.get(key);
      const all = { ...props };
      for (const b in binds) all[b] = binds[b][0];
      if (!c) {
        c = new Inst(C, st.stack[st.stack.length - 1] || this, key);
        c.owner = this;
        st.insts.set(key, c);
        c.handlers = on; c.slots = slots; c.binds = binds; c.props = all;
        st.stack.push(c);
        try { G.current = c; C.$$init(c); } finally { st.stack.pop(); G.current = null; }
        c.ready = true;
        for (const f of c.mountFns) st.mounts.push(() => { const d = f(); if (typeof d === "function") c.destroyFns.push(d); });
        if (bindThis) bindThis(c);
      } else {
        c.handlers = on; c.slots = slots; c.binds = binds;
        for (const k in all) {
          if (!(k in c.props) || c.props[k] !== all[k] || (k in c.last && c.last[k] !== all[k])) {
            c.dirtyNames.add(k);
            if (c.set[k]) c.set[k](all[k]);
          }
        }
        c.props = all;
      }
      for (const b in binds) c.last[b] = all[b];
      const out = update(c);
      for (const b in binds) {
        if (!c.get[b]) continue;
        const v = c.get[b]();
        if (v !== c.last[b]) { c.last[b] = v; c.props[b] = v; binds[b][1](v); st.dirty = true; }
      }
      return { comp: C.$$name, inst: c, children: out };
    } finally { st.path.pop(); }
  }
}
G.Inst = Inst;

function update(c) {
  st.stack.push(c);
  try {
    for (const r of c.reactives) {
      const s = r.stores();
      const changed = c.all || r.deps.some((d) => c.dirtyNames.has(d)) || (r.last && s.some((v, i) => v !== r.last[i]));
      r.last = s;
      if (changed) r.run();
    }
    c.all = false;
    c.dirtyNames.clear();
    return c.render();
  } finally { st.stack.pop(); }
}

// renders until nothing changes any more
G.flush = () => {
  for (let n = 0; n < 50; n++) {
    st.dirty = false;
    st.seen = new Set();
    st.mounts = [];
    st.path = ["r"];
    st.stack = [];
    st.tree = [st.top.child(0, st.root, st.rootProps, {}, [], {}, null)];
    for (const [k, c] of [...st.insts]) if (!st.seen.has(k)) { st.insts.delete(k); for (const f of c.destroyFns) f(); for (const e of [...st.elements.keys()]) if (e.startsWith(k + "/")) st.elements.delete(e); }
    const m = st.mounts;
    st.mounts = [];
    st.dirty = false;
    for (const f of m) f();
    for (const c of st.insts.values()) for (const f of c.updateFns) f();
    if (m.length) { /* what mounting changed shows in the next round */ if (!st.dirty && ![...st.insts.values()].some((c) => c.dirtyNames.size)) return; continue; }
    if (!st.dirty && ![...st.insts.values()].some((c) => c.dirtyNames.size)) return;
  }
  throw new Error("the page never settles");
};

G.boot = (C, opts) => {
  st.root = C;
  st.rootProps = (opts && opts.props) || {};
  st.top = new Inst(define("top", [], () => {}), null, "");
  G.flush();
  return {};
};
