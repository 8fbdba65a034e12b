// A small compiler for the part of Svelte 3 a front end like this one is written in.
// It turns a .svelte file into a module for rt.js, which renders to a plain tree and
// lets the harness act on it. What it does not know, it refuses (it never guesses).
import { createRequire } from "node:module";
const NM = process.env.VERIF_NODE_MODULES || "/opt/veriftools/node/node_modules";
const require = createRequire(NM + "/");
const acorn = require("acorn");
const MagicString = require("magic-string").default || require("magic-string");
const esbuild = require("esbuild");

const VOID = new Set("area base br col embed hr img input link meta param source track wbr".split(" "));

class Unsupported extends Error {}

// ---- names -------------------------------------------------------------------

function patternNames(p, out = []) {
  if (!p) return out;
  switch (p.type) {
    case "Identifier": out.push(p.name); break;
    case "ObjectPattern": for (const q of p.properties) patternNames(q.type === "RestElement" ? q.argument : q.value, out); break;
    case "ArrayPattern": for (const q of p.elements) patternNames(q, out); break;
    case "RestElement": patternNames(p.argument, out); break;
    case "AssignmentPattern": patternNames(p.left, out); break;
  }
  return out;
}

function children(n) {
  const r = [];
  for (const k of Object.keys(n)) {
    if (k === "type" || k === "start" || k === "end") continue;
    const v = n[k];
    if (Array.isArray(v)) { for (const x of v) if (x && typeof x.type === "string") r.push([k, x]); }
    else if (v && typeof v.type === "string") r.push([k, v]);
  }
  return r;
}

// declarations directly in a block (let/const/class/function) and var in a function
function declared(body, out, varsOnly = false) {
  for (const s of body) {
    if (!s) continue;
    const d = s.type === "ExportNamedDeclaration" ? s.declaration : s;
    if (!d) continue;
    if (d.type === "VariableDeclaration" && (!varsOnly || d.kind === "var")) for (const v of d.declarations) patternNames(v.id, out);
    else if (!varsOnly && (d.type === "FunctionDeclaration" || d.type === "ClassDeclaration") && d.id) out.push(d.id.name);
    else if (!varsOnly && d.type === "ImportDeclaration") for (const v of d.specifiers) out.push(v.local.name);
  }
  return out;
}

// walks with scope; cb(kind, node, parent, scoped(name) -> shadowed?)
function walk(node, cb, scopes = [], parent = null, key = null) {
  const shadowed = (n) => scopes.some((s) => s.has(n));
  let inner = scopes;
  if (/Function/.test(node.type)) {
    const s = new Set();
    for (const p of node.params) patternNames(p).forEach((n) => s.add(n));
    if (node.type === "FunctionExpression" && node.id) s.add(node.id.name);
    if (node.body.type === "BlockStatement") declared(node.body.body, []).forEach((n) => s.add(n));
    inner = [...scopes, s];
  } else if (node.type === "BlockStatement" || node.type === "StaticBlock") {
    inner = [...scopes, new Set(declared(node.body, []))];
  } else if (/^For/.test(node.type)) {
    const s = new Set();
    const d = node.init || node.left;
    if (d && d.type === "VariableDeclaration") for (const v of d.declarations) patternNames(v.id).forEach((n) => s.add(n));
    inner = [...scopes, s];
  } else if (node.type === "CatchClause") {
    inner = [...scopes, new Set(patternNames(node.param))];
  } else if (node.type === "SwitchStatement") {
    const s = new Set();
    for (const c of node.cases) declared(c.consequent, []).forEach((n) => s.add(n));
    inner = [...scopes, s];
  }
  cb(node, parent, key, shadowed);
  for (const [k, c] of children(node)) walk(c, cb, inner, node, k);
}

function isRef(node, parent, key) {
  if (node.type !== "Identifier") return false;
  if (!parent) return true;
  if (parent.type === "MemberExpression" && key === "property" && !parent.computed) return false;
  if (parent.type === "Property" && key === "key" && !parent.computed) return parent.shorthand ? false : false;
  if ((parent.type === "MethodDefinition" || parent.type === "PropertyDefinition") && key === "key" && !parent.computed) return false;
  if (parent.type === "LabeledStatement" || parent.type === "BreakStatement" || parent.type === "ContinueStatement") return false;
  if (/^Import|^Export/.test(parent.type) && parent.type !== "ExportDefaultDeclaration") return false;
  return true;
}

function rootNames(target) {
  switch (target.type) {
    case "Identifier": return [target.name];
    case "MemberExpression": {
      let o = target;
      while (o.type === "MemberExpression" || o.type === "ChainExpression") o = o.type === "ChainExpression" ? o.expression : o.object;
      return o.type === "Identifier" ? [o.name] : [];
    }
    case "ObjectPattern": return target.properties.flatMap((p) => rootNames(p.type === "RestElement" ? p.argument : p.value));
    case "ArrayPattern": return target.elements.filter(Boolean).flatMap(rootNames);
    case "AssignmentPattern": return rootNames(target.left);
    case "RestElement": return rootNames(target.argument);
  }
  return [];
}

// instruments one piece of code: stores and assignments
function instrument(ms, ast, off, ctx) {
  // off: position of the piece inside ms
  const isStore = (n) => n.startsWith("$") && !n.startsWith("$$") && n.length > 1 && !ctx.vars.has(n) && !ctx.locals?.has?.(n) &&
    (ctx.vars.has(n.slice(1)) || ctx.locals?.has?.(n.slice(1)));
  walk(ast, (n, parent, key, shadowed) => {
    if (n.type === "AssignmentExpression" || n.type === "UpdateExpression") {
      const target = n.type === "AssignmentExpression" ? n.left : n.argument;
      if (target.type === "Identifier" && isStore(target.name) && !shadowed(target.name)) {
        const name = target.name.slice(1);
        if (n.type === "UpdateExpression") {
          ms.overwrite(off + n.start, off + n.end, `$$i.setStore(${name}, $$i.store(${name}) ${n.operator[0]} 1)`);
        } else {
          const op = n.operator.slice(0, -1);
          ms.overwrite(off + n.left.start, off + n.right.start, `$$i.setStore(${name}, ${op ? `$$i.store(${name}) ${op} ` : ""}(`);
          ms.appendLeft(off + n.end, "))");
        }
        n.__store = true;
        target.__done = true;
        return;
      }
      const roots = rootNames(target).filter((r) => !shadowed(r)).flatMap((r) => ctx.rootOf ? ctx.rootOf(r) : [r]).filter((r) => ctx.vars.has(r));
      if (roots.length) {
        ms.prependRight(off + n.start, `$$i.a(${JSON.stringify(roots.join(","))}, (`);
        ms.appendLeft(off + n.end, "))");
      }
      return;
    }
    if (n.type === "Property" && n.shorthand && n.value.type === "Identifier" && isStore(n.value.name) && !shadowed(n.value.name)) {
      ms.overwrite(off + n.start, off + n.end, `${n.value.name}: $$i.store(${n.value.name.slice(1)})`);
      n.value.__done = true;
      return;
    }
    if (isRef(n, parent, key) && !n.__done) {
      if (isStore(n.name) && !shadowed(n.name)) ms.overwrite(off + n.start, off + n.end, `$$i.store(${n.name.slice(1)})`);
      else if (n.name === "$$props") ms.overwrite(off + n.start, off + n.end, "$$i.props");
      else if (n.name === "$$restProps") ms.overwrite(off + n.start, off + n.end, "$$i.rest()");
      else if (n.name === "$$slots") ms.overwrite(off + n.start, off + n.end, "$$i.slotNames()");
    }
  });
}

function freeRefs(ast) {
  const s = new Set();
  walk(ast, (n, parent, key, shadowed) => {
    if (n.type === "Property" && n.shorthand && n.value.type === "Identifier" && !shadowed(n.value.name)) s.add(n.value.name);
    if (isRef(n, parent, key) && !shadowed(n.name)) s.add(n.name);
  });
  return s;
}

// ---- markup ------------------------------------------------------------------

class Parser {
  constructor(src) { this.s = src; this.p = 0; }
  fail(m) { throw new Unsupported(`${m} at ${this.p}: ${JSON.stringify(this.s.slice(this.p, this.p + 60))}`); }
  ws() { while (/\s/.test(this.s[this.p] || "")) this.p++; }
  eat(t) { if (this.s.startsWith(t, this.p)) { this.p += t.length; return true; } return false; }
  need(t) { if (!this.eat(t)) this.fail(`expected ${t}`); }
  expr() {
    this.ws();
    const ast = acorn.parseExpressionAt(this.s, this.p, { ecmaVersion: "latest", sourceType: "module" });
    // parentheses around the whole are not part of the node
    const start = this.p;
    let end = ast.end;
    let depth = 0;
    for (let i = start; i < ast.start; i++) if (this.s[i] === "(") depth++;
    while (depth > 0) { const j = this.s.indexOf(")", end); end = j + 1; depth--; }
    this.p = end;
    return { ast, text: this.s.slice(ast.start, ast.end), at: ast.start };
  }
  exprBrace() { const e = this.expr(); this.ws(); this.need("}"); return e; }
  nodes(stop) {
    const out = [];
    let text = "";
    const flush = () => { if (text) { out.push({ k: "text", v: text }); text = ""; } };
    for (;;) {
      if (this.p >= this.s.length) { flush(); if (stop) this.fail(`missing ${stop}`); return out; }
      const c = this.s[this.p];
      if (c === "{") {
        const rest = this.s.slice(this.p + 1).match(/^\s*([#:\/@])/);
        if (rest && (rest[1] === ":" || rest[1] === "/") ) { flush(); return out; }
        flush();
        if (rest && rest[1] === "#") out.push(this.block());
        else if (rest && rest[1] === "@") out.push(this.at());
        else { this.p++; out.push({ k: "mustache", e: this.exprBrace() }); }
      } else if (this.s.startsWith("<!--", this.p)) {
        flush();
        const j = this.s.indexOf("-->", this.p);
        this.p = j < 0 ? this.s.length : j + 3;
      } else if (this.s.startsWith("</", this.p)) {
        flush();
        return out;
      } else if (c === "<" && /[a-zA-Z]/.test(this.s[this.p + 1] || "")) {
        flush();
        out.push(this.element());
      } else { text += c; this.p++; }
    }
  }
  at() {
    const m = /^\{\s*@(\w+)/.exec(this.s.slice(this.p));
    this.p += m[0].length;
    if (m[1] === "html") return { k: "html", e: this.exprBrace() };
    if (m[1] === "debug") { this.p = this.s.indexOf("}", this.p) + 1; return { k: "text", v: "" }; }
    if (m[1] === "const") {
      const e = this.exprBrace();
      if (e.ast.type !== "AssignmentExpression") this.fail("@const");
      return { k: "const", e };
    }
    this.fail("@" + m[1]);
  }
  tagOpen(re) { const m = re.exec(this.s.slice(this.p)); if (!m) return null; this.p += m[0].length; return m; }
  block() {
    const m = this.tagOpen(/^\{\s*#(\w+)/);
    if (m[1] === "if") {
      const arms = [{ e: this.exprBrace(), c: this.nodes("{/if}") }];
      let els = null;
      for (;;) {
        if (this.tagOpen(/^\{\s*:else\s+if\b/)) arms.push({ e: this.exprBrace(), c: this.nodes("{/if}") });
        else if (this.tagOpen(/^\{\s*:else\s*\}/)) els = this.nodes("{/if}");
        else if (this.tagOpen(/^\{\s*\/if\s*\}/)) return { k: "if", arms, els };
        else this.fail("if");
      }
    }
    if (m[1] === "each") {
      const e = this.expr();
      this.ws(); this.need("as"); this.ws();
      const start = this.p;
      let depth = 0;
      while (this.p < this.s.length) {
        const c = this.s[this.p];
        if ("{[".includes(c)) depth++;
        else if ("}]".includes(c)) { if (depth === 0) break; depth--; }
        else if (depth === 0 && (c === "," || c === "(")) break;
        this.p++;
      }
      const pat = this.s.slice(start, this.p).trim();
      let index = null, keyE = null;
      if (this.eat(",")) { this.ws(); const im = this.tagOpen(/^[\w$]+/); index = im[0]; this.ws(); }
      if (this.eat("(")) { keyE = this.expr(); this.ws(); this.need(")"); this.ws(); }
      this.ws(); this.need("}");
      const c = this.nodes("{/each}");
      let els = null;
      if (this.tagOpen(/^\{\s*:else\s*\}/)) els = this.nodes("{/each}");
      if (!this.tagOpen(/^\{\s*\/each\s*\}/)) this.fail("each");
      return { k: "each", e, pat, index, key: keyE, c, els };
    }
    if (m[1] === "key") {
      const e = this.exprBrace();
      const c = this.nodes("{/key}");
      if (!this.tagOpen(/^\{\s*\/key\s*\}/)) this.fail("key");
      return { k: "key", e, c };
    }
    this.fail("#" + m[1]);
  }
  attrValue() {
    // returns parts
    if (this.s[this.p] === "{") { this.p++; return [this.exprBrace()]; }
    const q = this.s[this.p];
    const parts = [];
    let text = "";
    const quoted = q === '"' || q === "'";
    if (quoted) this.p++;
    for (;;) {
      const c = this.s[this.p];
      if (c === undefined) this.fail("attribute");
      if (quoted ? c === q : /[\s>]/.test(c) || this.s.startsWith("/>", this.p)) break;
      if (c === "{") { if (text) parts.push(text); text = ""; this.p++; parts.push(this.exprBrace()); }
      else { text += c; this.p++; }
    }
    if (quoted) this.p++;
    if (text || parts.length === 0) parts.push(decode(text));
    return parts;
  }
  element() {
    this.need("<");
    const name = this.tagOpen(/^[a-zA-Z][\w:.-]*/)[0];
    const attrs = [];
    for (;;) {
      this.ws();
      if (this.eat("/>")) return { k: "el", name, attrs, c: [] };
      if (this.eat(">")) break;
      if (this.s[this.p] === "{") {
        this.p++;
        this.ws();
        if (this.eat("...")) attrs.push({ spread: this.exprBrace() });
        else { const e = this.exprBrace(); attrs.push({ name: e.text, v: [e] }); }
        continue;
      }
      const an = this.tagOpen(/^[^\s=\/>"']+/);
      if (!an) this.fail("attribute");
      let v = true;
      this.ws();
      if (this.eat("=")) { this.ws(); v = this.attrValue(); }
      attrs.push({ name: an[0], v });
    }
    if (VOID.has(name)) return { k: "el", name, attrs, c: [] };
    if (name === "textarea" || name === "script" || name === "style") {
      const j = this.s.indexOf(`</${name}`, this.p);
      const t = this.s.slice(this.p, j);
      this.p = this.s.indexOf(">", j) + 1;
      return { k: "el", name, attrs, c: t ? [{ k: "text", v: t }] : [] };
    }
    const c = this.nodes(`</${name}>`);
    const m = this.tagOpen(/^<\/([\w:.-]+)\s*>/);
    if (!m || m[1] !== name) this.fail(`</${name}>`);
    return { k: "el", name, attrs, c };
  }
}

function decode(t) {
  return t.replace(/&(nbsp|lt|gt|amp|quot|apos|#\d+|#x[0-9a-fA-F]+);/g, (_, n) =>
    ({ nbsp: "\u00a0", lt: "<", gt: ">", amp: "&", quot: '"', apos: "'" })[n] ??
    String.fromCodePoint(n[1] === "x" ? parseInt(n.slice(2), 16) : parseInt(n.slice(1), 10)));
}

// ---- code --------------------------------------------------------------------

class Gen {
  constructor(vars) { this.vars = vars; this.site = 0; }
  code(e, locals) {
    const ms = new MagicString(e.text);
    const rootOf = (r) => (locals.has(r) ? locals.get(r) : [r]);
    instrument(ms, e.ast, -e.at, { vars: this.vars, locals, rootOf });
    return "(" + ms.toString() + ")";
  }
  list(nodes, locals) {
    // @const is visible to its siblings
    let l = locals;
    const consts = nodes.filter((n) => n.k === "const");
    let pre = "";
    if (consts.length) {
      l = new Map(locals);
      for (const n of consts) for (const x of patternNames(n.e.ast.left)) l.set(x, []);
      for (const n of consts) {
        const right = { ast: n.e.ast.right, text: n.e.text.slice(n.e.ast.right.start - n.e.at, n.e.ast.right.end - n.e.at), at: n.e.ast.right.start };
        const left = n.e.text.slice(0, n.e.ast.left.end - n.e.at);
        pre += `const ${left} = ${this.code(right, l)};`;
      }
    }
    const parts = nodes.filter((n) => n.k !== "const").map((n) => this.node(n, l)).filter(Boolean);
    const arr = `[${parts.join(",\n")}]`;
    return pre ? `(() => { ${pre} return ${arr}; })()` : arr;
  }
  node(n, locals) {
    switch (n.k) {
      case "text": return JSON.stringify(decode(n.v));
      case "mustache": return `$$rt.text(${this.code(n.e, locals)})`;
      case "html": return `$$rt.html(${this.code(n.e, locals)})`;
      case "if": {
        let s = "";
        for (const a of n.arms) s += `${this.code(a.e, locals)} ? $$rt.at(${this.site++}, () => ${this.list(a.c, locals)}) : `;
        s += n.els ? `$$rt.at(${this.site++}, () => ${this.list(n.els, locals)})` : "null";
        return `(${s})`;
      }
      case "key": return `$$rt.at(${this.site++} + ":" + $$rt.id(${this.code(n.e, locals)}), () => ${this.list(n.c, locals)})`;
      case "each": {
        const pat = acorn.parseExpressionAt(`(${n.pat})=>0`, 0, { ecmaVersion: "latest" }).params[0];
        const roots = [...freeRefs(n.e.ast)].filter((r) => this.vars.has(r) || locals.has(r)).flatMap((r) => locals.get(r) ?? [r]);
        const l = new Map(locals);
        for (const x of patternNames(pat)) l.set(x, roots);
        const idx = n.index || "$$x";
        l.set(idx, []);
        const key = n.key ? this.code(n.key, l) : idx;
        const els = n.els ? `() => ${this.list(n.els, locals)}` : "null";
        return `$$rt.each(${this.site++}, ${this.code(n.e, locals)}, (${n.pat}, ${idx}) => ${n.key ? `$$rt.id(${key})` : idx}, (${n.pat}, ${idx}) => ${this.list(n.c, l)}, ${els})`;
      }
      case "el": return this.el(n, locals);
    }
    throw new Unsupported(n.k);
  }
  value(v, locals) {
    if (v === true) return "true";
    if (v.length === 1) return typeof v[0] === "string" ? JSON.stringify(v[0]) : this.code(v[0], locals);
    return "(" + v.map((p) => (typeof p === "string" ? JSON.stringify(p) : `$$rt.str(${this.code(p, locals)})`)).join(" + ") + ")";
  }
  setter(v, name, locals) {
    // bind:x={lhs} or bind:x
    const e = v === true ? { ast: acorn.parseExpressionAt(name, 0, { ecmaVersion: "latest" }), text: name, at: 0 } : v[0];
    const roots = rootNames(e.ast).flatMap((r) => (locals.has(r) ? locals.get(r) : [r])).filter((r) => this.vars.has(r));
    const lhs = e.text;
    if (/^\$[^$]/.test(lhs) && e.ast.type === "Identifier")
      return [`$$i.store(${lhs.slice(1)})`, `($$v) => { $$i.setStore(${lhs.slice(1)}, $$v); }`];
    return [this.code(e, locals), `($$v) => { $$i.a(${JSON.stringify(roots.join(","))}, (${lhs} = $$v)); }`];
  }
  el(n, locals) {
    if (n.name === "style" || n.name === "svelte:options") return null;
    if (n.name === "svelte:head" || n.name === "svelte:window" || n.name === "svelte:body") return null;
    const comp = /^[A-Z]/.test(n.name) || n.name === "svelte:component" || n.name === "svelte:self";
    const attrs = [], on = [], binds = [], lets = [], classes = [], styles = [], uses = [];
    let bindThis = null, slotAttr = null, thisExpr = null;
    for (const a of n.attrs) {
      if (a.spread) { attrs.push(`...${this.code(a.spread, locals)}`); continue; }
      const colon = a.name.indexOf(":");
      const dir = colon > 0 ? a.name.slice(0, colon) : "";
      const rest = colon > 0 ? a.name.slice(colon + 1) : "";
      if (dir === "on") {
        const ev = rest.split("|")[0];
        on.push(`[${JSON.stringify(ev)}, ${a.v === true ? `($$e) => $$i.fire(${JSON.stringify(ev)}, $$e)` : this.value(a.v, locals)}]`);
      } else if (dir === "bind") {
        const [get, set] = this.setter(a.v, rest, locals);
        if (rest === "this") bindThis = set;
        else binds.push(`${JSON.stringify(rest)}: [${get}, ${set}]`);
      } else if (dir === "let") {
        lets.push(a.v === true ? rest : `${rest}: ${a.v[0].text}`);
      } else if (dir === "class") {
        classes.push(`[${JSON.stringify(rest)}, ${a.v === true ? this.code({ ast: acorn.parseExpressionAt(rest, 0, { ecmaVersion: "latest" }), text: rest, at: 0 }, locals) : this.value(a.v, locals)}]`);
      } else if (dir === "style") {
        styles.push(`[${JSON.stringify(rest.split("|")[0])}, ${a.v === true ? rest : this.value(a.v, locals)}]`);
      } else if (dir === "use") {
        uses.push(`[${rest}, ${a.v === true ? "undefined" : this.value(a.v, locals)}]`);
      } else if (dir === "transition" || dir === "in" || dir === "out" || dir === "animate") {
        continue;
      } else if (a.name === "slot") {
        slotAttr = a.v[0];
      } else if (a.name === "this" && n.name === "svelte:component") {
        thisExpr = this.value(a.v, locals);
      } else attrs.push(`${JSON.stringify(a.name)}: ${this.value(a.v, locals)}`);
    }
    n.__lets = lets;
    const obj = `{${attrs.join(", ")}}`;
    if (n.name === "svelte:fragment") return `$$rt.at(${this.site++}, () => ${this.list(n.c, locals)})`;
    if (n.name === "slot") {
      const nm = n.attrs.find((a) => a.name === "name");
      const props = n.attrs.filter((a) => a.name !== "name");
      const po = `{${props.map((a) => (a.spread ? `...${this.code(a.spread, locals)}` : `${JSON.stringify(a.name)}: ${this.value(a.v, locals)}`)).join(", ")}}`;
      return `$$i.slot(${JSON.stringify(nm ? nm.v[0] : "default")}, ${this.site++}, ${po}, ${n.c.length ? `() => ${this.list(n.c, locals)}` : "null"})`;
    }
    if (comp) {
      const slots = new Map();
      const deflt = [];
      for (const c of n.c) {
        const sa = c.k === "el" && c.attrs.find((a) => a.name === "slot");
        if (sa) {
          if (!slots.has(sa.v[0])) slots.set(sa.v[0], []);
          slots.get(sa.v[0]).push(c);
        } else deflt.push(c);
      }
      const letNames = (ls) => ls.flatMap((x) => patternNames(acorn.parseExpressionAt(`({${x}})=>0`, 0, { ecmaVersion: "latest" }).params[0]));
      const slotCode = [];
      const emit = (name, nodes) => {
        const extra = nodes.filter((c) => c.k === "el").flatMap((c) => c.attrs.filter((a) => (a.name || "").startsWith("let:")).map((a) => (a.v === true ? a.name.slice(4) : `${a.name.slice(4)}: ${a.v[0].text}`)));
        const all = [...new Set([...lets, ...(name === "default" ? [] : extra)])];
        const l = new Map(locals);
        for (const x of letNames(all)) l.set(x, []);
        slotCode.push(`${JSON.stringify(name)}: ({${all.join(", ")}}) => ${this.list(nodes, l)}`);
      };
      if (deflt.some((c) => c.k !== "text" || c.v.trim())) emit("default", deflt);
      for (const [k, v] of slots) emit(k, v);
      const c = n.name === "svelte:component" ? thisExpr : n.name === "svelte:self" ? "$$self" : n.name;
      return `$$i.child(${this.site++}, ${c}, ${obj}, {${binds.join(", ")}}, [${on.join(", ")}], {${slotCode.join(", ")}}, ${bindThis || "null"})`;
    }
    return `$$i.el(${this.site++}, ${JSON.stringify(n.name)}, ${obj}, {${binds.join(", ")}}, [${on.join(", ")}], [${classes.join(", ")}], [${styles.join(", ")}], [${uses.join(", ")}], ${bindThis || "null"}, () => ${this.list(n.c, locals)})`;
  }
}

export async function compile(source, file) {
  let script = "", moduleScript = "";
  let markup = source.replace(/<script([^>]*)>([\s\S]*?)<\/script>/g, (_, a, b) => {
    if (/context\s*=\s*["']module["']/.test(a)) moduleScript += b;
    else script += b;
    return "";
  });
  markup = markup.replace(/<style[^>]*>[\s\S]*?<\/style>/g, "");
  const strip = async (t) =>
    (await esbuild.transform(t, { loader: "ts", target: "esnext", charset: "utf8", sourcefile: file,
      tsconfigRaw: { compilerOptions: { verbatimModuleSyntax: true, experimentalDecorators: true } } })).code;
  const js = await strip(script);
  const mjs = moduleScript ? await strip(moduleScript) : "";
  const ast = acorn.parse(js, { ecmaVersion: "latest", sourceType: "module" });
  const vars = new Set(declared(ast.body, []));
  if (mjs) declared(acorn.parse(mjs, { ecmaVersion: "latest", sourceType: "module" }).body, []).forEach((n) => vars.add(n));
  const implicit = [];
  for (const s of ast.body) {
    if (s.type === "LabeledStatement" && s.label.name === "$" && s.body.type === "ExpressionStatement") {
      let x = s.body.expression;
      if (x.type === "AssignmentExpression")
        for (const n of rootNames(x.left)) if (x.left.type !== "MemberExpression" && !vars.has(n) && !n.startsWith("$")) { vars.add(n); implicit.push(n); }
    }
  }
  const ms = new MagicString(js);
  const imports = [], props = [], reactives = [];
  instrument(ms, ast, 0, { vars });
  for (const s of ast.body) {
    if (s.type === "ImportDeclaration") { imports.push(js.slice(s.start, s.end)); ms.remove(s.start, s.end); continue; }
    if (s.type === "ExportNamedDeclaration") {
      if (!s.declaration) throw new Unsupported("export list");
      const d = s.declaration;
      ms.remove(s.start, d.start);
      if (d.type === "VariableDeclaration" && d.kind !== "const") {
        for (const v of d.declarations) {
          if (v.id.type !== "Identifier") throw new Unsupported("export pattern");
          props.push(v.id.name);
          if (v.init) { ms.prependRight(v.init.start, `$$i.prop(${JSON.stringify(v.id.name)}, () => (`); ms.appendLeft(v.init.end, "))"); }
          else ms.appendLeft(v.end, ` = $$i.prop(${JSON.stringify(v.id.name)}, () => undefined)`);
        }
      }
      continue;
    }
    if (s.type === "LabeledStatement" && s.label.name === "$") {
      const refs = freeRefs(s.body);
      const assigned = new Set();
      walk(s.body, (n, p, k, sh) => {
        if (n.type === "AssignmentExpression") rootNames(n.left).filter((r) => !sh(r)).forEach((r) => assigned.add(r));
        if (n.type === "UpdateExpression") rootNames(n.argument).filter((r) => !sh(r)).forEach((r) => assigned.add(r));
      });
      // a name only on the left side of an assignment is no dependency
      const deps = new Set();
      const expr = s.body.type === "ExpressionStatement" && s.body.expression.type === "AssignmentExpression" && s.body.expression.operator === "=" ? s.body.expression : null;
      const within = expr && (expr.left.type === "Identifier" || expr.left.type.endsWith("Pattern")) ? freeRefs(expr.right) : refs;
      for (const r of within) {
        if (r.startsWith("$") && !r.startsWith("$$")) deps.add(r);
        else if (vars.has(r) && !(expr ? false : assigned.has(r) && !refs.has(r))) deps.add(r);
      }
      reactives.push({ s, deps: [...deps], assigned: [...assigned] });
      continue;
    }
  }
  // order of reactive statements: by what they need of each other
  const sorted = [];
  const state = new Map();
  const visit = (r) => {
    if (state.get(r)) return;
    state.set(r, 1);
    for (const o of reactives) if (o !== r && o.assigned.some((x) => r.deps.includes(x))) visit(o);
    sorted.push(r);
  };
  reactives.forEach(visit);
  const bodies = new Map();
  for (const r of reactives) bodies.set(r, ms.slice(r.s.body.start, r.s.body.end));
  for (const r of reactives) ms.remove(r.s.start, r.s.end);

  const p = new Parser(markup.trim());
  const tree = p.nodes(null);
  if (p.p < p.s.length) p.fail("trailing markup");
  const gen = new Gen(vars);
  const render = gen.list(tree, new Map());
  const settable = props;
  return `${imports.join("\n")}
${mjs}
import * as $$rt from "verif:rt";
const $$self = $$rt.define(${JSON.stringify(file.replace(/.*\//, ""))}, ${JSON.stringify(props)}, function ($$i) {
${implicit.length ? `let ${implicit.join(", ")};` : ""}
${ms.toString()}
$$i.get = { ${settable.map((n) => `${JSON.stringify(n)}: () => ${n}`).join(", ")} };
$$i.set = { ${settable.map((n) => `${JSON.stringify(n)}: ($$v) => { ${n} = $$v; }`).join(", ")} };
$$i.reactives = [${sorted.map((r) => `{ deps: ${JSON.stringify(r.deps.filter((d) => !d.startsWith("$")))}, stores: () => [${r.deps.filter((d) => d.startsWith("$")).map((d) => `$$i.store(${d.slice(1)})`).join(", ")}], run() { ${bodies.get(r)} } }`).join(",\n")}];
$$i.render = () => ${render};
});
export default $$self;
`;
}
export { Unsupported };
