// node page.mjs DIR: opens pages of the bundled front end on request (one JSON per line).
import fs from "node:fs";
import path from "node:path";
import readline from "node:readline";
const dir = process.argv[2];
const code = {};
for (const k of ["main", "mermaid"]) code[k] = new Function("window", "document", "navigator", fs.readFileSync(path.join(dir, k + ".js"), "utf8"));

let page = null;
let rejected = null;
process.on("unhandledRejection", (e) => { rejected = e; });

const makeElement = (tag) => ({ tag, style: new Proxy({}, { get: (t, k) => t[k] ?? "", set: (t, k, v) => { t[k] = v; return true; } }), innerHTML: "", textContent: "", chart: null, classList: { add() {}, remove() {}, toggle() {} }, setAttribute() {}, getAttribute() { return null; }, addEventListener() {}, removeEventListener() {}, appendChild(x) { return x; }, querySelector() { return null; }, querySelectorAll() { return []; } });

function open(req) {
  globalThis.$$verif = { makeElement };
  const clip = [];
  const window = { grParam: JSON.parse(req.param), location: { href: "file:///work/report.html" }, addEventListener() {}, removeEventListener() {} };
  window.window = window;
  const document = { getElementById: () => makeElement("div"), createElement: (t) => makeElement(t), querySelector: () => makeElement("div"), addEventListener() {}, body: makeElement("body") };
  const navigator = { clipboard: { writeText: (t) => { clip.push(t); return Promise.resolve(); } } };
  code[req.kind](window, document, navigator);
  page = { G: globalThis.$$verif, clip };
}

function charts() { return page.G.charts ? page.G.charts.filter((c) => c.rendered) : []; }

const plainValue = (v) => (v instanceof Date ? v.getTime() : v);

function snapshot() {
  const acts = [];
  const live = charts();
  const num = (v) => (v === null || v === undefined ? null : typeof v === "number" ? (Number.isFinite(v) ? v : String(v)) : String(v));
  const ser = (n) => {
    if (n === null || n === undefined || n === false) return null;
    if (typeof n === "string") return n;
    if (Array.isArray(n)) { const r = []; for (const x of n) { const y = ser(x); if (y === null) continue; if (Array.isArray(y)) r.push(...y); else r.push(y); } return r; }
    if (n.comp) { return ser(n.children); }
    if ("html" in n) return { t: "#html", h: n.html };
    const a = {};
    for (const k in n.attrs) a[k] = typeof n.attrs[k] === "object" || typeof n.attrs[k] === "function" ? "[object]" : String(n.attrs[k]);
    const o = { t: n.tag, a, c: ser(n.children) || [] };
    if ((n.on && n.on.length) || n.toggle || (n.binds && Object.keys(n.binds).length)) { o.n = acts.length; acts.push(n); }
    if (n.el) {
      if (n.el.chart) o.chart = live.indexOf(n.el.chart);
      if (n.el.innerHTML) o.inner = n.el.innerHTML;
    }
    return o;
  };
  const tree = { t: "#root", a: {}, c: ser(page.G.st.tree) };
  page.acts = acts;
  const cs = live.map((ch) => {
    const o = ch.options;
    const series = (o.series || []).map((s) => ({ name: s.name === undefined ? null : String(s.name), database: s.database === undefined ? null : String(s.database), data: s.data.map((d) => {
      if (d === null || d === undefined) return null;
      const y = Array.isArray(d.y) ? d.y.map(num) : [num(d.y)];
      return [typeof d.x === "object" && d.x instanceof Date ? d.x.getTime() : d.x, ...y];
    }) }));
    let labels = null;
    if (o.dataLabels && o.dataLabels.formatter && o.dataLabels.enabled) labels = (o.series || []).map((s, si) => s.data.map((_, di) => String(o.dataLabels.formatter(0, { seriesIndex: si, dataPointIndex: di, w: { config: o } }))));
    return { type: o.chart && o.chart.type, series, labels, title: o.title ? o.title.text : null };
  });
  return { tree, charts: cs, diagrams: page.G.diagrams || [], clip: page.clip };
}

function act(req) {
  const G = page.G;
  switch (req.do) {
    case "press": {
      const n = page.acts[req.n];
      if (n.toggle) n.toggle(!n.attrs.checked);
      else for (const [ev, f] of n.on) if (ev === "click" && f) f({ type: "click", preventDefault() {}, stopPropagation() {} });
      break;
    }
    case "bar": {
      const o = charts()[req.chart].options;
      o.chart.events.click({}, { w: { config: o } }, { seriesIndex: req.s, dataPointIndex: req.p });
      break;
    }
    case "hover": {
      const o = charts()[req.chart].options;
      const f = o.chart.events.dataPointMouseEnter;
      if (f) { const el = makeElement("path"); f({ path: [el], target: el }, { w: { config: o } }, { seriesIndex: req.s, dataPointIndex: req.p }); }
      break;
    }
    case "tooltip": {
      const o = charts()[req.chart].options;
      return { text: String(o.tooltip.custom({ seriesIndex: req.s, dataPointIndex: req.p, w: { config: o } })) };
    }
  }
  G.flush();
  return {};
}

const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
let queue = Promise.resolve();
rl.on("line", (line) => { queue = queue.then(() => answer(line)); });
async function answer(line) {
  let res = {};
  rejected = null;
  try {
    const req = JSON.parse(line);
    let extra = {};
    if (req.do === "open") open(req);
    else extra = act(req);
    await new Promise((r) => setImmediate(r));
    if (rejected) throw rejected;
    res = req.do === "tooltip" ? extra : { ...snapshot(), ...extra };
  } catch (e) {
    res = { error: String(e && e.stack ? e.stack : e).slice(0, 1500) };
  }
  process.stdout.write(JSON.stringify(res) + "\n");
}
