const G = globalThis.$$verif || (globalThis.$$verif = {});
export const writable = (v, start) => {
  const subs = new Set();
  const set = (x) => { v = x; if (G.st) G.st.dirty = true; for (const s of [...subs]) s(v); };
  return { set, update: (f) => set(f(v)), subscribe: (s) => { if (subs.size === 0 && start && !start.done) { start.done = true; start(set); } subs.add(s); s(v); return () => subs.delete(s); } };
};
export const readable = (v, start) => { const w = writable(v, start); return { subscribe: w.subscribe }; };
export const get = (s) => { let v; const u = s.subscribe((x) => { v = x; }); if (typeof u === "function") u(); return v; };
export const derived = (s, f, init) => {
  const one = !Array.isArray(s);
  return { subscribe: (cb) => { const vals = (one ? [s] : s).map(get); cb(f(one ? vals[0] : vals)); return () => {}; } };
};
