const G = globalThis.$$verif || (globalThis.$$verif = {});
const cur = () => { if (!G.current) throw new Error("Function called outside component initialization"); return G.current; };
export const onMount = (f) => cur().mountFns.push(f);
export const onDestroy = (f) => cur().destroyFns.push(f);
export const beforeUpdate = (f) => cur().updateFns.push(f);
export const afterUpdate = (f) => cur().updateFns.push(f);
export const tick = () => Promise.resolve();
export const setContext = (k, v) => { cur().context.set(k, v); return v; };
export const getContext = (k) => { for (let i = cur().parent; i; i = i.parent) if (i.context.has(k)) return i.context.get(k); const c = cur(); return c.context.get(k); };
export const hasContext = (k) => { for (let i = cur(); i; i = i.parent) if (i.context.has(k)) return true; return false; };
export const createEventDispatcher = () => { const c = cur(); return (n, detail) => c.fire(n, { type: n, detail }); };
