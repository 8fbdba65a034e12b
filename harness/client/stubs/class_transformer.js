// The part of class-transformer in use: plain objects become instances, nested ones by @Type.
const types = new Map();
export const Type = (fn) => (proto, key) => {
  const c = proto.constructor;
  if (!types.has(c)) types.set(c, new Map());
  types.get(c).set(key, fn);
};
const typeOf = (cls, key) => {
  for (let c = cls; c && c !== Object; c = Object.getPrototypeOf(c)) {
    if (c.prototype === undefined) break;
    const m = types.get(c);
    if (m && m.has(key)) return m.get(key)();
  }
};
const conv = (cls, v) => {
  if (v === null || v === undefined) return v;
  if (Array.isArray(v)) return v.map((x) => conv(cls, x));
  if (v instanceof Date) return new Date(v.getTime());
  if (typeof v !== "object") return v;
  if (!cls) { const o = {}; for (const k of Object.keys(v)) if (k !== "__proto__") o[k] = conv(undefined, v[k]); return o; }
  const o = new cls();
  for (const k of Object.keys(v)) {
    if (k === "__proto__" || k === "constructor") continue;
    if (typeof v[k] === "function" && typeof o[k] === "function") continue;
    const d = Object.getOwnPropertyDescriptor(cls.prototype, k);
    if (d && d.get && !d.set) continue;
    o[k] = conv(typeOf(cls, k), v[k]);
  }
  return o;
};
export const plainToInstance = (cls, v) => conv(cls, v);
export const plainToClass = plainToInstance;
export const instanceToPlain = (v) => JSON.parse(JSON.stringify(v));
export const Exclude = () => () => {};
export const Expose = () => () => {};
export const Transform = () => () => {};
