// plainToInstance with @Type: nested objects become instances of the given class.
const META = new WeakMap();
export const Type = (f) => (proto, key) => { if (!META.has(proto)) META.set(proto, new Map()); META.get(proto).set(key, f); };
const typeOf = (cls, key) => { for (let p = cls.prototype; p; p = Object.getPrototypeOf(p)) { const m = META.get(p); if (m && m.has(key)) return m.get(key); } };
export function plainToInstance(cls, v) {
  if (v === null || v === undefined) return v;
  if (Array.isArray(v)) return v.map((x) => plainToInstance(cls, x));
  if (typeof v !== "object" || v instanceof Date) return v;
  const o = new cls();
  for (const k of Object.keys(v)) {
    const t = typeOf(cls, k);
    o[k] = t ? plainToInstance(t({ newObject: o, object: v, property: k }), v[k]) : copy(v[k]);
  }
  return o;
}
const copy = (v) => (Array.isArray(v) ? v.map(copy) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, copy(x)])) : v);
export const plainToClass = plainToInstance;
export const instanceToPlain = (v) => JSON.parse(JSON.stringify(v));
const none = () => () => {};
export const Expose = none, Exclude = none, Transform = none;
