const rt = () => globalThis.$$gr;
export const onMount = (f) => rt().current().mount.push(f);
export const onDestroy = (f) => rt().current().destroy.push(f);
export const beforeUpdate = (f) => rt().current().before.push(f);
export const afterUpdate = (f) => rt().current().after.push(f);
export const setContext = (k, v) => { rt().current().ctx.set(k, v); return v; };
export const getContext = (k) => { for (let i = rt().current(); i; i = i.up) if (i.ctx.has(k)) return i.ctx.get(k); };
export const hasContext = (k) => { for (let i = rt().current(); i; i = i.up) if (i.ctx.has(k)) return true; return false; };
export const tick = () => Promise.resolve().then(() => rt().flush());
export const createEventDispatcher = () => { const i = rt().current(); return (name, detail) => i.emit(name, { type: name, detail }); };
