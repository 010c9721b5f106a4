export function writable(v, start) {
  const subs = new Set(); let stop = null;
  const set = (x) => { v = x; for (const s of [...subs]) s(v); };
  const update = (f) => set(f(v));
  return { set, update, subscribe(s) { subs.add(s); if (subs.size === 1 && start) stop = start(set, update) || null; s(v); return () => { subs.delete(s); if (subs.size === 0 && stop) stop(); }; } };
}
export const readable = (v, start) => ({ subscribe: writable(v, start).subscribe });
export const get = (s) => { let v; s.subscribe((x) => (v = x))(); return v; };
export function derived(stores, f, init) {
  const one = !Array.isArray(stores); const ss = one ? [stores] : stores;
  return readable(init, (set) => {
    const vals = []; let ready = false;
    const run = () => { if (!ready) return; const a = one ? vals[0] : vals; if (f.length < 2) set(f(a)); else f(a, set); };
    const un = ss.map((s, i) => s.subscribe((x) => { vals[i] = x; run(); }));
    ready = true; run(); return () => un.forEach((u) => u());
  });
}
