// Runs compiled components: renders the whole tree anew after every event until
// nothing changes any more. Instances and elements live as long as their place
// in the tree does.
const prim = (v) => v === null || (typeof v !== "object" && typeof v !== "function");
const snap = (v) => (prim(v) || typeof v === "function" ? v : Array.isArray(v) ? [v, v.slice()] : [v, Object.assign({}, v)]);
const same = (s, v) => {
  if (prim(v) || typeof v === "function") return Object.is(s, v);
  if (!Array.isArray(s) || s.length !== 2 || s[0] !== v) return false;
  const a = s[1]; const ks = Object.keys(v);
  return ks.length === Object.keys(a).length && ks.every((k) => Object.is(a[k], v[k]));
};
const text = (v) => (v === null || v === undefined ? "" : String(v));
const gr = (globalThis.$$gr = { charts: [], diagrams: [], clip: [], cur: null, roots: [], current: () => gr.cur, flush, clean: same });
globalThis.$$mount = (c, o) => { const r = { inst: make(c, "", o.props || {}, {}, null, () => {}), els: new Map() }; r.inst.root = r; gr.roots.push(r); r.target = o.target; };

function make(comp, path, props, slots, parent, emit) {
  const i = { comp, path, parent, up: gr.cur || parent, props: { ...props }, last: {}, bound: {}, boundLast: {}, ctx: new Map(), mount: [], destroy: [], before: [], after: [], kids: new Map(), emit, mounted: false, root: parent && parent.root, rstate: [] };
  for (const k of Object.keys(props)) i.last[k] = snap(props[k]);
  const save = gr.cur; gr.cur = i;
  try { i.rt = mkrt(i); i.inst = comp.create(i.rt, i.props, slots, (n, e) => i.emit(n, e)); } finally { gr.cur = save; }
  return i;
}
function react(i) {
  i.inst.reactive.forEach((r, n) => {
    const d = r.deps(); const st = i.rstate[n];
    if (st && d.length === st.length && d.every((v, k) => same(st[k], v))) return;
    i.rstate[n] = d.map(snap);
    r.run();
  });
}
// what a component changed of its bound variables goes to its parent at once
function propagate(i) {
  for (; i; i = i.parent) {
    react(i);
    for (const k of Object.keys(i.bound)) {
      if (!i.inst.get[k]) continue;
      const v = i.inst.get[k]();
      if (!same(i.boundLast[k], v)) { i.boundLast[k] = snap(v); i.last[k] = snap(v); i.bound[k](v); }
    }
  }
}
function renderInst(i, slots) {
  const save = gr.cur; gr.cur = i;
  try {
    react(i);
    i.seen = new Set();
    const out = i.inst.render(i.path, slots);
    for (const [p, k] of [...i.kids]) if (!i.seen.has(p)) { destroy(k); i.kids.delete(p); }
    return out;
  } finally { gr.cur = save; }
}
function destroy(i) { for (const k of i.kids.values()) destroy(k); i.destroy.forEach((f) => f()); }
function flushMounts(i) {
  let did = false;
  for (const k of i.kids.values()) did = flushMounts(k) || did;
  if (!i.mounted) { i.mounted = true; for (const f of i.mount) { did = true; const d = f(); if (typeof d === "function") i.destroy.push(d); } if (i.mount.length) propagate(i); }
  return did;
}
function mkrt(i) {
  const rt = {
    prop: (ps, k, d) => (ps[k] === undefined ? d() : ps[k]),
    rest: (names) => Object.fromEntries(Object.entries(i.props).filter(([k]) => !names.includes(k))),
    get: (s) => { if (s === undefined || s === null) return undefined; let v; const u = s.subscribe((x) => (v = x)); (u && u.unsubscribe ? () => u.unsubscribe() : u)(); return v; },
    set: (s, v) => { s.set(v); return v; },
    text: (v) => ({ x: v }), dyn: (v) => ({ x: text(v) }), html: (v) => ({ h: text(v) }),
    cat: (...ps) => ps.map(text).join(""),
    block: (b) => b,
    each: (list, f, key, els) => {
      const a = Array.from(list || []); if (!a.length) return els();
      return a.flatMap((x, n) => f(x, n, key ? "k" + JSON.stringify(key(x, n)) : n));
    },
    slot: (slots, name, props, fallback, path) => (slots && slots[name] ? slots[name](props, path) : fallback()),
    el(path, tag, props, binds, on, cls, sty, bindThis, kids, emit) {
      const els = i.root.els; const id = i.path + "|" + path;
      let dom = els.get(id); if (!dom) { dom = { tagName: tag.toUpperCase(), style: {}, classList: { add() {}, remove() {} }, appendChild() {}, setAttribute() {}, addEventListener() {}, getBoundingClientRect: () => ({ width: 100, height: 100 }) }; els.set(id, dom); }
      if (bindThis) bindThis(dom);
      const attrs = {}; for (const k of Object.keys(props)) if (props[k] !== null && props[k] !== undefined && props[k] !== false && !k.startsWith("__")) attrs[k] = props[k] === true ? "" : props[k];
      const classes = [attrs.class, ...cls.filter((c) => c[1]).map((c) => c[0])].filter(Boolean).join(" "); if (classes) attrs.class = classes;
      for (const [k, v] of sty) if (v !== undefined) (attrs.style ||= ""), (attrs.style += `${k}: ${v};`);
      const node = { t: tag, a: attrs, k: kids, dom, inst: i, props };
      node.fire = (name, ev = {}) => {
        const e = { type: name, target: dom, currentTarget: dom, detail: undefined, preventDefault() {}, stopPropagation() {}, ...ev };
        dom.value = props.value; 
        if (name === "change" || name === "click" && (props.type === "checkbox" || props.type === "radio")) {
          if (props.type === "checkbox") dom.checked = !(binds.group ? props.group.includes(props.value) : props.checked);
          if (props.type === "radio") dom.checked = true;
          if (binds.checked) binds.checked(dom.checked);
          if (binds.group) binds.group(props.type === "radio" ? props.value : dom.checked ? [...props.group, props.value] : props.group.filter((x) => x !== props.value));
          propagate(i);
        }
        for (const [n, f] of on) if (n === name) { if (f) f(e); else emit(n, e); propagate(i); }
      };
      node.checked = () => (binds.group ? (props.type === "radio" ? props.group === props.value : props.group.includes(props.value)) : !!props.checked);
      return node;
    },
    comp(path, C, props, binds, on, slots, bindThis) {
      if (!C) return [];
      const comp = C.$$c; const id = path;
      let k = i.kids.get(id);
      const emit = (n, e) => { for (const [m, f] of on) if (m === n) { if (f) f(e); else i.emit(n, e); propagate(i); } };
      if (!k || k.comp !== comp) {
        if (k) destroy(k);
        k = make(comp, i.path + ">" + path, props, slots, i, emit); i.kids.set(id, k);
        for (const b of Object.keys(binds)) k.boundLast[b] = snap(props[b]);
      }
      k.emit = emit; k.bound = binds; i.seen.add(id);
      for (const p of Object.keys(props)) if (!same(k.last[p], props[p])) {
        k.last[p] = snap(props[p]); k.boundLast[p] = snap(props[p]); k.props[p] = props[p]; if (k.inst.set[p]) k.inst.set[p](props[p]);
      }
      const out = renderInst(k, slots);
      propagate(k);
      if (bindThis) bindThis(k.inst);
      return out;
    },
  };
  return rt;
}
const plain = (n) => (n.x !== undefined ? n.x : n.h !== undefined ? { h: n.h } : { t: n.t, a: n.a, k: n.k.map(plain) });
function flush() {
  for (const r of gr.roots) {
    let prev = null;
    for (let n = 0; n < 30; n++) {
      r.tree = renderInst(r.inst, {});
      const did = flushMounts(r.inst);
      const now = JSON.stringify(r.tree.map(plain));
      if (!did && now === prev) break;
      prev = now;
    }
  }
}
// ---------------------------------------------------------------- observation
const all = (f) => { const out = []; const go = (n, up) => { if (n.t) { if (f(n, up)) out.push([n, up]); n.k.forEach((c) => go(c, [...up, n])); } }; gr.roots.forEach((r) => r.tree.forEach((n) => go(n, []))); return out; };
const ENT = { lt: "<", gt: ">", amp: "&", quot: '"', apos: "'", "#39": "'", "#x27": "'", nbsp: " " };
// what a reader sees of markup put into the page as it is
const seen = (h) => h.replace(/<[a-zA-Z\/!?][^>]*>?/g, "").replace(/&(lt|gt|amp|quot|apos|#39|#x27|nbsp);/g, (_, e) => ENT[e]);
const inner = (n) => (n.t === "button" || n.t === "select" ? "" : n.k ? n.k.map(inner).join("") : txt(n));
const txt = (n) => (n.x !== undefined ? n.x : n.h !== undefined ? seen(n.h) : n.t === "br" ? "\n" : n.k.map(txt).join(""));
const squash = (s) => s.replace(/\s+/g, " ").trim();
const holds = (n, t) => n.k.some((c) => c.t && (c.t === t || holds(c, t)));
const cardOf = (up) => { const d = [...up].reverse().find((x) => x.t === "details"); if (!d) return ""; const s = d.k.find((x) => x.t === "summary"); return d.a["data-testid"] || (s ? squash(txt(s)) : ""); };
const box = (ty) => all((n) => n.t === "input" && n.a.type === ty).map(([n, up]) => { const l = [...up].reverse().find((x) => ["label", "li", "td", "tr"].includes(x.t)); return { node: n, card: cardOf(up), label: squash(l ? txt(l) : ""), row: squash(txt([...up].reverse().find((x) => x.t === "tr") || { k: [] , t: "z"})), on: n.checked() }; });
const noNode = ({ node, ...x }) => x;
function chartObs(c) {
  const o = c.options;
  return { series: (o.series || []).map((s) => ({ name: s.name === undefined ? null : s.name, database: s.database === undefined ? null : s.database, data: s.data.map((d) => ({ x: d.x instanceof Date ? d.x.getTime() : d.x, y: d.y, goals: d.goals === undefined ? null : d.goals, prop: d.prop === undefined ? null : d.prop })) })), title: o.title ? o.title.text : null };
}
// the charts that can be seen: drawn, not destroyed and their element is on the page
const live = () => { const at = new Map(all(() => true).map(([n], i) => [n.dom, i])); return gr.charts.filter((c) => c.live && at.has(c.el)).sort((a, b) => at.get(a.el) - at.get(b.el)); };
globalThis.$$observe = () => ({
  crash: null,
  testids: all((n) => n.a["data-testid"] !== undefined).map(([n]) => n.a["data-testid"]),
  codes: all((n) => n.t === "code").map(([n, up]) => ({ card: cardOf(up), text: txt(n) })),
  checks: box("checkbox").map(noNode), radios: box("radio").map(noNode),
  tables: all((n) => n.t === "table").map(([n, up]) => { const rows = []; const go = (m) => { if (m.t === "tr") { const cells = []; const cell = (q) => { if (q.t === "td" || q.t === "th") cells.push({ h: q.t === "th", text: squash(inner(q)), raw: inner(q), href: (q.k.find((z) => z.t === "a") || { a: {} }).a.href || "", box: 0 }); else if (q.k) q.k.forEach(cell); }; m.k.forEach(cell); rows.push(cells); } else if (m.k) m.k.forEach(go); }; n.k.forEach(go); return { card: cardOf(up), rows }; }),
  lines: all((n) => n.t === "details").map(([n]) => { const d = n; return { card: cardOf([d]), open: d.a.open !== undefined, text: d.k.filter((x) => x.t !== "summary").map(txt).join("") }; }),
  spans: all((n, up) => n.t === "span" && !up.some((x) => x.t === "summary") && n.k.every((c) => !c.t)).map(([n, up]) => ({ card: cardOf(up), text: txt(n), bold: (n.a.class || "").split(" ").includes("bold"), cls: n.a.class || "" })),
  charts: live().map(chartObs),
  diagrams: [...gr.diagrams], clip: [...gr.clip],
});

globalThis.$$act = (s) => {
  switch (s.do) {
    case "check": { const b = box("checkbox").filter((x) => !s.card || x.card === s.card)[s.i]; b.node.fire("change"); break; }
    case "radio": { const b = box("radio").filter((x) => !s.card || x.card === s.card)[s.i]; b.node.fire("change"); break; }
    case "button": { const b = all((n) => n.t === "button" && squash(txt(n)) === s.label && !holds(n, "button"))[s.i || 0]; b[0].fire("click"); break; }
    case "bar": { const c = live()[s.chart]; c.options.chart.events.click({}, { w: { config: c.options } }, { seriesIndex: s.s, dataPointIndex: s.d }); break; }
    case "hover": { const c = live()[s.chart]; c.options.chart.events.dataPointMouseEnter({ path: [{ style: {} }], target: { style: {} } }, { w: { config: c.options } }, { seriesIndex: s.s, dataPointIndex: s.d }); break; }
    case "tip": { const c = live()[s.chart]; return c.options.tooltip.custom({ seriesIndex: s.s, dataPointIndex: s.d, w: { config: c.options } }); }
    case "tips": { const c = live()[s.chart]; return c.options.series.map((x, i) => x.data.map((d, j) => d.y === 0 ? null : c.options.tooltip.custom({ seriesIndex: i, dataPointIndex: j, w: { config: c.options } }))); }
    case "labels": { const c = live()[s.chart]; return c.options.series.map((x, i) => x.data.map((_, j) => c.options.dataLabels.formatter(0, { seriesIndex: i, dataPointIndex: j, w: { config: c.options } }))); }
    case "label": { const c = live()[s.chart]; return c.options.dataLabels.formatter(0, { seriesIndex: s.s, dataPointIndex: s.d, w: { config: c.options } }); }
    default: throw new Error("unknown action " + s.do);
  }
};
