const render = (id, text, cb) => { const svg = `<svg id="${id}"></svg>`; globalThis.$$gr.diagrams.push(text); if (cb) cb(svg, () => {}); return svg; };
const api = { render, initialize() {}, parse() { return true; } };
export default { ...api, mermaidAPI: api, init() {} };
export const mermaidAPI = api;
