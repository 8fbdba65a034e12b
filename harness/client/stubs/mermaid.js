const G = globalThis.$$verif || (globalThis.$$verif = {});
G.diagrams = [];
const render = (id, text, cb) => { G.diagrams.push(text); const svg = "<svg data-diagram='" + (G.diagrams.length - 1) + "'></svg>"; if (cb) cb(svg, () => {}); return svg; };
const api = { initialize: () => {}, render };
export default { mermaidAPI: api, initialize: () => {}, render };
