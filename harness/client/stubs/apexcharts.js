const G = globalThis.$$verif || (globalThis.$$verif = {});
G.charts = [];
export default class ApexCharts {
  constructor(el, options) { this.el = el; this.options = options; this.rendered = false; G.charts.push(this); }
  render() { this.rendered = true; this.el.chart = this; return Promise.resolve(); }
  destroy() { this.rendered = false; if (this.el && this.el.chart === this) this.el.chart = null; }
  updateOptions(o) { Object.assign(this.options, o); return Promise.resolve(); }
  updateSeries(s) { this.options.series = s; return Promise.resolve(); }
}
