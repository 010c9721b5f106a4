// records what is drawn
export default class ApexCharts {
  constructor(el, options) { this.el = el; this.options = options; this.live = false; globalThis.$$gr.charts.push(this); }
  render() { this.live = true; this.w = { config: this.options, globals: {} }; return Promise.resolve(); }
  destroy() { this.live = false; }
  updateOptions(o) { Object.assign(this.options, o); return Promise.resolve(); }
  updateSeries(s) { this.options.series = s; return Promise.resolve(); }
}
