// Minimal page: runs the scripts of HTML widgets over a stand-in DOM and a
// recording AudioContext. Reads {widgets: [{scripts, tree}], clicks: [...]}.
const vm = require("vm");
const job = JSON.parse(require("fs").readFileSync(0, "utf8"));
const played = [];
class AudioBuffer {
  constructor(c, n, sr) {
    this.numberOfChannels = c; this.length = n; this.sampleRate = sr;
    this.data = Array.from({length: c}, () => new Float32Array(n));
  }
  copyToChannel(a, c, o) { this.data[c].set(a.subarray(0, this.length - (o || 0)), o || 0); }
  getChannelData(c) { return this.data[c]; }
}
class AudioContext {
  constructor() { this.destination = {dest: true}; this.sampleRate = 48000; }
  createBuffer(c, n, sr) {
    if (!(c > 0)) throw new Error("no channels");
    return new AudioBuffer(c, n, sr);
  }
  createBufferSource() {
    const s = {
      connect(d) { s.to = d; return d; },
      start() {
        if (s.to && s.to.dest && s.buffer) played.push({
          sr: s.buffer.sampleRate,
          data: s.buffer.data.map(a => Array.from(a, v => Number.isFinite(v) ? v : String(v)))});
      },
    };
    return s;
  }
}
let all = [];
function build(t, parent) {
  const e = {
    tag: t.tag, parentNode: parent, style: {}, dataset: {}, attrs: t.attrs,
    handlers: [], children: [], id: t.attrs.id,
    addEventListener(k, f) { if (k === "click" && !this.handlers.includes(f)) this.handlers.push(f); },
    getAttribute(k) { return this.attrs[k] === undefined ? null : this.attrs[k]; },
    setAttribute(k, v) { this.attrs[k] = String(v); },
    hasAttribute(k) { return this.attrs[k] !== undefined; },
    get className() { return this.attrs["class"] || ""; },
    set className(v) { this.attrs["class"] = v; },
    get nextElementSibling() {
      const s = parent ? parent.children : [];
      return s[s.indexOf(this) + 1] || null;
    },
    click() {
      if (this.onclick) this.onclick({target: this});
      for (const f of this.handlers) f.call(this, {target: this, currentTarget: this});
      if (this.attrs.onclick) vm.runInContext(this.attrs.onclick, ctx);
    },
  };
  const names = () => e.className.split(/\s+/).filter(c => c);
  e.classList = {
    contains: c => names().includes(c),
    add(c) { if (!names().includes(c)) e.className = [...names(), c].join(" "); },
    remove(c) { e.className = names().filter(d => d !== c).join(" "); },
    toggle(c) { names().includes(c) ? this.remove(c) : this.add(c); },
  };
  all.push(e);
  e.children = t.children.map(c => build(c, e));
  return e;
}
const byClass = c => all.filter(e => e.classList.contains(c));
const document = {
  getElementsByClassName: byClass,
  querySelectorAll: s => s.split(",").flatMap(q => {
    q = q.trim();
    return q[0] === "." ? byClass(q.slice(1)) : all.filter(e => e.tag === q);
  }),
  getElementById: i => all.find(e => e.id === i) || null,
  addEventListener(k, f) { if (k === "DOMContentLoaded") f(); },
  readyState: "complete",
};
const g = {AudioContext, document, console: {log() {}}, Float32Array, Array};
g.window = g; g.globalThis = g; g.self = g;
const ctx = vm.createContext(g);
let error = null;
const states = [];
try {
  for (const w of job.widgets) {
    const parent = {children: []};
    const roots = w.tree.map(t => build(t, parent));
    parent.children = roots;
    for (const s of w.scripts) vm.runInContext(s, ctx);
  }
  const shown = e => e.style.display === "block" || (e.style.display && e.style.display !== "none") ? 1 : 0;
  const contents = () => byClass("content").map(shown);
  states.push(contents());
  for (const c of job.clicks) {
    all.filter(e => e.tag === "button")[c].click();
    states.push(contents());
  }
} catch (e) {
  error = {name: e.name, message: String(e.message)};
}
process.stdout.write(JSON.stringify({error, played, states}));
