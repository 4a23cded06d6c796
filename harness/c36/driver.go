package main

// A minimal browser: runs the scripts of the page in order with a stand-in for the
// Blockly library (block definitions, fields, statement inputs, the code generator
// protocol), builds workspaces from block trees and presses the buttons of the page.
const driver = `
"use strict";
const fs = require("fs"), vm = require("vm");
const inp = JSON.parse(fs.readFileSync(0, "utf8"));
const defs = {}, order = [];
const elements = {};
let current = null, posted = [], alerts = [], reply = null;
const noop = () => {};
function soft(target) { // anything else the page may touch while loading
  return new Proxy(target, { get(t, k) {
    if (k in t) return t[k];
    if (typeof k === "symbol" || k === "then" || k === "toJSON") return undefined;
    const f = soft(function () { return f; });
    t[k] = f;
    return f;
  } });
}
function element(id) {
  if (!elements[id]) elements[id] = { id: id, style: {}, offsetLeft: 0, offsetTop: 0, offsetParent: null, offsetWidth: 640, offsetHeight: 480, textContent: "", innerHTML: "", appendChild: noop, setAttribute: noop,
    handlers: [], addEventListener(t, f) { if (t === "click") this.handlers.push(f); } };
  return elements[id];
}
class Generator {
  constructor(name) { this.name_ = name; this.INDENT = "  "; this.forBlock = Object.create(null); this.isInitialized = null; }
  init() { this.isInitialized = true; }
  finish(code) { return code; }
  scrub_(block, code) { return code; }
  scrubNakedValue(line) { return line; }
  prefixLines(text, prefix) { return prefix + text.replace(/(?!\n$)\n/g, "\n" + prefix); }
  addLoopTrap(b) { return b; }
  workspaceToCode(ws) {
    const code = [];
    this.init(ws);
    for (const b of ws.getTopBlocks(true)) {
      let line = this.blockToCode(b);
      if (Array.isArray(line)) line = line[0];
      if (line) code.push(line);
    }
    let s = this.finish(code.join("\n"));
    return s.replace(/^\s+\n/, "").replace(/\n\s+$/, "\n").replace(/[ \t]+\n/g, "\n");
  }
  blockToCode(block, thisOnly) {
    if (!block) return "";
    if (!block.isEnabled()) return thisOnly ? "" : this.blockToCode(block.getNextBlock());
    const f = this.forBlock[block.type] || this[block.type];
    if (typeof f !== "function") throw new Error("no code generator for block type " + block.type);
    const code = f.call(block, block, this);
    if (Array.isArray(code)) return [this.scrub_(block, code[0], thisOnly), code[1]];
    if (typeof code === "string") return this.scrub_(block, code, thisOnly);
    if (code === null) return "";
    throw new SyntaxError("invalid code generated: " + code);
  }
  statementToCode(block, name) {
    const t = block.getInputTargetBlock(name);
    let code = this.blockToCode(t);
    if (typeof code !== "string") throw new TypeError("expecting code from statement block");
    if (code) code = this.prefixLines(code, this.INDENT);
    return code;
  }
  valueToCode() { return ""; }
}
const Blockly = soft({
  Blocks: {},
  Themes: soft({}),
  Theme: soft({ defineTheme: (n, o) => o }),
  Generator: Generator,
  CodeGenerator: Generator,
  defineBlocksWithJsonArray: (a) => { for (const d of a) { if (d) { defs[d.type] = d; order.push(d.type); } } },
  inject: () => soft({ getTopBlocks: () => current ? current() : [], getAllBlocks: () => [] }),
  svgResize: noop,
});
const docProps = { getElementById: element, addEventListener: noop };
const win = { addEventListener: noop };
class Headers { constructor(o) { this.map = {}; for (const k in o || {}) this.map[k.toLowerCase()] = o[k]; } }
function fetchStub(u, o) {
  o = o || {};
  const h = o.headers ? (o.headers.map || o.headers) : {};
  const lower = {}; for (const k in h) lower[k.toLowerCase()] = h[k];
  posted.push({ url: new URL(String(u), inp.base).href, method: o.method || "GET", body: o.body === undefined ? "" : String(o.body), type: lower["content-type"] || "" });
  const chunks = (reply || []).map(x => Uint8Array.from(Buffer.from(x, "base64")));
  let i = 0;
  const reader = { read: async () => i < chunks.length ? { done: false, value: chunks[i++] } : { done: true, value: undefined } };
  return Promise.resolve({ ok: true, status: 200, body: { getReader: () => reader }, text: async () => Buffer.concat(chunks.map(c => Buffer.from(c))).toString("utf8") });
}
const page = new URL(inp.base);
const sandbox = { Blockly, document: docProps, window: win, fetch: fetchStub, Headers, TextDecoder, TextEncoder, URL, Uint8Array, console: { log: noop, warn: noop, error: noop },
  __click: (id) => { const e = element(id); if (e.onclick) e.onclick({}); return Promise.all(e.handlers.map(f => f({}))); },
  alert: (x) => alerts.push(String(x)), location: { origin: page.origin, host: page.host, hostname: page.hostname, port: page.port, protocol: page.protocol, href: page.href, pathname: page.pathname }, setTimeout, Promise };
win.location = sandbox.location; docProps.location = sandbox.location;
const ctx = vm.createContext(sandbox);

const out = { load: "", defs: null, order: null, toolbox: null, runs: [] };
try {
  for (const s of inp.scripts) vm.runInContext(s.code, ctx, { filename: s.name });
} catch (e) { out.load = String(e && e.stack || e); }

function args(d) { let a = []; for (let i = 0; i < 20; i++) if (d["args" + i]) a = a.concat(d["args" + i]); return a; }

// a block with the fields and inputs of its definition; values are set by position
function make(node) {
  const d = defs[node.type];
  if (!d) throw new Error("undefined block type " + node.type);
  const fields = {}, inputs = {};
  args(d).forEach((a, i) => {
    const v = node.args ? node.args[i] : null;
    if (a.type.startsWith("input_")) {
      inputs[a.name] = v && v.stack && v.stack.length ? chain(v.stack) : null;
    } else if (a.type === "field_dropdown") {
      const opts = typeof a.options === "function" ? a.options() : a.options;
      const o = v && v.pick !== undefined ? opts[v.pick] : opts[0];
      fields[a.name] = o[1];
    } else if (a.type === "field_slider" || a.type === "field_number") {
      let x = v && v.num !== undefined ? v.num : (a.value === undefined ? 0 : a.value);
      x = Number(x); // as a number field does: limited and rounded to the precision
      if (a.precision) x = Math.round(x / a.precision) * a.precision;
      if (a.min !== undefined && x < a.min) x = a.min;
      if (a.max !== undefined && x > a.max) x = a.max;
      if (a.precision) { const dec = String(a.precision).split(".")[1]; x = Number(x.toFixed(dec ? dec.length : 0)); }
      fields[a.name] = x;
    } else if (a.type === "field_angle") {
      fields[a.name] = Number(v && v.num !== undefined ? v.num : (a.angle === undefined ? 0 : a.angle));
    } else {
      fields[a.name] = String(v && v.text !== undefined ? v.text : (a.text === undefined ? "" : a.text));
    }
  });
  const b = {
    type: node.type, id: "b" + Math.random(), disabled: !!node.off, next: null, fields: fields,
    isEnabled() { return !this.disabled; },
    getFieldValue(n) { return Object.prototype.hasOwnProperty.call(fields, n) ? fields[n] : null; },
    getField(n) { return Object.prototype.hasOwnProperty.call(fields, n) ? { getValue: () => fields[n], getText: () => String(fields[n]) } : null; },
    getInput(n) { return n in inputs ? { connection: { targetBlock: () => inputs[n] } } : null; },
    getInputTargetBlock(n) { return inputs[n] || null; },
    getNextBlock() { return this.next; },
    getPreviousBlock() { return null; }, getParent() { return null; }, getSurroundParent() { return null; },
    nextConnection: null, outputConnection: null, previousConnection: null,
  };
  if ("nextStatement" in d) b.nextConnection = { targetBlock: () => b.next };
  return b;
}
function chain(stack) {
  const bs = stack.map(make);
  for (let i = 0; i + 1 < bs.length; i++) { if (!bs[i].nextConnection) throw new Error(bs[i].type + " cannot be followed by another block"); bs[i].next = bs[i + 1]; }
  return bs[0];
}

(async () => {
  if (!out.load) {
    out.defs = {};
    for (const t of order) out.defs[t] = args(defs[t]).map(a => ({ type: a.type, label: a.name, value: a.type === "field_angle" ? a.angle : a.value, text: a.text, min: a.min, max: a.max, precision: a.precision,
      options: a.options ? (typeof a.options === "function" ? a.options() : a.options).map(o => String(o[0])) : null }));
    out.order = order;
    try { out.toolbox = vm.runInContext("toolbox", ctx); } catch (e) { out.toolbox = null; }
    for (const job of inp.jobs) {
      posted = []; alerts = []; reply = job.reply; for (const k in elements) elements[k].textContent = "";
      const r = { error: "" };
      try {
        const top = job.stack.length ? [chain(job.stack)] : [];
        current = () => top;
        await vm.runInContext(inp.button, ctx);
        for (let i = 0; i < 40; i++) await new Promise(f => setImmediate(f));
      } catch (e) { r.error = String(e && e.stack || e); }
      r.posted = posted; r.alerts = alerts; r.shown = element("logMessages").textContent;
      out.runs.push(r);
    }
  }
  fs.writeFileSync(1, JSON.stringify(out));
})();
`
