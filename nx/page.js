// A small browser: runs the page's own scripts over a stub document and is driven, line by line, from outside.
// Everything the page does that a user or a server could see is written down as an event.
"use strict";
const vm = require("vm");
const fs = require("fs");
const readline = require("readline");

const events = [];
const note = (kind, data) => events.push(Object.assign({ ev: kind }, data || {}));
const clean = (e) => (e && e.stack ? String(e.name) + ": " + e.message : String(e));

process.on("unhandledRejection", (e) => note("unhandled", { what: clean(e) }));
process.on("uncaughtException", (e) => note("unhandled", { what: clean(e) }));

// --- document ---------------------------------------------------------------------------------------------------------------

class EventTarget_ {
  constructor() {
    this._on = {};
  }
  addEventListener(t, f, o) {
    (this._on[t] = this._on[t] || []).push({ f, once: !!(o && o.once) });
  }
  removeEventListener(t, f) {
    this._on[t] = (this._on[t] || []).filter((x) => x.f !== f);
  }
  dispatchEvent(e) {
    if (!e.target) e.target = this;
    e.currentTarget = this;
    const l = (this._on[e.type] || []).slice();
    const h = this["on" + e.type];
    if (typeof h === "function") l.push({ f: h });
    for (const x of l) {
      if (x.once) this.removeEventListener(e.type, x.f);
      try {
        const r = typeof x.f === "function" ? x.f.call(this, e) : x.f.handleEvent(e);
        if (r && typeof r.then === "function") r.then(null, (err) => note("unhandled", { what: clean(err) }));
      } catch (err) {
        note("error", { what: clean(err) });
      }
    }
    return true;
  }
}

function makeEvent(type) {
  return { type, preventDefault() {}, stopPropagation() {}, stopImmediatePropagation() {}, bubbles: true };
}

class ClassList {
  constructor(el) {
    this.el = el;
  }
  get _l() {
    return this.el.className.split(/\s+/).filter((x) => x);
  }
  contains(x) {
    return this._l.includes(x);
  }
  add(...xs) {
    this.el.className = [...new Set([...this._l, ...xs])].join(" ");
  }
  remove(...xs) {
    this.el.className = this._l.filter((x) => !xs.includes(x)).join(" ");
  }
  toggle(x, force) {
    const on = force === undefined ? !this.contains(x) : force;
    if (on) this.add(x);
    else this.remove(x);
    return on;
  }
}

let doc = null;

class Element_ extends EventTarget_ {
  constructor(tag) {
    super();
    this.tagName = String(tag).toUpperCase();
    this.nodeName = this.tagName;
    this.nodeType = 1;
    this.children = [];
    this.parentNode = null;
    this.id = "";
    this.className = "";
    this.style = { setProperty(k, v) { this[k] = v; }, removeProperty(k) { delete this[k]; }, display: "" };
    this.dataset = {};
    this.attrs = {};
    this.disabled = false;
    this.checked = false;
    this.hidden = false;
    this._value = undefined;
    this._text = "";
    this._type = undefined;
  }
  get type() {
    return this._type !== undefined ? this._type : this.tagName === "SELECT" ? "select-one" : this.tagName === "INPUT" ? "text" : "";
  }
  set type(x) {
    this._type = String(x);
  }
  get classList() {
    return new ClassList(this);
  }
  get parentElement() {
    return this.parentNode;
  }
  get childNodes() {
    return this.children;
  }
  get firstChild() {
    return this.children[0] || null;
  }
  get lastChild() {
    return this.children[this.children.length - 1] || null;
  }
  get firstElementChild() {
    return this.firstChild;
  }
  get lastElementChild() {
    return this.lastChild;
  }
  get childElementCount() {
    return this.children.length;
  }
  hasChildNodes() {
    return this.children.length > 0;
  }
  get isConnected() {
    for (let x = this; x; x = x.parentNode) if (x === doc.documentElement) return true;
    return false;
  }
  get options() {
    return this._all().filter((x) => x.tagName === "OPTION");
  }
  get selectedIndex() {
    return this.options.findIndex((o) => o.value === this.value);
  }
  set selectedIndex(i) {
    const o = this.options[i];
    this._value = o ? o.value : "";
  }
  get selectedOptions() {
    return this.options.filter((o) => o.value === this.value).slice(0, 1);
  }
  get value() {
    if (this.tagName === "SELECT") {
      if (this._value !== undefined) return this._value;
      const sel = this.options.find((o) => o.selected || "selected" in o.attrs) || this.options.find((o) => !o.disabled);
      return sel ? sel.value : "";
    }
    if (this.tagName === "OPTION") return this._value !== undefined ? this._value : this._text;
    if (this._value === undefined) return this.type === "checkbox" ? "on" : "";
    return this._value;
  }
  set value(x) {
    x = x === null ? "" : String(x);
    if (this.tagName === "SELECT") {
      this._value = this._free || this.options.some((o) => o.value === x) ? x : ""; // a select takes only what it offers
      return;
    }
    if (this.tagName === "INPUT" && this.type === "number" && !/^-?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$/.test(x)) x = "";
    this._value = x;
  }
  get valueAsNumber() {
    return this.value === "" ? NaN : Number(this.value);
  }
  get text() {
    return this._text;
  }
  set text(x) {
    this._text = String(x);
  }
  get label() {
    return this._text;
  }
  set label(x) {
    this._text = String(x);
  }
  get textContent() {
    return this._text + this.children.map((c) => c.textContent).join("");
  }
  set textContent(x) {
    this.replaceChildren();
    this._text = String(x);
  }
  get innerText() {
    return this.textContent;
  }
  set innerText(x) {
    this.textContent = x;
  }
  get innerHTML() {
    return this._text;
  }
  set innerHTML(x) {
    this.textContent = x;
  }
  _all() {
    return this.children.flatMap((c) => [c, ...(c._all ? c._all() : [])]);
  }
  appendChild(c) {
    if (c.parentNode) c.parentNode.removeChild(c);
    c.parentNode = this;
    this.children.push(c);
    return c;
  }
  insertBefore(c, ref) {
    if (c.parentNode) c.parentNode.removeChild(c);
    c.parentNode = this;
    const i = ref ? this.children.indexOf(ref) : -1;
    if (i < 0) this.children.push(c);
    else this.children.splice(i, 0, c);
    return c;
  }
  append(...cs) {
    for (const c of cs) this.appendChild(typeof c === "string" ? textNode(c) : c);
  }
  prepend(...cs) {
    for (const c of cs.reverse()) this.insertBefore(typeof c === "string" ? textNode(c) : c, this.firstChild);
  }
  insertAdjacentElement(where, c) {
    if (where === "beforeend") this.appendChild(c);
    else if (where === "afterbegin") this.prepend(c);
    return c;
  }
  removeChild(c) {
    const i = this.children.indexOf(c);
    if (i < 0) throw new Error("NotFoundError: the node to be removed is not a child of this node");
    this.children.splice(i, 1);
    c.parentNode = null;
    return c;
  }
  replaceChildren(...cs) {
    for (const c of this.children.slice()) this.removeChild(c);
    this._text = "";
    this.append(...cs);
  }
  remove() {
    if (this.parentNode) this.parentNode.removeChild(this);
  }
  add(o) {
    this.appendChild(o);
  }
  contains(x) {
    for (; x; x = x.parentNode) if (x === this) return true;
    return false;
  }
  closest(sel) {
    for (let x = this; x; x = x.parentNode) if (x.matches && x.matches(sel)) return x;
    return null;
  }
  matches(sel) {
    return sel.split(",").some((s) => {
      const last = s.trim().split(/[\s>]+/).pop();
      const m = last.match(/[#.]?[\w-]+|\[[^\]]*\]|:[\w-]+/g) || [];
      return m.every((t) => {
        if (t[0] === "#") return this.id === t.slice(1);
        if (t[0] === ".") return this.classList.contains(t.slice(1));
        if (t[0] === ":") return t === ":checked" ? this.checked : t === ":disabled" ? this.disabled : true;
        if (t[0] === "[") {
          const [k, v] = t.slice(1, -1).split("=");
          const have = k in this.attrs ? this.attrs[k] : this[k];
          return v === undefined ? have !== undefined : String(have) === v.replace(/^["']|["']$/g, "");
        }
        return this.tagName === t.toUpperCase();
      });
    });
  }
  querySelectorAll(sel) {
    return this._all().filter((x) => x.matches && x.matches(sel));
  }
  querySelector(sel) {
    return this.querySelectorAll(sel)[0] || null;
  }
  getElementsByTagName(t) {
    return this.querySelectorAll(t);
  }
  getElementsByClassName(t) {
    return this.querySelectorAll("." + t);
  }
  setAttribute(k, v) {
    this.attrs[k] = String(v);
    if (k === "id") this.id = String(v);
    else if (k === "class") this.className = String(v);
    else if (k === "disabled") this.disabled = true;
    else if (k === "checked") this.checked = true;
    else if (k === "type") this.type = v;
    else if (k === "value") this.value = v;
    else if (k === "style") for (const s of String(v).split(";")) { const [a, b] = s.split(":"); if (b) this.style[a.trim()] = b.trim(); }
  }
  getAttribute(k) {
    return k in this.attrs ? this.attrs[k] : null;
  }
  hasAttribute(k) {
    return k in this.attrs;
  }
  removeAttribute(k) {
    delete this.attrs[k];
    if (k === "disabled") this.disabled = false;
    if (k === "checked") this.checked = false;
  }
  toggleAttribute(k, force) {
    const on = force === undefined ? !this.hasAttribute(k) : force;
    if (on) this.setAttribute(k, "");
    else this.removeAttribute(k);
    return on;
  }
  focus() {}
  blur() {}
  scrollIntoView() {}
  getBoundingClientRect() {
    return { top: 0, left: 0, width: 10, height: 10, right: 10, bottom: 10 };
  }
  cloneNode() {
    const e = new Element_(this.tagName);
    for (const k of Object.keys(this.attrs)) e.setAttribute(k, this.attrs[k]);
    return e;
  }
  click() {
    if (this.disabled) return;
    this.dispatchEvent(makeEvent("click"));
    const h = this.attrs.onclick;
    if (h) {
      try {
        vm.runInContext(h, ctx);
      } catch (err) {
        note("error", { what: clean(err) });
      }
    }
    if (doc) doc.dispatchEvent(makeEvent("click"));
  }
}

function textNode(s) {
  return { nodeType: 3, textContent: String(s), parentNode: null, _all: () => [] };
}

class Document_ extends EventTarget_ {
  constructor() {
    super();
    this.documentElement = new Element_("html");
    this.head = new Element_("head");
    this.body = new Element_("body");
    this.documentElement.append(this.head, this.body);
    this.readyState = "complete";
    this.title = "";
    this.cookie = "";
  }
  getElementById(id) {
    return this.documentElement._all().find((x) => x.id === id) || null;
  }
  querySelector(s) {
    return this.documentElement.querySelector(s);
  }
  querySelectorAll(s) {
    return this.documentElement.querySelectorAll(s);
  }
  getElementsByTagName(t) {
    return this.querySelectorAll(t);
  }
  getElementsByClassName(t) {
    return this.querySelectorAll("." + t);
  }
  createElement(t) {
    return new Element_(t);
  }
  createTextNode(s) {
    return textNode(s);
  }
  createDocumentFragment() {
    return new Element_("fragment");
  }
}

// --- what the page uses from outside -----------------------------------------------------------------------------------------

let board = "m=edit&p=EMPTY"; // the link of the board on display, without the host
let ctx = null;
const fetches = [];
const runs = [];
const choices = [];

class Choices_ {
  constructor(el, opts) {
    this.el = typeof el === "string" ? doc.querySelector(el) : el;
    this.el._free = true;
    this.passedElement = { element: this.el };
    this.opts = opts || {};
    this.disabled = false;
    this.list = this.el.options.map((o) => ({ value: o.value, label: o.text, selected: "selected" in o.attrs }));
    this.el._value = this.list.filter((x) => x.selected).map((x) => x.value)[0] || "";
    const box = new Element_("div");
    const input = new Element_("input");
    input.className = "choices__input choices__input--cloned";
    box.appendChild(input);
    (this.el.parentNode || doc.body).appendChild(box);
    choices.push(this);
  }
  setChoices(l, value, label, replace) {
    value = value || "value";
    label = label || "label";
    if (typeof l === "function") l = l();
    if (replace) this.list = [];
    for (const x of l) {
      const group = x.choices ? String(x[label]) : undefined;
      for (const y of x.choices || [x]) {
        this.list.push({ value: String(y[value]), label: String(y[label]), group, disabled: !!y.disabled,
                         aliases: (y.customProperties || {}).aliases });
        if (y.selected) this.el._value = String(y[value]);
      }
    }
    return this;
  }
  clearStore() {
    this.list = [];
    this.el._value = "";
    return this;
  }
  clearChoices() {
    this.list = [];
    return this;
  }
  removeActiveItems() {
    this.el._value = "";
    return this;
  }
  setChoiceByValue(v) {
    if (this.list.some((x) => x.value === String(v))) this.el._value = String(v);
    return this;
  }
  getValue(only) {
    const x = this.list.find((y) => y.value === this.el._value);
    return only ? this.el._value : x;
  }
  enable() {
    this.disabled = false;
    return this;
  }
  disable() {
    this.disabled = true;
    return this;
  }
  clearInput() {
    return this;
  }
  refresh() {
    return this;
  }
  hideDropdown() {
    return this;
  }
  destroy() {
    choices.splice(choices.indexOf(this), 1);
  }
}

function jquery(x) {
  const t = typeof x === "string" ? doc.querySelector(x) : x;
  if (typeof x === "function") {
    loads.push(x);
    return null;
  }
  const self = {
    on(ev, f) {
      if (ev === "load" && (t === ctx || t === undefined)) loads.push(f);
      else if (t) t.addEventListener(ev, f);
      return self;
    },
    ready(f) {
      loads.push(f);
      return self;
    },
    0: t,
    length: t ? 1 : 0,
  };
  self.load = (f) => self.on("load", f);
  return self;
}
const loads = [];

function fetch_(url, opts) {
  opts = opts || {};
  return new Promise((res, rej) => {
    const id = fetches.length;
    fetches.push({ res, rej });
    const h = {};
    const hs = opts.headers || {};
    for (const [k, v] of typeof hs.entries === "function" ? hs.entries() : Object.entries(hs)) h[k.toLowerCase()] = String(v);
    note("fetch", { id, url: String(url && url.url ? url.url : url), method: opts.method || "GET", body: opts.body === undefined ? null : String(opts.body), headers: h });
    if (opts.signal) {
      const stop = () => rej(Object.assign(new Error("The operation was aborted."), { name: "AbortError" }));
      if (opts.signal.aborted) stop();
      else opts.signal.addEventListener("abort", stop);
    }
  });
}

function response(status, text, headers) {
  const r = {
    status,
    ok: status >= 200 && status < 300,
    statusText: "",
    headers: new Map(Object.entries(headers || { "content-type": "application/json" })),
    text: async () => text,
    json: async () => vm.runInContext("JSON", ctx).parse(text),
    clone: () => response(status, text, headers),
  };
  return r;
}

// the in-browser Python: values cross the border as proxies, calls are synchronous
function py(msg) {
  const w = Number(process.env.NX_PYW);
  const r = Number(process.env.NX_PYR);
  let data = Buffer.from(JSON.stringify(msg) + "\n");
  while (data.length) data = data.subarray(fs.writeSync(w, data));
  const parts = [];
  const buf = Buffer.alloc(1 << 16);
  for (;;) {
    const n = fs.readSync(r, buf, 0, buf.length, null);
    if (n === 0) throw new Error("the in-browser Python ended");
    parts.push(Buffer.from(buf.subarray(0, n)));
    if (buf[n - 1] === 10) break;
  }
  return JSON.parse(Buffer.concat(parts).toString());
}

class Proxy_ {
  constructor(id, keys) {
    this._id = id;
    this._d = keys;
  }
  get(k) {
    return this._d ? fromPy(this._d[k]) : undefined;
  }
  has(k) {
    return !!this._d && k in this._d;
  }
  toJs() {
    return new Map(Object.keys(this._d || {}).map((k) => [k, this.get(k)]));
  }
  copy() {
    return this;
  }
  destroy() {}
  toString() {
    return "[PyProxy]";
  }
}

function fromPy(v) {
  return v && typeof v === "object" ? new Proxy_(v.proxy, v.dict) : v === null ? undefined : v;
}

function toPy(v) {
  if (v instanceof Proxy_) return { proxy: v._id };
  if (v === undefined || v === null) return { value: null };
  return typeof v === "object" ? { js: JSON.parse(JSON.stringify(v)) } : { value: v };
}

function startPython(names) {
  for (const n of names) {
    ctx[n] = (...args) => {
      const r = py({ call: n, args: args.map(toPy) });
      if (r.raised !== undefined) {
        note("pyerror", { what: r.raised });
        throw Object.assign(new Error("Traceback (most recent call last): " + r.raised), { name: "PythonError" });
      }
      return fromPy(r.value);
    };
  }
}

class Worker_ extends EventTarget_ {
  constructor(url) {
    super();
    this.url = String(url);
    this.dead = false;
  }
  postMessage() {}
  terminate() {
    this.dead = true;
    note("terminate");
  }
}

const clingo = {
  worker: new Worker_("built in"),
  init(url) {
    note("init", { url: String(url) });
    return new Promise((res) => setImmediate(() => res(null)));
  },
  run(...args) {
    const w = clingo.worker;
    return new Promise((res) => {
      const id = runs.length;
      runs.push({ res, w });
      note("clingo", { id, args: args.map((a) => (typeof a === "string" ? a : JSON.stringify(a))) });
    });
  },
};

// --- start -------------------------------------------------------------------------------------------------------------------

function build(list) {
  const made = [];
  for (const e of list) {
    let el;
    if (e.tag === "head") el = doc.head;
    else if (e.tag === "body") el = doc.body;
    else if (e.tag === "html") el = doc.documentElement;
    else {
      el = new Element_(e.tag);
      (e.parent >= 0 ? made[e.parent] : doc.body).appendChild(el);
    }
    for (const [k, v] of Object.entries(e.attrs)) el.setAttribute(k, v === null ? "" : v);
    if (e.text) el._text = e.text.trim();
    made.push(el);
  }
}

function start(cmd) {
  doc = new Document_();
  build(cmd.elements);
  const g = new EventTarget_();
  Object.assign(g, {
    document: doc, console: { log() {}, info() {}, warn() {}, debug() {}, trace() {}, table() {}, group() {}, groupEnd() {}, time() {}, timeEnd() {}, assert() {}, error(...a) { note("console", { what: a.map(String).join(" ").slice(0, 300) }); } },
    setTimeout, clearTimeout, setInterval, clearInterval, setImmediate, queueMicrotask, AbortController, AbortSignal, URL, URLSearchParams, TextEncoder, TextDecoder,
    Option: function (text, value, _, selected) {
      const e = new Element_("option");
      e._text = text === undefined ? "" : String(text);
      if (value !== undefined) e.value = value;
      if (selected) e.selected = true;
      return e;
    },
    HTMLElement: Element_, Element: Element_, EventTarget: EventTarget_, btoa, atob,
    Event: class { constructor(t) { Object.assign(this, makeEvent(t)); } },
    requestAnimationFrame: (f) => setTimeout(() => f(0), 0), performance: { now: () => Date.now() }, structuredClone,
    fetch: fetch_, Choices: Choices_, Worker: Worker_, $: jquery, jQuery: jquery,
    Request: class { constructor(url, o) { Object.assign(this, o, { url }); } },
    Headers: class extends Map { constructor(o) { super(Object.entries(o || {})); } },
    location: { href: "http://localhost:8000/penpa-edit/", origin: "http://localhost:8000", hash: "", search: "", pathname: "/penpa-edit/", reload() {} },
    navigator: { userAgent: "x", language: "en" },
    localStorage: { getItem: () => null, setItem() {}, removeItem() {} },
    open: (u) => { note("open", { url: String(u) }); return null; },
    focus() {}, blur() {}, alert: (s) => note("swal", { icon: "alert", title: "", text: String(s) }), confirm: () => true,
    Swal: {
      fire(o, text, icon) {
        if (typeof o !== "object") o = { title: o, text, icon };
        note("swal", { icon: o.icon, title: String(o.title), text: o.text !== undefined ? String(o.text instanceof Error ? o.text : o.text) : String(o.html) });
        return Promise.resolve({ isConfirmed: true });
      },
      close() {}, isVisible: () => false,
    },
    pu: {
      space: [0, 0, 0, 0],
      maketext: () => "http://localhost:8000/penpa-edit/#" + board,
    },
    load: (s) => { board = String(s); note("shown", { board }); },
    import_url: (s) => {
      s = String(s);
      const i = s.indexOf("penpa-edit/#");
      board = i >= 0 ? s.slice(i + 12) : "m=edit&p=IMPORTED:" + s;
      note("imported", { url: s, board });
    },
    create_newboard: () => { board = "m=edit&p=EMPTY"; note("newboard"); },
    advancecontrol_toggle: () => {},
  });
  if (cmd.clingo) g.clingo = clingo; // only the deployed page has a solver of its own
  g.window = g.self = g.globalThis = g.top = g.parent = g;
  ctx = vm.createContext(g);
  for (const f of cmd.scripts) {
    try {
      vm.runInContext(fs.readFileSync(f, "utf-8"), ctx, { filename: f });
    } catch (e) {
      note("error", { what: f.split("/").pop() + ": " + clean(e) });
    }
  }
  doc.dispatchEvent(makeEvent("DOMContentLoaded"));
  for (const f of loads) {
    try {
      f.call(ctx, makeEvent("load"));
    } catch (e) {
      note("error", { what: "load: " + clean(e) });
    }
  }
  g.dispatchEvent(makeEvent("load"));
  const added = doc.head.children.filter((x) => x.tagName === "SCRIPT" && !x.fromPage).map((x) => ({ src: x.src || x.attrs.src, type: x.type, config: x.attrs.config }));
  return { added };
}

function chooser(id) {
  const el = doc.getElementById(id);
  return choices.find((c) => c.el === el);
}

function state() {
  const b = (id) => {
    const e = doc.getElementById(id);
    return e ? { text: e.textContent, disabled: !!e.disabled } : null;
  };
  const box = doc.getElementById("parameter_box");
  const params = box
    ? box._all().filter((x) => ["INPUT", "SELECT"].includes(x.tagName)).map((x) => ({
        id: x.id, type: x.type, value: x.value, checked: !!x.checked, options: x.tagName === "SELECT" ? x.options.map((o) => [o.value, o.text]) : null,
      }))
    : [];
  const ty = chooser("type");
  const ex = chooser("example");
  return {
    space: ctx.pu.space.slice(), box: box ? box.style.display !== "none" && !box.hidden : null,
    board, solve: b("solve"), rules: b("rules"), param: b("param"), reset: b("solver_reset"), params,
    type: ty ? { value: ty.el.value, disabled: ty.disabled } : null,
    example: ex ? { value: ex.el.value, disabled: ex.disabled, list: ex.list.map((x) => x.value) } : null,
  };
}

function pick(id, value) {
  const c = chooser(id);
  if (!c || c.disabled) return { refused: true };
  if (!c.list.some((x) => x.value === value && !x.disabled)) return { missing: true };
  if (c.el._value === value) return {};
  c.el._value = value;
  c.el.dispatchEvent(makeEvent("change"));
  return {};
}

function setParam(id, value) {
  const el = doc.getElementById("param_" + id);
  if (!el) return { missing: true };
  if (el.type === "checkbox") el.checked = value;
  else {
    if (el.tagName === "SELECT" && !el.options.some((o) => o.value === String(value))) return { missing: true };
    el.value = value;
  }
  el.dispatchEvent(makeEvent("input"));
  el.dispatchEvent(makeEvent("change"));
  return {};
}

function act(cmd) {
  switch (cmd.do) {
    case "start":
      return start(cmd);
    case "python":
      startPython(cmd.names);
      return {};
    case "type":
      return pick("type", cmd.value);
    case "example":
      return pick("example", cmd.value);
    case "types":
      return { list: chooser("type").list };
    case "set":
      return setParam(cmd.id, cmd.value);
    case "draw":
      board = cmd.board;
      return {};
    case "paste":
      doc.getElementById("urlstring").value = cmd.url;
      doc.getElementById("load_url").click();
      return {};
    case "spaces": {
      cmd.values.forEach((v, i) => (doc.getElementById("nb_space" + (i + 1)).value = v));
      const e = doc.getElementById("closeBtn_nb2");
      e.dispatchEvent(makeEvent("mousedown"));
      try {
        if (e.attrs.onmousedown) vm.runInContext(e.attrs.onmousedown, ctx);
      } catch (err) {
        note("error", { what: clean(err) });
      }
      return {};
    }
    case "click": {
      const e = doc.getElementById(cmd.id);
      if (!e) return { missing: true };
      if (e.disabled) return { refused: true };
      e.click();
      return {};
    }
    case "reply":
      fetches[cmd.id].res(response(cmd.status, cmd.body, cmd.headers));
      return {};
    case "fail":
      fetches[cmd.id].rej(new TypeError("Failed to fetch"));
      return {};
    case "result":
      if (!runs[cmd.id].w.dead) runs[cmd.id].res(cmd.result);
      return { dead: runs[cmd.id].w.dead };
    case "state":
      return {};
  }
  throw new Error("unknown command " + cmd.do);
}

const rl = readline.createInterface({ input: process.stdin });
let chain = Promise.resolve();
rl.on("line", (line) => {
  chain = chain.then(async () => {
    let r;
    try {
      r = act(JSON.parse(line));
    } catch (e) {
      r = { harness: clean(e) };
    }
    for (let i = 0; i < 12; i++) await new Promise((f) => setImmediate(f));
    await new Promise((f) => setTimeout(f, 0));
    const out = { r, events: events.splice(0), state: doc ? state() : null };
    process.stdout.write(JSON.stringify(out) + "\n");
  });
});
rl.on("close", () => process.exit(0));
