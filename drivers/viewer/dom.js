// A document: as much of the browser's DOM as a page of tables, lists, inputs and drawings needs.
"use strict";

class Node {
  constructor(doc) { this.ownerDocument = doc; this.parentNode = null; }
  get parentElement() { return this.parentNode && this.parentNode.nodeType == 1 ? this.parentNode : null; }
  get isConnected() { for (let n = this; n; n = n.parentNode) if (n.nodeType == 9) return true; return false; }
  get nextSibling() { const s = this.parentNode && this.parentNode.childNodes; return s ? s[s.indexOf(this) + 1] || null : null; }
  get previousSibling() { const s = this.parentNode && this.parentNode.childNodes; return s ? s[s.indexOf(this) - 1] || null : null; }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  compareDocumentPosition(o) {
    if (o === this) return 0;
    const path = (n) => { const p = []; for (; n; n = n.parentNode) p.unshift(n); return p; };
    const a = path(this), b = path(o);
    if (a[0] !== b[0]) return 1;
    let i = 0;
    while (i < a.length && i < b.length && a[i] === b[i]) i++;
    if (i == a.length) return 16 | 4;
    if (i == b.length) return 8 | 2;
    const s = a[i - 1].childNodes;
    return s.indexOf(a[i]) < s.indexOf(b[i]) ? 4 : 2;
  }
}

class Text extends Node {
  constructor(doc, data) { super(doc); this.data = data; }
  get nodeType() { return 3; }
  get nodeName() { return "#text"; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = String(v); }
  get nodeValue() { return this.data; }
  cloneNode() { return new Text(this.ownerDocument, this.data); }
}

class Parent extends Node {
  constructor(doc) { super(doc); this.childNodes = []; this.listeners = []; }
  get children() { return this.childNodes.filter((c) => c.nodeType == 1); }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
  get childElementCount() { return this.children.length; }
  hasChildNodes() { return this.childNodes.length > 0; }
  insertBefore(n, before) {
    if (n.nodeType == 11) { for (const c of [...n.childNodes]) this.insertBefore(c, before); return n; }
    n.remove();
    const i = before ? this.childNodes.indexOf(before) : this.childNodes.length;
    if (i < 0) throw new Error("insertBefore: not a child");
    this.childNodes.splice(i, 0, n);
    n.parentNode = this;
    return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  removeChild(n) {
    const i = this.childNodes.indexOf(n);
    if (i < 0) throw new Error("removeChild: not a child");
    this.childNodes.splice(i, 1);
    n.parentNode = null;
    return n;
  }
  replaceChild(n, old) { this.insertBefore(n, old); return this.removeChild(old); }
  append(...ns) { for (const n of ns) this.appendChild(n instanceof Node ? n : new Text(this.document(), String(n))); }
  prepend(...ns) { const f = this.firstChild; for (const n of ns) this.insertBefore(n instanceof Node ? n : new Text(this.document(), String(n)), f); }
  replaceChildren(...ns) { for (const c of [...this.childNodes]) this.removeChild(c); this.append(...ns); }
  document() { return this.nodeType == 9 ? this : this.ownerDocument; }
  get textContent() { return this.nodeType == 9 ? null : this.childNodes.map((c) => c.textContent).join(""); }
  set textContent(v) { this.replaceChildren(); if (v !== null && v !== undefined && v !== "") this.append(String(v)); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  *walk() { for (const c of this.childNodes) if (c.nodeType == 1) { yield c; yield* c.walk(); } }
  querySelectorAll(sel) { const out = []; for (const e of this.walk()) if (e.matches(sel)) out.push(e); return out; }
  querySelector(sel) { for (const e of this.walk()) if (e.matches(sel)) return e; return null; }
  getElementsByTagName(t) { return [...this.walk()].filter((e) => t == "*" || e.localName == t.toLowerCase()); }
  getElementsByClassName(c) { return [...this.walk()].filter((e) => c.split(/\s+/).every((x) => e.classList.contains(x))); }
  addEventListener(type, fn, opts) {
    if (!this.listeners.some((l) => l.type == type && l.fn === fn)) this.listeners.push({ type, fn, once: !!(opts && opts.once) });
  }
  removeEventListener(type, fn) { this.listeners = this.listeners.filter((l) => !(l.type == type && l.fn === fn)); }
  dispatchEvent(ev) {
    ev.target = ev.target || this;
    for (let n = this; n; n = ev.bubbles === false ? null : n.parentNode) {
      ev.currentTarget = n;
      for (const l of [...n.listeners]) {
        if (l.type != ev.type) continue;
        if (l.once) n.removeEventListener(l.type, l.fn);
        typeof l.fn == "function" ? l.fn.call(n, ev) : l.fn.handleEvent(ev);
      }
      const h = n["on" + ev.type];
      if (typeof h == "function") h.call(n, ev);
      if (ev.stopped) break;
    }
    return !ev.defaultPrevented;
  }
}

class Event {
  constructor(type, init) { Object.assign(this, { bubbles: true }, init); this.type = type; this.defaultPrevented = false; }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = true; }
}

class Style {
  constructor() { this.map = {}; }
  setProperty(k, v) { this.map[k] = String(v); }
  removeProperty(k) { delete this.map[k]; }
  getPropertyValue(k) { return this.map[k] || ""; }
}
const permissive = (target) => new Proxy(target, {
  get(t, k, r) { if (k in t) { const v = t[k]; return typeof v == "function" ? v.bind(t) : v; } return typeof k == "string" && k in t.map ? t.map[k] : ""; },
  set(t, k, v) { t.map[k] = String(v); return true; },
});

class ClassList {
  constructor(el) { this.el = el; }
  get list() { return (this.el.getAttribute("class") || "").split(/\s+/).filter(Boolean); }
  save(l) { this.el.setAttribute("class", l.join(" ")); }
  contains(c) { return this.list.includes(c); }
  add(...cs) { const l = this.list; for (const c of cs) if (!l.includes(c)) l.push(c); this.save(l); }
  remove(...cs) { this.save(this.list.filter((c) => !cs.includes(c))); }
  replace(a, b) { const l = this.list, i = l.indexOf(a); if (i < 0) return false; l[i] = b; this.save(l); return true; }
  item(i) { return this.list[i] ?? null; }
  forEach(f) { this.list.forEach(f); }
  get value() { return this.list.join(" "); }
  toggle(c, force) { const on = force === undefined ? !this.contains(c) : force; on ? this.add(c) : this.remove(c); return on; }
  get length() { return this.list.length; }
  [Symbol.iterator]() { return this.list[Symbol.iterator](); }
}

const DATE = /^\d{4,}-\d\d-\d\d$/;
class Element extends Parent {
  constructor(doc, name, ns) {
    super(doc);
    this.localName = name; this.namespaceURI = ns || "http://www.w3.org/1999/xhtml";
    this.attrs = new Map(); this.state = {};
    this.style = permissive(new Style());
    this.classList = new ClassList(this);
    const kebab = (k) => "data-" + k.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase());
    this.dataset = new Proxy({}, {
      get: (_, k) => (typeof k == "string" && this.attrs.has(kebab(k)) ? this.attrs.get(kebab(k)) : undefined), has: (_, k) => this.attrs.has(kebab(k)),
      set: (_, k, v) => (this.setAttribute(kebab(k), v), true), deleteProperty: (_, k) => (this.attrs.delete(kebab(k)), true),
    });
  }
  get nodeType() { return 1; }
  get tagName() { return this.localName.toUpperCase(); }
  get nodeName() { return this.tagName; }
  getAttribute(k) { return this.attrs.has(k) ? this.attrs.get(k) : null; }
  setAttribute(k, v) { this.attrs.set(k, String(v)); }
  removeAttribute(k) { this.attrs.delete(k); }
  hasAttribute(k) { return this.attrs.has(k); }
  toggleAttribute(k, f) { const on = f === undefined ? !this.attrs.has(k) : f; on ? this.attrs.set(k, "") : this.attrs.delete(k); return on; }
  getAttributeNS(_, k) { return this.getAttribute(k); }
  setAttributeNS(_, k, v) { this.setAttribute(k, v); }
  removeAttributeNS(_, k) { this.removeAttribute(k); }
  get id() { return this.getAttribute("id") || ""; }
  set id(v) { this.setAttribute("id", v); }
  get className() { return this.getAttribute("class") || ""; }
  set className(v) { this.setAttribute("class", v); }
  get hidden() { return this.hasAttribute("hidden"); }
  set hidden(v) { this.toggleAttribute("hidden", !!v); }
  get type() { return this.getAttribute("type") || (this.localName == "input" ? "text" : ""); }
  set type(v) { this.setAttribute("type", v); }
  get name() { return this.getAttribute("name") || ""; }
  set name(v) { this.setAttribute("name", v); }
  get title() { return this.getAttribute("title") || ""; }
  set title(v) { this.setAttribute("title", v); }
  get clientWidth() { return 1000; }
  get clientHeight() { return 700; }
  get offsetWidth() { return 1000; }
  get offsetHeight() { return 700; }
  getBoundingClientRect() { return { x: 0, y: 0, left: 0, top: 0, right: 1000, bottom: 700, width: 1000, height: 700 }; }
  getBBox() { return { x: 0, y: 0, width: 50, height: 10 }; }
  getComputedTextLength() { return 8 * this.textContent.length; }
  get width() { return this.localName == "svg" ? { baseVal: { value: 1000 } } : 1000; }
  get height() { return this.localName == "svg" ? { baseVal: { value: 700 } } : 700; }
  get innerHTML() { return this.childNodes.map((c) => (c.nodeType == 3 ? c.data : c.outerHTML)).join(""); }
  set innerHTML(v) { this.replaceChildren(); parseInto(this, String(v)); }
  get outerHTML() { return `<${this.localName}>${this.innerHTML}</${this.localName}>`; }
  insertAdjacentElement(w, e) {
    if (w == "beforebegin") this.parentNode.insertBefore(e, this);
    else if (w == "afterbegin") this.insertBefore(e, this.firstChild);
    else if (w == "beforeend") this.appendChild(e);
    else this.parentNode.insertBefore(e, this.nextSibling);
    return e;
  }
  before(...ns) { for (const n of ns) this.parentNode.insertBefore(n instanceof Node ? n : new Text(this.ownerDocument, String(n)), this); }
  after(...ns) { const next = this.nextSibling; for (const n of ns) this.parentNode.insertBefore(n instanceof Node ? n : new Text(this.ownerDocument, String(n)), next); }
  replaceWith(...ns) { this.before(...ns); this.remove(); }
  insertAdjacentText(w, t) { this.insertAdjacentElement(w, new Text(this.ownerDocument, String(t))); }
  insertAdjacentHTML(w, h) {
    const t = new Element(this.ownerDocument, "template");
    parseInto(t, String(h));
    for (const c of w == "afterbegin" || w == "afterend" ? [...t.childNodes].reverse() : [...t.childNodes]) this.insertAdjacentElement(w, c);
  }
  getAttributeNames() { return [...this.attrs.keys()]; }
  hasAttributes() { return this.attrs.size > 0; }
  get attributes() { return [...this.attrs].map(([name, value]) => ({ name, value })); }
  // tables and lists of choices
  part(n) { return this.children.filter((c) => c.localName == n); }
  get tHead() { return this.part("thead")[0] || null; }
  get tFoot() { return this.part("tfoot")[0] || null; }
  get tBodies() { return this.part("tbody"); }
  get rows() { return this.localName == "table" ? this.querySelectorAll("tr") : this.part("tr"); }
  get cells() { return this.children.filter((c) => c.localName == "td" || c.localName == "th"); }
  made(n) { return this.part(n)[0] || this.appendChild(new Element(this.ownerDocument, n)); }
  createTHead() { return this.made("thead"); }
  createTFoot() { return this.made("tfoot"); }
  createTBody() { return this.appendChild(new Element(this.ownerDocument, "tbody")); }
  insertRow(i = -1) { const at = this.localName == "table" ? this.made("tbody") : this; return at.insertBefore(new Element(this.ownerDocument, "tr"), i < 0 ? null : this.rows[i] || null); }
  insertCell(i = -1) { return this.insertBefore(new Element(this.ownerDocument, "td"), i < 0 ? null : this.cells[i] || null); }
  deleteRow(i) { const r = this.rows; (i < 0 ? r[r.length - 1] : r[i]).remove(); }
  add(o, before) { this.insertBefore(o, typeof before == "number" ? this.options[before] || null : before || null); }
  item(i) { return this.options[i] || null; }
  get nextElementSibling() { const s = this.parentNode ? this.parentNode.children : []; return s[s.indexOf(this) + 1] || null; }
  get previousElementSibling() { const s = this.parentNode ? this.parentNode.children : []; return s[s.indexOf(this) - 1] || null; }
  cloneNode(deep) {
    const e = new Element(this.ownerDocument, this.localName, this.namespaceURI);
    for (const [k, v] of this.attrs) e.attrs.set(k, v);
    Object.assign(e.state, this.state);
    if (deep) for (const c of this.childNodes) e.appendChild(c.cloneNode(true));
    return e;
  }
  // inputs
  get checked() { return "checked" in this.state ? this.state.checked : this.hasAttribute("checked"); }
  set checked(v) { this.state.checked = !!v; }
  get options() { return this.querySelectorAll("option"); }
  get selectedIndex() { const o = this.options; const i = o.findIndex((x) => x.state.selected); return i >= 0 ? i : o.length ? 0 : -1; }
  set selectedIndex(i) { this.options.forEach((o, k) => (o.state.selected = k == i)); }
  get selectedOptions() { const o = this.options[this.selectedIndex]; return o ? [o] : []; }
  get selected() { const s = this.closest("select"); return s ? s.options[s.selectedIndex] === this : !!this.state.selected; }
  set selected(v) {
    const s = this.closest("select");
    if (v && s) s.options.forEach((o) => (o.state.selected = false));
    this.state.selected = !!v;
  }
  get text() { return this.textContent.trim(); }
  set text(v) { this.textContent = v; }
  get label() { return this.getAttribute("label") || this.text; }
  get value() {
    if (this.localName == "select") { const o = this.options[this.selectedIndex]; return o ? o.value : ""; }
    if (this.localName == "option") return "value" in this.state ? this.state.value : this.hasAttribute("value") ? this.getAttribute("value") : this.text;
    return "value" in this.state ? this.state.value : this.getAttribute("value") || (this.type == "checkbox" ? "on" : "");
  }
  set value(v) {
    v = v === null || v === undefined ? "" : String(v);
    if (this.localName == "select") { const i = this.options.findIndex((o) => o.value == v); this.options.forEach((o, k) => (o.state.selected = k == i)); return; }
    if (this.type == "date" && !DATE.test(v)) v = "";
    if (this.type == "number" && (v.trim() == "" || isNaN(Number(v)))) v = "";
    this.state.value = v;
  }
  get valueAsDate() { return this.value ? new Date(this.value + "T00:00:00Z") : null; }
  set valueAsDate(d) { this.value = d ? new Date(+d).toISOString().split("T")[0] : ""; }
  get valueAsNumber() { return this.type == "date" ? (this.value ? +this.valueAsDate : NaN) : this.value === "" ? NaN : Number(this.value); }
  set valueAsNumber(n) { if (this.type == "date") this.valueAsDate = new Date(n); else this.value = String(n); }
  focus() {} blur() {} scrollIntoView() {} select() {}
  click() { this.dispatchEvent(new Event("click")); }
  closest(sel) { for (let e = this; e && e.nodeType == 1; e = e.parentNode) if (e.matches(sel)) return e; return null; }
  matches(sel) { return parseSelector(sel).some((chain) => matchChain(this, chain, chain.length - 1)); }
}

const cache = new Map();
function parseSelector(sel) {
  if (cache.has(sel)) return cache.get(sel);
  const chains = [];
  let chain = [], comb = " ", s = sel.trim();
  while (s) {
    let m;
    if ((m = /^\s*,\s*/.exec(s))) { chains.push(chain); chain = []; comb = " "; s = s.slice(m[0].length); continue; }
    if (chain.length && (m = /^\s*([>+~])\s*|^\s+/.exec(s))) { comb = m[1] || " "; s = s.slice(m[0].length); if (/^,/.test(s)) continue; }
    if ((m = /^:scope/.exec(s))) { s = s.slice(m[0].length); chain.push({ comb, tests: [(e) => true], scope: true }); continue; }
    const tests = [];
    while ((m = /^(\*|[A-Za-z][\w-]*)|^#([\w-]+)|^\.([\w-]+)|^\[\s*([\w-:]+)\s*(?:([~^$*|]?=)\s*(?:"([^"]*)"|'([^']*)'|([^\]\s]*))\s*)?\]|^:([\w-]+)(?:\(([^)]*)\))?/.exec(s))) {
      if (m[1] !== undefined && tests.length) break;
      s = s.slice(m[0].length);
      const [, tag, id, cls, at, op, v1, v2, v3, ps, arg] = m;
      if (tag) { if (tag != "*") tests.push((e) => e.localName.toLowerCase() == tag.toLowerCase()); else tests.push(() => true); }
      else if (id) tests.push((e) => e.id == id);
      else if (cls) tests.push((e) => e.classList.contains(cls));
      else if (at) {
        const v = v1 ?? v2 ?? v3;
        tests.push((e) => {
          if (!e.hasAttribute(at)) return false;
          const a = e.getAttribute(at);
          return !op ? true : op == "=" ? a == v : op == "^=" ? a.startsWith(v) : op == "$=" ? a.endsWith(v) : op == "*=" ? a.includes(v) : a.split(/\s+/).includes(v);
        });
      } else if (ps == "first-child") tests.push((e) => !e.previousElementSibling);
      else if (ps == "last-child") tests.push((e) => !e.nextElementSibling);
      else if (ps == "checked") tests.push((e) => e.checked || e.selected);
      else if (ps == "not") tests.push((e) => !e.matches(arg));
      else if (ps == "nth-child") tests.push((e) => { const i = e.parentNode.children.indexOf(e) + 1; return arg == "odd" ? i % 2 == 1 : arg == "even" ? i % 2 == 0 : i == Number(arg); });
      else throw new Error("selector not supported: " + sel);
    }
    if (!tests.length) throw new Error("selector not supported: " + sel);
    chain.push({ comb, tests });
    comb = " ";
  }
  chains.push(chain);
  cache.set(sel, chains);
  return chains;
}
function matchChain(e, chain, i) {
  if (!e || e.nodeType != 1 || !chain[i].tests.every((t) => t(e))) return false;
  if (i == 0) return true;
  const c = chain[i].comb;
  if (c == ">") return matchChain(e.parentNode, chain, i - 1);
  if (c == "+") return matchChain(e.previousElementSibling, chain, i - 1);
  if (c == "~") { for (let s = e.previousElementSibling; s; s = s.previousElementSibling) if (matchChain(s, chain, i - 1)) return true; return false; }
  for (let p = e.parentNode; p && p.nodeType == 1; p = p.parentNode) if (matchChain(p, chain, i - 1)) return true;
  return false;
}

class Document extends Parent {
  constructor() {
    super(null);
    this.documentElement = this.appendChild(new Element(this, "html"));
    this.head = this.documentElement.appendChild(new Element(this, "head"));
    this.body = this.documentElement.appendChild(new Element(this, "body"));
    this.readyState = "complete";
  }
  get nodeType() { return 9; }
  get nodeName() { return "#document"; }
  createElement(n) { return new Element(this, n.toLowerCase()); }
  createElementNS(ns, n) { return new Element(this, n, ns); }
  createTextNode(t) { return new Text(this, String(t)); }
  createDocumentFragment() { const f = new Parent(this); Object.defineProperty(f, "nodeType", { value: 11 }); return f; }
  createEvent() { return new Event(""); }
  getElementById(id) { for (const e of this.walk()) if (e.id == id) return e; return null; }
}

const VOID = new Set(["input", "br", "hr", "img", "meta", "link", "source", "area", "base", "col", "embed", "wbr"]);
const decode = (s) => s.replace(/&(#x?[0-9a-fA-F]+|\w+);/g, (m, x) =>
  x[0] == "#" ? String.fromCodePoint(x[1] == "x" ? parseInt(x.slice(2), 16) : parseInt(x.slice(1), 10))
    : { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" }[x] ?? m);
// Parses markup; scripts that have a src attribute are returned (in order), not run.
function parseInto(root, html) {
  const scripts = [];
  let at = root, i = 0;
  const text = (s) => { if (s) at.appendChild(new Text(at.document(), decode(s))); };
  while (i < html.length) {
    const lt = html.indexOf("<", i);
    if (lt < 0) { text(html.slice(i)); break; }
    text(html.slice(i, lt));
    let m;
    const rest = html.slice(lt);
    if ((m = /^<!--[\s\S]*?-->|^<![^>]*>/.exec(rest))) { i = lt + m[0].length; continue; }
    if ((m = /^<\/([\w-]+)\s*>/.exec(rest))) {
      for (let e = at; e !== root; e = e.parentNode) if (e.localName == m[1].toLowerCase()) { at = e.parentNode; break; }
      i = lt + m[0].length;
      continue;
    }
    if (!(m = /^<([A-Za-z][\w-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>/.exec(rest))) { text("<"); i = lt + 1; continue; }
    const e = at.document().createElement(m[1]);
    for (const a of m[2].matchAll(/([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) e.setAttribute(a[1], decode(a[2] ?? a[3] ?? a[4] ?? ""));
    at.appendChild(e);
    i = lt + m[0].length;
    if (e.localName == "script" || e.localName == "style") {
      const close = new RegExp("</" + e.localName + "\\s*>", "i").exec(html.slice(i));
      const body = close ? html.slice(i, i + close.index) : html.slice(i);
      if (body) e.appendChild(new Text(at.document(), body));
      i = close ? i + close.index + close[0].length : html.length;
      if (e.hasAttribute("src")) scripts.push(e.getAttribute("src"));
    } else if (!m[3] && !VOID.has(e.localName)) at = e;
  }
  return scripts;
}

module.exports = { Document, Element, Event, Node, Text, parseInto };
