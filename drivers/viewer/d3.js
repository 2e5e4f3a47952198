// A stand-in for the d3 modules (which are not installed here): selections, time intervals, arrays, hierarchies
// behave as d3's; scales are plain, axes draw nothing.
"use strict";

// ---- d3-selection ----------------------------------------------------------------------------------
const NS = { svg: "http://www.w3.org/2000/svg", xhtml: "http://www.w3.org/1999/xhtml", xlink: "http://www.w3.org/1999/xlink" };
function creator(name) {
  if (typeof name == "function") return name;
  return function () {
    const doc = this.ownerDocument || this;
    if (name.includes(":") && NS[name.split(":")[0]]) return doc.createElementNS(NS[name.split(":")[0]], name.split(":")[1]);
    if (name == "svg") return doc.createElementNS(NS.svg, name);
    return this.namespaceURI && this.namespaceURI != NS.xhtml ? doc.createElementNS(this.namespaceURI, name) : doc.createElement(name);
  };
}
const selector = (s) => (typeof s == "function" ? s : s == null ? () => null : function () { return this.querySelector(s); });
const selectorAll = (s) => (typeof s == "function" ? function () { const r = s.apply(this, arguments); return r == null ? [] : Array.isArray(r) ? r : Array.from(r); }
  : s == null ? () => [] : function () { return this.querySelectorAll(s); });
const matcher = (s) => (typeof s == "function" ? s : function () { return this.matches(s); });
const constant = (x) => () => x;

class EnterNode {
  constructor(parent, datum) { this.ownerDocument = parent.ownerDocument; this.namespaceURI = parent.namespaceURI; this._next = null; this._parent = parent; this.__data__ = datum; }
  appendChild(c) { return this._parent.insertBefore(c, this._next); }
  insertBefore(c, next) { return this._parent.insertBefore(c, next); }
  querySelector(s) { return this._parent.querySelector(s); }
  querySelectorAll(s) { return this._parent.querySelectorAll(s); }
}
const children = (n) => Array.from(n.children);
class Selection {
  constructor(groups, parents) { this._groups = groups; this._parents = parents; }
  select(s) {
    s = selector(s);
    return new Selection(this._groups.map((g) => mapSparse(g, (n, i) => {
      const sub = s.call(n, n.__data__, i, g);
      if (sub && "__data__" in n) sub.__data__ = n.__data__;
      return sub || undefined;
    })), this._parents);
  }
  selectAll(s) {
    s = selectorAll(s);
    const groups = [], parents = [];
    for (const g of this._groups) g.forEach((n, i) => { if (n) { groups.push(Array.from(s.call(n, n.__data__, i, g))); parents.push(n); } });
    return new Selection(groups, parents);
  }
  selectChild(m) { return this.select(m == null ? function () { return this.firstElementChild; } : function () { return children(this).find((c) => matcher(m).call(c, c.__data__)); }); }
  selectChildren(m) { return this.selectAll(m == null ? function () { return children(this); } : function () { return children(this).filter((c) => matcher(m).call(c, c.__data__)); }); }
  filter(m) { m = matcher(m); return new Selection(this._groups.map((g) => g.filter((n, i) => n && m.call(n, n.__data__, i, g))), this._parents); }
  data(value, key) {
    if (!arguments.length) return Array.from(this, (n) => n.__data__);
    const parents = this._parents, groups = this._groups, enter = [], exit = [], update = [];
    groups.forEach((group, j) => {
      const parent = parents[j];
      let data = typeof value == "function" ? value.call(parent, parent && parent.__data__, j, parents) : value;
      data = data == null ? [] : Array.isArray(data) ? data : Array.from(data);
      const e = new Array(data.length), u = new Array(data.length), x = new Array(group.length);
      if (key) {
        const byKey = new Map(), keys = [];
        group.forEach((n, i) => { if (n) { const k = (keys[i] = key.call(n, n.__data__, i, group) + ""); byKey.has(k) ? (x[i] = n) : byKey.set(k, n); } });
        data.forEach((d, i) => {
          const k = key.call(parent, d, i, data) + "";
          const n = byKey.get(k);
          if (n) { u[i] = n; n.__data__ = d; byKey.delete(k); } else e[i] = new EnterNode(parent, d);
        });
        group.forEach((n, i) => { if (n && byKey.get(keys[i]) === n) x[i] = n; });
      } else {
        data.forEach((d, i) => { if (group[i]) { group[i].__data__ = d; u[i] = group[i]; } else e[i] = new EnterNode(parent, d); });
        for (let i = data.length; i < group.length; i++) if (group[i]) x[i] = group[i];
      }
      for (let i0 = 0, i1 = 0; i0 < data.length; i0++) if (e[i0]) {
        if (i0 >= i1) i1 = i0 + 1;
        while (i1 < data.length && !u[i1]) i1++;
        e[i0]._next = u[i1] || null;
      }
      enter.push(e); update.push(u); exit.push(x);
    });
    const s = new Selection(update, parents);
    s._enter = enter; s._exit = exit;
    return s;
  }
  enter() { return new Selection(this._enter || this._groups.map((g) => new Array(g.length)), this._parents); }
  exit() { return new Selection(this._exit || this._groups.map((g) => new Array(g.length)), this._parents); }
  join(onenter, onupdate, onexit) {
    let enter = this.enter(), update = this, exit = this.exit();
    if (typeof onenter == "function") { enter = onenter(enter); if (enter) enter = enter.selection(); } else enter = enter.append(onenter + "");
    if (onupdate != null) { update = onupdate(update); if (update) update = update.selection(); }
    if (onexit == null) exit.remove(); else onexit(exit);
    return enter && update ? enter.merge(update).order() : update;
  }
  merge(o) {
    const b = o.selection ? o.selection() : o;
    return new Selection(this._groups.map((g, j) => {
      const h = b._groups[j] || [], out = new Array(g.length);
      for (let i = 0; i < g.length; i++) { const n = g[i] || h[i]; if (n) out[i] = n; }
      return out;
    }), this._parents);
  }
  selection() { return this; }
  order() {
    for (const g of this._groups) for (let i = g.length - 1, next = g[i], n; --i >= 0;) if ((n = g[i])) {
      if (next && n.compareDocumentPosition(next) ^ 4) next.parentNode.insertBefore(n, next);
      next = n;
    }
    return this;
  }
  sort(cmp) {
    cmp = cmp || ((a, b) => (a < b ? -1 : a > b ? 1 : a >= b ? 0 : NaN));
    const c = (a, b) => (a && b ? cmp(a.__data__, b.__data__) : !a - !b);
    return new Selection(this._groups.map((g) => g.slice().sort(c)), this._parents).order();
  }
  call(f, ...a) { f(this, ...a); return this; }
  nodes() { return Array.from(this); }
  node() { for (const n of this) return n; return null; }
  size() { return this.nodes().length; }
  empty() { return !this.node(); }
  each(f) { for (const g of this._groups) for (let i = 0; i < g.length; i++) if (g[i]) f.call(g[i], g[i].__data__, i, g); return this; }
  *[Symbol.iterator]() { for (const g of this._groups) for (let i = 0; i < g.length; i++) if (g[i]) yield g[i]; }
  _set(value, set) { return this.each(function (d, i, g) { set(this, typeof value == "function" ? value.call(this, d, i, g) : value); }); }
  attr(k, v) {
    if (arguments.length < 2) { const n = this.node(); return n && n.getAttribute(k); }
    return this._set(v, (n, x) => (x == null ? n.removeAttribute(k) : n.setAttribute(k, x)));
  }
  style(k, v) {
    if (arguments.length < 2) { const n = this.node(); return n && n.style.getPropertyValue(k); }
    return this._set(v, (n, x) => (x == null ? n.style.removeProperty(k) : n.style.setProperty(k, x)));
  }
  property(k, v) {
    if (arguments.length < 2) { const n = this.node(); return n == null ? undefined : n[k]; }
    return this._set(v, (n, x) => { if (x == null) delete n[k]; else n[k] = x; });
  }
  classed(k, v) {
    const ks = (k + "").trim().split(/\s+/);
    if (arguments.length < 2) { const n = this.node(); return !!n && ks.every((c) => n.classList.contains(c)); }
    return this._set(v, (n, x) => (x ? n.classList.add(...ks) : n.classList.remove(...ks)));
  }
  text(v) {
    if (!arguments.length) { const n = this.node(); return n && n.textContent; }
    return this._set(v, (n, x) => (n.textContent = x == null ? "" : x));
  }
  html(v) {
    if (!arguments.length) { const n = this.node(); return n && n.innerHTML; }
    return this._set(v, (n, x) => (n.innerHTML = x == null ? "" : x));
  }
  raise() { return this.each(function () { this.parentNode && this.parentNode.appendChild(this); }); }
  lower() { return this.each(function () { this.parentNode && this.parentNode.insertBefore(this, this.parentNode.firstChild); }); }
  append(name) { const c = creator(name); return this.select(function () { return this.appendChild(c.apply(this, arguments)); }); }
  insert(name, before) {
    const c = creator(name), s = before == null ? () => null : selector(before);
    return this.select(function () { return this.insertBefore(c.apply(this, arguments), s.apply(this, arguments) || null); });
  }
  remove() { return this.each(function () { this.parentNode && this.parentNode.removeChild(this); }); }
  clone(deep) { return this.select(function () { const c = this.cloneNode(!!deep); this.parentNode && this.parentNode.insertBefore(c, this.nextSibling); return c; }); }
  datum(v) {
    if (!arguments.length) return this.node().__data__;
    return this._set(v, (n, x) => { if (x == null) delete n.__data__; else n.__data__ = x; });
  }
  on(types, fn) {
    const ts = (types + "").trim().split(/\s+/).map((t) => { const i = t.indexOf("."); return i < 0 ? { type: t, name: "" } : { type: t.slice(0, i), name: t.slice(i + 1) }; });
    if (arguments.length < 2) { const n = this.node(); const l = n && (n.__on || []).find((o) => ts.some((t) => t.type == o.type && t.name == o.name)); return l && l.value; }
    return this.each(function () {
      const on = this.__on || (this.__on = []);
      for (const t of ts) {
        for (let i = on.length - 1; i >= 0; i--) if ((on[i].type == t.type || !t.type) && on[i].name == t.name) { this.removeEventListener(on[i].type, on[i].listener); on.splice(i, 1); }
        if (fn == null) continue;
        const listener = function (event) { fn.call(this, event, this.__data__); };
        this.addEventListener(t.type, listener);
        on.push({ type: t.type, name: t.name, value: fn, listener });
      }
    });
  }
  dispatch(type, params) { return this.each(function () { this.dispatchEvent({ type, bubbles: false, ...(params || {}) }); }); }
  // transitions change at once
  transition() { return this; }
  duration() { return this; }
  delay() { return this; }
  ease() { return this; }
  interrupt() { return this; }
}
function mapSparse(g, f) { const out = new Array(g.length); for (let i = 0; i < g.length; i++) if (g[i]) { const r = f(g[i], i); if (r) out[i] = r; } return out; }
const doc = () => globalThis.document;
const select = (s) => (typeof s == "string" ? new Selection([[doc().querySelector(s)]], [doc().documentElement]) : new Selection([[s]], [null]));
const selectAll = (s) => (typeof s == "string" ? new Selection([doc().querySelectorAll(s)], [doc().documentElement]) : new Selection([s == null ? [] : Array.from(s)], [null]));
const create = (n) => select(creator(n).call(doc().documentElement));

// ---- d3-time ---------------------------------------------------------------------------------------
const t0 = new Date(), t1 = new Date();
function interval(floori, offseti, count, field) {
  function interval(date) { return floori((date = arguments.length === 0 ? new Date() : new Date(+date))), date; }
  interval.floor = (date) => (floori((date = new Date(+date))), date);
  interval.ceil = (date) => (floori((date = new Date(date - 1))), offseti(date, 1), floori(date), date);
  interval.round = (date) => { const d0 = interval(date), d1 = interval.ceil(date); return date - d0 < d1 - date ? d0 : d1; };
  interval.offset = (date, step) => (offseti((date = new Date(+date)), step == null ? 1 : Math.floor(step)), date);
  interval.range = (start, stop, step) => {
    const range = [];
    let previous;
    start = interval.ceil(start);
    step = step == null ? 1 : Math.floor(step);
    if (!(start < stop) || !(step > 0)) return range;
    do range.push((previous = new Date(+start))), offseti(start, step), floori(start);
    while (previous < start && start < stop);
    return range;
  };
  interval.filter = (test) => globalInterval(
    (date) => { if (date >= date) while ((floori(date), !test(date))) date.setTime(date - 1); },
    (date, step) => {
      if (date >= date) {
        if (step < 0) while (++step <= 0) while ((offseti(date, -1), !test(date))) {}
        else while (--step >= 0) while ((offseti(date, +1), !test(date))) {}
      }
    });
  if (count) {
    interval.count = (start, end) => { t0.setTime(+start), t1.setTime(+end); floori(t0), floori(t1); return Math.floor(count(t0, t1)); };
    interval.every = (step) => {
      step = Math.floor(step);
      return !isFinite(step) || !(step > 0) ? null : !(step > 1) ? interval
        : interval.filter(field ? (d) => field(d) % step === 0 : (d) => interval.count(0, d) % step === 0);
    };
  }
  return interval;
}
const globalInterval = interval;
const MIN = 6e4, HOUR = 36e5, DAY = 864e5, WEEK = 6048e5;
const time = {};
const off = (d) => d.getTimezoneOffset();
time.timeMillisecond = time.utcMillisecond = interval(() => {}, (d, s) => d.setTime(+d + s), (a, b) => b - a);
time.timeSecond = time.utcSecond = interval((d) => d.setTime(d - d.getMilliseconds()), (d, s) => d.setTime(+d + s * 1e3), (a, b) => (b - a) / 1e3, (d) => d.getUTCSeconds());
time.timeMinute = interval((d) => d.setTime(d - d.getMilliseconds() - d.getSeconds() * 1e3), (d, s) => d.setTime(+d + s * MIN), (a, b) => (b - a) / MIN, (d) => d.getMinutes());
time.utcMinute = interval((d) => d.setUTCSeconds(0, 0), (d, s) => d.setTime(+d + s * MIN), (a, b) => (b - a) / MIN, (d) => d.getUTCMinutes());
time.timeHour = interval((d) => d.setTime(d - d.getMilliseconds() - d.getSeconds() * 1e3 - d.getMinutes() * MIN), (d, s) => d.setTime(+d + s * HOUR), (a, b) => (b - a) / HOUR, (d) => d.getHours());
time.utcHour = interval((d) => d.setUTCMinutes(0, 0, 0), (d, s) => d.setTime(+d + s * HOUR), (a, b) => (b - a) / HOUR, (d) => d.getUTCHours());
time.timeDay = interval((d) => d.setHours(0, 0, 0, 0), (d, s) => d.setDate(d.getDate() + s), (a, b) => (b - a - (off(b) - off(a)) * MIN) / DAY, (d) => d.getDate() - 1);
time.utcDay = time.unixDay = interval((d) => d.setUTCHours(0, 0, 0, 0), (d, s) => d.setUTCDate(d.getUTCDate() + s), (a, b) => (b - a) / DAY, (d) => d.getUTCDate() - 1);
["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"].forEach((n, i) => {
  time["time" + n] = time["time" + n + "s"] = interval((d) => { d.setDate(d.getDate() - ((d.getDay() + 7 - i) % 7)); d.setHours(0, 0, 0, 0); },
    (d, s) => d.setDate(d.getDate() + s * 7), (a, b) => (b - a - (off(b) - off(a)) * MIN) / WEEK);
  time["utc" + n] = time["utc" + n + "s"] = interval((d) => { d.setUTCDate(d.getUTCDate() - ((d.getUTCDay() + 7 - i) % 7)); d.setUTCHours(0, 0, 0, 0); },
    (d, s) => d.setUTCDate(d.getUTCDate() + s * 7), (a, b) => (b - a) / WEEK);
});
time.timeWeek = time.timeSunday; time.utcWeek = time.utcSunday;
time.timeMonth = interval((d) => { d.setDate(1); d.setHours(0, 0, 0, 0); }, (d, s) => d.setMonth(d.getMonth() + s),
  (a, b) => b.getMonth() - a.getMonth() + (b.getFullYear() - a.getFullYear()) * 12, (d) => d.getMonth());
time.utcMonth = interval((d) => { d.setUTCDate(1); d.setUTCHours(0, 0, 0, 0); }, (d, s) => d.setUTCMonth(d.getUTCMonth() + s),
  (a, b) => b.getUTCMonth() - a.getUTCMonth() + (b.getUTCFullYear() - a.getUTCFullYear()) * 12, (d) => d.getUTCMonth());
time.timeYear = interval((d) => { d.setMonth(0, 1); d.setHours(0, 0, 0, 0); }, (d, s) => d.setFullYear(d.getFullYear() + s), (a, b) => b.getFullYear() - a.getFullYear(), (d) => d.getFullYear());
time.utcYear = interval((d) => { d.setUTCMonth(0, 1); d.setUTCHours(0, 0, 0, 0); }, (d, s) => d.setUTCFullYear(d.getUTCFullYear() + s), (a, b) => b.getUTCFullYear() - a.getUTCFullYear(), (d) => d.getUTCFullYear());
for (const [p, F] of [["time", ""], ["utc", "UTC"]])
  time[p + "Year"].every = (k) => (!isFinite((k = Math.floor(k))) || !(k > 0) ? null : interval((d) => {
    d["set" + F + "FullYear"](Math.floor(d["get" + F + "FullYear"]() / k) * k); d["set" + F + "Month"](0, 1); d["set" + F + "Hours"](0, 0, 0, 0);
  }, (d, s) => d["set" + F + "FullYear"](d["get" + F + "FullYear"]() + s * k)));
for (const n of Object.keys(time)) if (!/s$/.test(n)) time[n + "s"] = time[n].range;

// ---- d3-array --------------------------------------------------------------------------------------
const ascending = (a, b) => (a == null || b == null ? NaN : a < b ? -1 : a > b ? 1 : a >= b ? 0 : NaN);
const descending = (a, b) => (a == null || b == null ? NaN : b < a ? -1 : b > a ? 1 : b >= a ? 0 : NaN);
const vals = (it, f) => Array.from(it, f ? (d, i) => f(d, i, it) : (d) => d).filter((v) => v != null && v >= v);
function nest(values, map, reduce, keys) {
  return (function regroup(values, i) {
    if (i >= keys.length) return reduce(values);
    const groups = new Map();
    let index = -1;
    for (const v of values) { const k = keys[i](v, ++index, values); const key = k instanceof Date ? +k : k; groups.has(key) ? groups.get(key)[1].push(v) : groups.set(key, [k, [v]]); }
    return map(Array.from(groups.values(), ([k, vs]) => [k, regroup(vs, i + 1)]));
  })(values, 0);
}
class InternMap extends Map {
  constructor(es) { super(); for (const [k, v] of es || []) this.set(k, v); }
  key(k) { return k instanceof Date ? [...super.keys()].find((x) => x instanceof Date && +x == +k) ?? k : k; }
  get(k) { return super.get(this.key(k)); }
  has(k) { return super.has(this.key(k)); }
  set(k, v) { return super.set(super.size ? this.key(k) : k, v); }
}
const id = (x) => x, toMap = (es) => new InternMap(es), toArr = (es) => es;
const bis = (arr, x, lo, hi, before) => { while (lo < hi) { const m = (lo + hi) >>> 1; before(arr[m], m) ? (lo = m + 1) : (hi = m); } return lo; };
function bisector(f) {
  const cmp = f.length == 2 ? f : (d, x) => ascending(f(d), x);
  const left = (a, x, lo = 0, hi = a.length) => bis(a, x, lo, hi, (d) => cmp(d, x) < 0), right = (a, x, lo = 0, hi = a.length) => bis(a, x, lo, hi, (d) => cmp(d, x) <= 0);
  return { left, right, center: (a, x, lo = 0, hi = a.length) => { const i = left(a, x, lo, hi - 1); return i; } };
}
const array = {
  ascending, descending, bisector, InternMap,
  bisect: bisector(ascending).right, bisectRight: bisector(ascending).right, bisectLeft: bisector(ascending).left,
  group: (v, ...k) => nest(v, toMap, id, k), groups: (v, ...k) => nest(v, toArr, id, k),
  rollup: (v, r, ...k) => nest(v, toMap, r, k), rollups: (v, r, ...k) => nest(v, toArr, r, k),
  index: (v, ...k) => nest(v, toMap, (x) => x[0], k), indexes: (v, ...k) => nest(v, toArr, (x) => x[0], k),
  flatGroup: (v, ...k) => nest(v, toArr, id, k), sum: (v, f) => vals(v, f).reduce((a, x) => a + +x, 0),
  max: (v, f) => vals(v, f).reduce((a, x) => (a === undefined || x > a ? x : a), undefined),
  min: (v, f) => vals(v, f).reduce((a, x) => (a === undefined || x < a ? x : a), undefined),
  extent: (v, f) => [array.min(v, f), array.max(v, f)],
  mean: (v, f) => { const x = vals(v, f); return x.length ? x.reduce((a, b) => a + +b, 0) / x.length : undefined; },
  median: (v, f) => { const x = vals(v, f).sort((a, b) => a - b), n = x.length; return n ? (x[(n - 1) >> 1] + x[n >> 1]) / 2 : undefined; },
  count: (v, f) => vals(v, f).length, cumsum: (v, f) => { let s = 0; return Array.from(v, (d, i) => (s += +(f ? f(d, i, v) : d) || 0)); },
  range: (a, b, s) => { if (b === undefined) (b = a), (a = 0); s = s === undefined ? 1 : s; return Array.from({ length: Math.max(0, Math.ceil((b - a) / s)) }, (_, i) => a + i * s); },
  merge: (a) => Array.prototype.concat(...Array.from(a, (x) => Array.from(x))), pairs: (a, f = (x, y) => [x, y]) => Array.from(a).slice(1).map((x, i) => f(a[i], x)),
  reverse: (a) => Array.from(a).reverse(), transpose: (m) => (m[0] || []).map((_, i) => m.map((r) => r[i])), zip: (...m) => array.transpose(m),
  sort: (v, ...f) => { const c = f.length ? (f[0].length == 2 ? f[0] : (a, b) => { for (const g of f) { const r = ascending(g(a), g(b)); if (r) return r; } return 0; }) : ascending; return Array.from(v).sort(c); },
  groupSort: (v, r, k) => (r.length == 1 ? array.sort(array.rollup(v, r, k), ([, a], [, b]) => ascending(a, b)) : array.sort(array.group(v, k), ([, a], [, b]) => r(a, b))).map(([k]) => k),
  greatest: (v, f = ascending) => Array.from(v).reduce((a, x) => (a === undefined || (f.length == 1 ? ascending(f(x), f(a)) : f(x, a)) > 0 ? x : a), undefined),
  least: (v, f = ascending) => Array.from(v).reduce((a, x) => (a === undefined || (f.length == 1 ? ascending(f(x), f(a)) : f(x, a)) < 0 ? x : a), undefined),
  maxIndex: (v, f) => { const x = Array.from(v, f || id); return x.length ? x.indexOf(array.max(x)) : -1; }, minIndex: (v, f) => { const x = Array.from(v, f || id); return x.length ? x.indexOf(array.min(x)) : -1; },
  some: (v, f) => Array.from(v).some(f), every: (v, f) => Array.from(v).every(f), filter: (v, f) => Array.from(v).filter(f), map: (v, f) => Array.from(v, f), reduce: (v, f, ...a) => Array.from(v).reduce(f, ...a),
  union: (...a) => new Set(a.flatMap((x) => [...x])), intersection: (a, ...o) => new Set([...a].filter((x) => o.every((y) => [...y].includes(x)))), difference: (a, ...o) => new Set([...a].filter((x) => !o.some((y) => [...y].includes(x)))),
  ticks: (a, b, n) => array.range(a, b, (b - a) / n || 1),
};

// ---- d3-hierarchy ----------------------------------------------------------------------------------
class HNode {
  constructor(data) { this.data = data; this.depth = this.height = 0; this.parent = null; }
  *[Symbol.iterator]() { let next = [this]; while (next.length) { const level = next; next = []; for (const n of level) { yield n; if (n.children) next.push(...n.children); } } }
  each(f, that) { let i = -1; for (const n of this) f.call(that, n, ++i, this); return this; }
  eachBefore(f, that) { f.call(that, this, 0, this); (this.children || []).forEach((c) => c.eachBefore(f, that)); return this; }
  eachAfter(f, that) { (this.children || []).forEach((c) => c.eachAfter(f, that)); f.call(that, this, 0, this); return this; }
  find(f) { for (const n of this) if (f(n)) return n; }
  sum(f) { return this.eachAfter((n) => { n.value = (+f(n.data) || 0) + (n.children || []).reduce((a, c) => a + c.value, 0); }); }
  count() { return this.eachAfter((n) => { n.value = n.children ? n.children.reduce((a, c) => a + c.value, 0) : 1; }); }
  sort(c) { return this.eachBefore((n) => n.children && n.children.sort(c)); }
  ancestors() { const a = [this]; for (let n = this; (n = n.parent);) a.push(n); return a; }
  descendants() { return Array.from(this); }
  leaves() { const l = []; this.eachBefore((n) => n.children || l.push(n)); return l; }
  links() { return this.descendants().filter((n) => n !== this).map((n) => ({ source: n.parent, target: n })); }
  path(end) { const a = this.ancestors(), b = end.ancestors(), c = a.find((n) => b.includes(n)); return [...a.slice(0, a.indexOf(c) + 1), ...b.slice(0, b.indexOf(c)).reverse()]; }
  copy() { return hierarchy(this); }
}
function heights(root) { root.each((n) => { if (n.parent) n.depth = n.parent.depth + 1; }); root.eachAfter((n) => { n.height = n.children ? 1 + Math.max(...n.children.map((c) => c.height)) : 0; }); return root; }
function hierarchy(data, kids = (d) => (Array.isArray(d) ? d[1] : d.children)) {
  const make = (d, parent) => { const n = new HNode(d); n.parent = parent; const k = kids(d); const ks = k && Array.from(k); if (ks && ks.length) n.children = ks.map((c) => make(c, n)); return n; };
  return heights(make(data, null));
}
function stratify() {
  let idf = (d) => d.id, pf = (d) => d.parentId;
  const s = (data) => {
    const nodes = Array.from(data, (d, i) => { const n = new HNode(d); const i_ = idf(d, i, data); if (i_ != null && (i_ + "")) n.id = i_ + ""; return n; });
    const byId = new Map();
    for (const n of nodes) if (n.id !== undefined) byId.set(n.id, byId.has(n.id) ? null : n);
    let root = null;
    nodes.forEach((n, i) => {
      let p = pf(n.data, i, data);
      if (p == null || !(p += "")) { if (root) throw new Error("multiple roots"); root = n; return; }
      if (!byId.has(p)) throw new Error("missing: " + p);
      const parent = byId.get(p);
      if (!parent) throw new Error("ambiguous: " + p);
      (parent.children = parent.children || []).push(n);
      n.parent = parent;
    });
    if (!root) throw new Error("no root");
    if (root.descendants().length < nodes.length) throw new Error("cycle");
    return heights(root);
  };
  s.id = (f) => ((idf = f), s); s.parentId = (f) => ((pf = f), s);
  return s;
}
function layout() {
  let size = [1, 1], pad = 0, top = 0;
  const l = (root) => {
    const place = (n, x0, y0, x1, y1) => {
      Object.assign(n, { x0, y0, x1: Math.max(x0, x1), y1: Math.max(y0, y1) });
      const total = (n.children || []).reduce((a, c) => a + (c.value || 0), 0);
      let x = x0 + pad;
      for (const c of n.children || []) { const w = total ? ((x1 - x0 - 2 * pad) * (c.value || 0)) / total : 0; place(c, x, y0 + top, x + Math.max(0, w), y1 - pad); x += w; }
    };
    place(root, 0, 0, size[0], size[1]);
    return root;
  };
  l.size = (s) => (s ? ((size = s), l) : size);
  l.padding = l.paddingInner = l.paddingOuter = (p) => (typeof p == "number" && (pad = p), l);
  l.paddingTop = (p) => (typeof p == "number" && (top = p), l);
  for (const n of ["paddingLeft", "paddingRight", "paddingBottom", "round", "tile"]) l[n] = () => l;
  return l;
}

// ---- scales, axes, formats -------------------------------------------------------------------------
function continuous(conv) {
  return function make(domain, range) {
    let d = [0, 1], r = [0, 1], clamp = false;
    const s = (x) => {
      const a = +d[0], b = +d[d.length - 1];
      let t = b == a ? 0.5 : (+x - a) / (b - a);
      if (clamp) t = Math.max(0, Math.min(1, t));
      return r[0] + t * (r[r.length - 1] - r[0]);
    };
    s.invert = (y) => conv(+d[0] + ((y - r[0]) / (r[r.length - 1] - r[0])) * (d[d.length - 1] - d[0]));
    s.domain = (x) => (x ? ((d = Array.from(x)), s) : d.slice());
    s.range = s.rangeRound = (x) => (x ? ((r = Array.from(x)), s) : r.slice());
    s.clamp = (c) => (c === undefined ? clamp : ((clamp = c), s));
    s.nice = () => s; s.unknown = () => s; s.interpolate = () => s;
    s.ticks = () => [d[0], d[d.length - 1]]; s.tickFormat = () => String;
    s.copy = () => { const c = make(d, r); c.clamp(clamp); return c; };
    if (range === undefined) { if (domain) s.range(domain); } else { s.domain(domain); s.range(range); }
    return s;
  };
}
function scaleOrdinal(domain, range) {
  if (arguments.length < 2) (range = domain || []), (domain = []);
  let d = [], r = Array.from(range);
  const s = (k) => { let i = d.indexOf(k); if (i < 0) i = d.push(k) - 1; return r[i % r.length]; };
  s.domain = (x) => (x ? ((d = Array.from(x)), s) : d.slice()); s.range = (x) => (x ? ((r = Array.from(x)), s) : r.slice());
  s.unknown = () => s; s.copy = () => scaleOrdinal(d, r);
  s.domain(domain);
  return s;
}
function scaleSequential(domain, interpolator) {
  let d = Array.isArray(domain) ? domain : [0, 1], f = interpolator || (typeof domain == "function" ? domain : id);
  const s = (x) => f((x - d[0]) / (d[1] - d[0] || 1));
  s.domain = (x) => (x ? ((d = Array.from(x)), s) : d.slice()); s.interpolator = (g) => (g ? ((f = g), s) : f); s.clamp = s.unknown = () => s;
  return s;
}
function scaleBand(domain, range) {
  let d = Array.from(domain || []), r = Array.from(range || [0, 1]);
  const s = (k) => r[0] + ((r[1] - r[0]) * d.indexOf(k)) / (d.length || 1);
  s.domain = (x) => (x ? ((d = Array.from(x)), s) : d.slice()); s.range = s.rangeRound = (x) => (x ? ((r = Array.from(x)), s) : r.slice());
  s.bandwidth = () => (r[1] - r[0]) / (d.length || 1); s.step = s.bandwidth;
  for (const n of ["padding", "paddingInner", "paddingOuter", "align", "round"]) s[n] = () => s;
  return s;
}
function chain() { const f = new Proxy(function () {}, { get: (t, k) => (k == Symbol.toPrimitive ? () => "" : k == "then" ? undefined : () => f), apply: () => f }); return f; }
const two = (n, w = 2, c = "0") => String(n).padStart(w, c);
const MONTHS = "January February March April May June July August September October November December".split(" "), DAYS = "Sunday Monday Tuesday Wednesday Thursday Friday Saturday".split(" ");
const timef = (u) => (spec) => (d) => {
  const g = (k) => d["get" + u + k]();
  const one = { Y: () => g("FullYear"), m: () => two(g("Month") + 1), d: () => two(g("Date")), e: () => two(g("Date"), 2, " "), H: () => two(g("Hours")), M: () => two(g("Minutes")), S: () => two(g("Seconds")),
    y: () => two(g("FullYear") % 100), b: () => MONTHS[g("Month")].slice(0, 3), B: () => MONTHS[g("Month")], a: () => DAYS[g("Day")].slice(0, 3), A: () => DAYS[g("Day")], "%": () => "%" };
  return spec.replace(/%-?([a-zA-Z%])/g, (m, c) => (one[c] ? one[c]() : m));
};
const timep = (u) => (spec) => (s) => {
  const names = [], re = new RegExp("^" + spec.replace(/[.*+?^${}()|[\]\\\/]/g, "\\$&").replace(/%([a-zA-Z])/g, (_, c) => (names.push(c), "(\\d+)")) + "$"), m = re.exec(s);
  if (!m) return null;
  const v = { Y: 1900, m: 1, d: 1, H: 0, M: 0, S: 0 };
  names.forEach((n, i) => (v[n] = +m[i + 1]));
  return u ? new Date(Date.UTC(v.Y, v.m - 1, v.d, v.H, v.M, v.S)) : new Date(v.Y, v.m - 1, v.d, v.H, v.M, v.S);
};
function format(spec) {
  const m = /^([,])?(?:\.(\d+))?([fd%s])?$/.exec(spec) || [];
  return (x) => { let s = m[2] !== undefined || m[3] == "f" ? (+x).toFixed(m[2] === undefined ? 6 : +m[2]) : m[3] == "d" ? String(Math.round(x)) : String(x); if (m[1]) s = s.replace(/\B(?=(\d{3})+(?!\d))/, ","); return s; };
}
const scale = {
  scaleLinear: continuous(Number), scaleTime: continuous((x) => new Date(x)), scaleUtc: continuous((x) => new Date(x)), scaleSqrt: continuous(Number), scalePow: continuous(Number), scaleLog: continuous(Number),
  scaleOrdinal, scaleSequential, scaleBand, scalePoint: scaleBand,
};
const d3 = {
  Selection, select, selectAll, create, creator, selector, selectorAll, matcher, selection: () => select(doc().documentElement), namespace: id, namespaces: NS,
  pointer: () => [0, 0], ...time, ...array, HNode, hierarchy, stratify, treemap: layout, partition: layout, pack: layout, tree: layout, cluster: layout,
  treemapSquarify: id, treemapBinary: id, treemapSlice: id, treemapDice: id, ...scale,
  axisTop: chain, axisLeft: chain, axisRight: chain, axisBottom: chain, format, formatPrefix: format,
  timeFormat: timef(""), utcFormat: timef("UTC"), timeParse: timep(false), utcParse: timep(true), isoFormat: (d) => d.toISOString(), isoParse: (s) => new Date(s),
};
// Colours and whatever else is asked for (through the prototype, which bundlers keep).
const rest = new Proxy({}, {
  get: (t, k) => (typeof k != "string" || k == "__esModule" || k == "default" || k in Object.prototype ? Object.prototype[k]
    : /^scheme/.test(k) ? ["#111", "#222", "#333", "#444", "#555", "#666", "#777", "#888", "#999", "#aaa"] : /^interpolate/.test(k) ? () => "#abc" : chain()),
});
module.exports = Object.assign(Object.create(rest), d3);
