// A small DOM with a deterministic layout: every text node is a 10x10 box, rows are laid out left to right on a
// common baseline, containers are padded so that inner rows lie strictly inside of them.
let version = 0;
const changed = () => { version++; };
/** Lists of nodes: arrays that also have what node lists and element collections have. */
class NodeArray extends Array {
  item(i) { return this[i] ?? null; }
  namedItem(id) { return this.find((e) => e.id === id) ?? null; }
}
const listOf = (a) => NodeArray.from(a);
/** The nodes themselves, and for a fragment what is in it. */
const flat = (ns) => ns.flatMap((n) => (n instanceof FFragment ? [...n.childNodes] : [n]));
export class FNode {
  constructor() { this.parentNode = null; this.childNodes = new NodeArray(); }
  static ELEMENT_NODE = 1; static TEXT_NODE = 3; static COMMENT_NODE = 8; static DOCUMENT_FRAGMENT_NODE = 11;
  static DOCUMENT_POSITION_PRECEDING = 2; static DOCUMENT_POSITION_FOLLOWING = 4; static DOCUMENT_POSITION_CONTAINS = 8; static DOCUMENT_POSITION_CONTAINED_BY = 16;
  get ELEMENT_NODE() { return 1; }
  get TEXT_NODE() { return 3; }
  get COMMENT_NODE() { return 8; }
  isSameNode(o) { return this === o; }
  isEqualNode(o) { return o instanceof FNode && serialize(this) === serialize(o); }
  compareDocumentPosition(o) {
    if (o === this) return 0;
    if (this.contains(o)) return 16 | 4;
    if (o.contains(this)) return 8 | 2;
    const all = [...walk(this.getRootNode())];
    return all.indexOf(o) < all.indexOf(this) ? 2 : 4;
  }
  before(...ns) { const p = this.parentNode; if (!p) return; for (const n of flat(ns)) { n.remove?.(); p.insertAt(p.childNodes.indexOf(this), n); } }
  after(...ns) { const p = this.parentNode; if (!p) return; let at = this; for (const n of flat(ns)) { n.remove?.(); at = p.insertAt(p.childNodes.indexOf(at) + 1, n); } }
  replaceWith(...ns) {
    const p = this.parentNode, nodes = flat(ns);
    if (!p) return;
    let next = this.nextSibling;
    while (next && nodes.includes(next)) next = next.nextSibling;
    this.remove();
    for (const n of nodes) { n.remove?.(); p.insertAt(next ? p.childNodes.indexOf(next) : p.childNodes.length, n); }
  }
  get nextElementSibling() { const s = this.parentNode?.childNodes; return s ? s.slice(s.indexOf(this) + 1).find((n) => n instanceof FElement) ?? null : null; }
  get previousElementSibling() { const s = this.parentNode?.childNodes; return s ? s.slice(0, s.indexOf(this)).reverse().find((n) => n instanceof FElement) ?? null : null; }
  normalize() {
    for (const c of [...this.childNodes]) {
      if (c instanceof FText && c.data === "") c.remove();
      else if (c instanceof FText && c.previousSibling instanceof FText) { c.previousSibling.data += c.data; c.remove(); changed(); }
      else c.normalize();
    }
  }
  get parentElement() { return this.parentNode?.nodeType === 1 ? this.parentNode : null; }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === FNode.root; }
  get ownerDocument() { return globalThis.document; }
  get firstChild() { return this.childNodes[0] ?? null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
  get nextSibling() { const s = this.parentNode?.childNodes; return s ? s[s.indexOf(this) + 1] ?? null : null; }
  get previousSibling() { const s = this.parentNode?.childNodes; return s ? s[s.indexOf(this) - 1] ?? null : null; }
  getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
  contains(o) { for (let n = o; n; n = n.parentNode) if (n === this) return true; return false; }
  hasChildNodes() { return this.childNodes.length > 0; }
  remove() {
    if (!this.parentNode) return;
    const s = this.parentNode.childNodes;
    s.splice(s.indexOf(this), 1);
    const was = this.isConnected;
    this.parentNode = null;
    changed();
    if (was) reactions(this, "disconnectedCallback");
  }
}
export class FText extends FNode {
  constructor(data) { super(); this.text = String(data); }
  get data() { return this.text; }
  set data(v) { this.text = String(v); changed(); }
  get nodeType() { return 3; }
  get nodeName() { return "#text"; }
  get length() { return this.data.length; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = String(v); changed(); }
  get nodeValue() { return this.data; }
  set nodeValue(v) { this.textContent = v; }
  appendData(v) { this.textContent = this.data + v; }
  substringData(i, n) { return this.data.slice(i, i + n); }
  get wholeText() { return this.data; }
  cloneNode() { return new FText(this.data); }
}
export class FComment extends FNode {
  constructor(data) { super(); this.data = String(data); }
  get nodeType() { return 8; }
  get nodeName() { return "#comment"; }
  get textContent() { return this.data; }
  get nodeValue() { return this.data; }
  cloneNode() { return new FComment(this.data); }
}
class ClassList {
  constructor(e) { this.e = e; }
  get set() { return new Set((this.e.attrs.get("class") ?? "").split(/\s+/).filter(Boolean)); }
  put(set) { if (set.size || this.e.attrs.has("class")) this.e.attrs.set("class", [...set].join(" ")); }
  add(...n) { const s = this.set; n.forEach((v) => s.add(v)); this.put(s); }
  remove(...n) { const s = this.set; n.forEach((v) => s.delete(v)); this.put(s); }
  contains(n) { return this.set.has(n); }
  toggle(n, force = !this.contains(n)) { if (force) this.add(n); else this.remove(n); return force; }
  replace(a, b) { const was = this.contains(a); if (was) { this.remove(a); this.add(b); } return was; }
  item(i) { return [...this.set][i] ?? null; }
  forEach(f) { [...this.set].forEach((v, i) => f(v, i, this)); }
  get length() { return this.set.size; }
  get value() { return this.e.attrs.get("class") ?? ""; }
  set value(v) { this.e.setAttribute("class", v); }
  toString() { return this.value; }
  [Symbol.iterator]() { return this.set[Symbol.iterator](); }
}
const camel = (k) => k.startsWith("--") ? k : k.replace(/-([a-z])/g, (_, c) => c.toUpperCase());
class Style {
  setProperty(k, v) { this[camel(k)] = v ?? ""; }
  removeProperty(k) { const v = this[camel(k)] ?? ""; delete this[camel(k)]; return v; }
  getPropertyValue(k) { return this[camel(k)] ?? ""; }
  get cssText() { return Object.entries(this).map(([k, v]) => `${k.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase())}: ${v};`).join(" "); }
  set cssText(text) {
    for (const k of Object.keys(this)) delete this[k];
    for (const part of String(text).split(";")) {
      const at = part.indexOf(":");
      if (at > 0) this.setProperty(part.slice(0, at).trim(), part.slice(at + 1).trim());
    }
  }
}
export class FElement extends FNode {
  constructor(tag = "x-element", upper = false) {
    super();
    this.localName = tag.toLowerCase();
    this.tagName = upper ? tag.toUpperCase() : tag;
    this.attrs = new Map();
    this.classList = new ClassList(this);
    this.captured = new Set();
    this.style = new Style();
    this.listeners = new Map();
    this.shadowRoot = null;
  }
  get nodeType() { return 1; }
  get nodeName() { return this.tagName; }
  get children() { return listOf(this.childNodes).filter((c) => c instanceof FElement); }
  get childElementCount() { return this.children.length; }
  get firstElementChild() { return this.children[0] ?? null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] ?? null; }
  get attributes() { return listOf([...this.attrs].map(([name, value]) => ({ name, value, localName: name, nodeName: name }))); }
  getAttributeNames() { return [...this.attrs.keys()]; }
  hasAttributes() { return this.attrs.size > 0; }
  setAttributeNS(_ns, k, v) { this.setAttribute(k, v); }
  getAttributeNS(_ns, k) { return this.getAttribute(k); }
  hasAttributeNS(_ns, k) { return this.hasAttribute(k); }
  removeAttributeNS(_ns, k) { this.removeAttribute(k); }
  get namespaceURI() { return this instanceof FMathMLElement ? "http://www.w3.org/1998/Math/MathML" : "http://www.w3.org/1999/xhtml"; }
  get className() { return this.classList.value; }
  set className(v) { this.setAttribute("class", v); }
  insertAdjacentElement(where, n) {
    ({ beforebegin: () => this.before(n), afterbegin: () => this.prepend(n), beforeend: () => this.append(n), afterend: () => this.after(n) })[where.toLowerCase()]();
    return n;
  }
  insertAdjacentText(where, t) { this.insertAdjacentElement(where, new FText(t)); }
  insertAdjacentHTML(where, html) {
    const nodes = parseMarkup(String(html));
    ({ beforebegin: () => this.before(...nodes), afterbegin: () => this.prepend(...nodes), beforeend: () => this.append(...nodes), afterend: () => this.after(...nodes) })[where.toLowerCase()]();
  }
  get textContent() { return this.childNodes.map((c) => (c instanceof FComment ? "" : c.textContent)).join(""); }
  set textContent(v) { this.replaceChildren(...(v === "" || v == null ? [] : [String(v)])); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get innerHTML() { return (this.content ?? this).childNodes.map(serialize).join(""); }
  get outerHTML() { return serialize(this); }
  set innerHTML(v) {
    const nodes = parseMarkup(String(v));
    if (this.localName === "template") { this.content = new FFragment(); this.content.append(...nodes); }
    else this.replaceChildren(...nodes);
  }
  insertAt(i, n) {
    if (!(n instanceof FNode)) n = new FText(n);
    if (n.contains(this)) throw new Error("HierarchyRequestError: the new child contains the parent");
    n.remove();
    n.parentNode = this;
    this.childNodes.splice(i, 0, n);
    changed();
    if (registry.size && this.isConnected) reactions(n, "connectedCallback");
    return n;
  }
  append(...ns) { for (const n of flat(ns)) this.insertAt(this.childNodes.length - (n.parentNode === this ? 1 : 0), n); }
  prepend(...ns) { flat(ns).reverse().forEach((n) => this.insertAt(0, n)); }
  appendChild(n) { if (!(n instanceof FNode)) throw new TypeError("not a node"); this.append(n); return n; }
  insertBefore(n, ref) {
    if (ref && ref.parentNode !== this) throw new Error("NotFoundError");
    if (ref === n) return n;
    for (const c of flat([n])) { c.remove(); this.insertAt(ref ? this.childNodes.indexOf(ref) : this.childNodes.length, c); }
    return n;
  }
  removeChild(n) { if (n.parentNode !== this) throw new Error("NotFoundError"); n.remove(); return n; }
  replaceChildren(...ns) { const nodes = flat(ns); for (const c of [...this.childNodes]) c.remove(); this.append(...nodes); }
  replaceChild(n, old) { if (old.parentNode !== this) throw new Error("NotFoundError"); old.replaceWith(n); return old; }
  cloneNode(deep) {
    const e = new this.constructor(this.tagName);
    this.attrs.forEach((v, k) => e.attrs.set(k, v));
    if (deep) e.append(...this.childNodes.map((c) => c.cloneNode(true)));
    return e;
  }
  setAttribute(k, v) {
    const old = this.getAttribute(k);
    this.attrs.set(k, String(v));
    if (k === "style") this.style.cssText = v;
    attributeReaction(this, k, old, String(v));
  }
  getAttribute(k) { return this.attrs.get(k) ?? null; }
  hasAttribute(k) { return this.attrs.has(k); }
  removeAttribute(k) {
    const old = this.getAttribute(k);
    if (this.attrs.delete(k)) attributeReaction(this, k, old, null);
  }
  toggleAttribute(k, force = !this.hasAttribute(k)) { force ? this.hasAttribute(k) || this.setAttribute(k, "") : this.removeAttribute(k); return force; }
  get dataset() {
    const e = this, name = (k) => "data-" + String(k).replace(/[A-Z]/g, (c) => "-" + c.toLowerCase());
    const now = Object.fromEntries([...this.attrs].filter(([k]) => k.startsWith("data-")).map(([k, v]) => [k.slice(5).replace(/-([a-z])/g, (_, c) => c.toUpperCase()), v]));
    return new Proxy(now, { set(o, k, v) { o[k] = String(v); e.setAttribute(name(k), v); return true; }, deleteProperty(o, k) { delete o[k]; e.removeAttribute(name(k)); return true; } });
  }
  get id() { return this.getAttribute("id") ?? ""; }
  set id(v) { this.setAttribute("id", v); }
  get title() { return this.getAttribute("title") ?? ""; }
  set title(v) { this.setAttribute("title", v); }
  matches(selector) { return selectors(selector).some((s) => matchesChain(this, s)); }
  closest(selector) { let n = this; while (n instanceof FElement && !n.matches(selector)) n = n.parentNode; return n instanceof FElement ? n : null; }
  querySelectorAll(selector) {
    const list = selectors(selector), out = new NodeArray();
    const go = (n) => { for (const c of n.childNodes) if (c instanceof FElement) { if (list.some((s) => matchesChain(c, s))) out.push(c); go(c); } };
    go(this);
    return out;
  }
  querySelector(selector) { return this.querySelectorAll(selector)[0] ?? null; }
  getElementsByClassName(c) { return this.querySelectorAll(c.trim().split(/\s+/).map((v) => "." + v).join("")); }
  getElementsByTagName(t) { return listOf(walk(this)).filter((e) => e !== this && e instanceof FElement && (t === "*" || e.localName === t)); }
  addEventListener(type, f, options) {
    if (!f) return;
    const signal = options?.signal, once = options?.once === true, capture = options === true || options?.capture === true;
    if (signal?.aborted) return;
    if (!this.listeners.has(type)) this.listeners.set(type, []);
    const l = this.listeners.get(type);
    if (l.some((x) => x.f === f && x.capture === capture)) return;
    l.push({ f, once, capture });
    signal?.addEventListener?.("abort", () => this.removeEventListener(type, f, { capture }));
  }
  removeEventListener(type, f, options) {
    const l = this.listeners.get(type) ?? [], capture = options === true || options?.capture === true;
    const i = l.findIndex((x) => x.f === f && x.capture === capture);
    if (i >= 0) l.splice(i, 1);
  }
  dispatchEvent(ev) {
    const path = [this];
    while (path[path.length - 1].parentNode) path.push(path[path.length - 1].parentNode);
    let stopped = false, atOnce = false;
    const call = (n, phase) => {
      for (const x of [...(n.listeners?.get(ev.type) ?? [])]) {
        if (atOnce || (phase === "at" ? false : (phase === "down") !== x.capture)) continue;
        if (x.once) n.removeEventListener(ev.type, x.f, { capture: x.capture });
        typeof x.f === "function" ? x.f.call(n, ev) : x.f.handleEvent(ev);
      }
    };
    const put = (k, v) => Object.defineProperty(ev, k, { value: v, configurable: true, writable: true });
    put("target", this);
    put("composedPath", () => [...path]);
    put("stopPropagation", () => { stopped = true; });
    put("stopImmediatePropagation", () => { stopped = atOnce = true; });
    for (const n of path.slice(1).reverse()) { if (stopped) break; put("currentTarget", n); call(n, "down"); }
    if (!stopped) { put("currentTarget", this); call(this, "at"); }
    if (ev.bubbles !== false && !["focus", "blur", "mouseenter", "mouseleave"].includes(ev.type)) for (const n of path.slice(1)) { if (stopped) break; put("currentTarget", n); call(n, "up"); }
    put("currentTarget", null);
    return !ev.defaultPrevented;
  }
  focus() { globalThis.document.activeElement = this; }
  blur() { }
  setPointerCapture(id) { this.captured.add(id); }
  releasePointerCapture(id) { this.captured.delete(id); }
  hasPointerCapture(id) { return this.captured.has(id); }
  attachShadow() { const s = new FFragment("#shadow-root"); s.parentNode = this; this.shadowRoot = s; return s; }
  getBoundingClientRect() { return rectOf(this); }
  getClientRects() { return [rectOf(this)]; }
}
export class FHTMLElement extends FElement {
  constructor(tag) {
    super(tag ?? [...registry].find(([, c]) => c === new.target)?.[0] ?? "x-element", true);
    if (upgrading) { const e = upgrading; upgrading = null; made.last = e; return Object.setPrototypeOf(e, new.target.prototype); }
    if (new.target !== FHTMLElement) made.last = this;
  }
}
export class FMathMLElement extends FElement { }
/** Document fragments and shadow roots. */
export class FFragment extends FElement {
  constructor(name = "#document-fragment") { super(name); this.localName = undefined; }
  get nodeType() { return 11; }
  getElementById(id) { return this.querySelector("#" + id); }
}

// ------------------------------------------------------------------ custom elements
/** Names of custom elements. Like in a browser, what their callbacks raise is reported, not raised at the caller. */
export const registry = new Map();
export const reported = [];
let upgrading = null;
/** The custom element made last. */
export const made = { last: null };
const custom = (n) => n instanceof FElement && registry.size > 0 && [...registry.values()].some((c) => n instanceof c);
function react(n, name, ...args) {
  if (typeof n[name] !== "function") return;
  try { n[name](...args); } catch (e) { reported.push(e); }
}
function reactions(top, name) {
  if (registry.size) for (const n of [...walk(top)]) if (custom(n)) react(n, name);
}
function attributeReaction(n, k, old, value) {
  if (custom(n) && (n.constructor.observedAttributes ?? []).includes(k)) react(n, "attributeChangedCallback", k, old, value, null);
}
const customElements = {
  define(name, c) {
    if (registry.has(name)) throw new Error(`NotSupportedError: ${name} is defined already`);
    if ([...registry.values()].includes(c)) throw new Error("NotSupportedError: the class is registered already");
    registry.set(name, c);
    for (const e of document.body.querySelectorAll(name)) {
      try { upgrading = e; new c(); } catch (x) { reported.push(x); continue; } finally { upgrading = null; }
      for (const { name: k, value } of e.attributes) attributeReaction(e, k, null, value);
      react(e, "connectedCallback");
    }
  },
  get: (name) => registry.get(name),
  whenDefined: async (name) => registry.get(name),
};
function createElement(t) {
  const c = registry.get(t.toLowerCase());
  if (!c) return new FHTMLElement(t);
  const e = new c();
  if (e.attrs.size || e.childNodes.length) throw new Error("NotSupportedError: a new custom element must have neither attributes nor children");
  return e;
}

// ------------------------------------------------------------------ selectors (tag, #id, .class, [a], [a=v], descendants, lists)
function selectors(text) {
  return text.split(",").map((s) => s.trim().split(/\s+/).map((part) => {
    const m = /^([a-zA-Z][\w-]*|\*)?((?:#[\w-]+|\.[\w-]+|\[[\w-]+(?:="?[^"\]]*"?)?\])*)$/.exec(part);
    if (!m || part === "") throw new Error(`SyntaxError: the stand-in does not know the selector ${text}`);
    const tests = [...m[2].matchAll(/#([\w-]+)|\.([\w-]+)|\[([\w-]+)(?:="?([^"\]]*)"?)?\]/g)];
    return (e) => (!m[1] || m[1] === "*" || e.localName === m[1].toLowerCase())
      && tests.every(([, id, cls, a, v]) => (id ? e.id === id : cls ? e.classList.contains(cls) : e.hasAttribute(a) && (v === undefined || e.getAttribute(a) === v)));
  }));
}
function matchesChain(e, chain) {
  if (!chain[chain.length - 1](e)) return false;
  let k = chain.length - 2;
  for (let n = e.parentNode; k >= 0 && n instanceof FElement; n = n.parentNode) if (chain[k](n)) k--;
  return k < 0;
}

// ------------------------------------------------------------------ markup
const VOID = new Set(["br", "hr", "img", "input", "link", "meta"]);
const escapeText = (s) => s.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const escapeValue = (s) => s.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/"/g, "&quot;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
function serialize(n) {
  if (n instanceof FText) return escapeText(n.data);
  if (n instanceof FComment) return `<!--${n.data}-->`;
  const attrs = [...n.attrs].map(([k, v]) => ` ${k}="${escapeValue(v)}"`).join("");
  return `<${n.localName}${attrs}>` + (VOID.has(n.localName) ? "" : `${n.innerHTML}</${n.localName}>`);
}
const ENTITIES = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };
const decode = (s) => s.replace(/&(?:#x([0-9a-fA-F]+)|#(\d+)|(\w+));/g, (all, hex, dec, name) => (hex ? String.fromCodePoint(parseInt(hex, 16)) : dec ? String.fromCodePoint(+dec) : ENTITIES[name] ?? all));

export function* walk(n) { yield n; if (n.shadowRoot) yield* walk(n.shadowRoot); for (const c of n.childNodes) yield* walk(c); }

/** Enough of a parser for well-formed markup. */
export function parseMarkup(s) {
  const top = new FFragment();
  let at = top;
  const re = /<!--([^]*?)-->|<\/([a-zA-Z][\w-]*)\s*>|<([a-zA-Z][\w-]*)((?:\s+[a-zA-Z_][\w:-]*(?:="[^"]*")?)*)\s*(\/?)>|([^<]+|<)/y;
  let m;
  while (re.lastIndex < s.length && (m = re.exec(s))) {
    const [, comment, close, open, attrs, self, text] = m;
    if (comment !== undefined) at.append(new FComment(comment));
    else if (close) {
      let n = at;
      while (n !== top && n.localName !== close.toLowerCase()) n = n.parentNode;
      if (n !== top) at = n.parentNode;
    } else if (open) {
      const t = open.toLowerCase(), inMath = t === "math" || at instanceof FMathMLElement;
      const e = inMath ? new FMathMLElement(t) : createElement(open);
      for (const a of attrs.matchAll(/([a-zA-Z_][\w:-]*)(?:="([^"]*)")?/g)) e.attrs.set(a[1].toLowerCase(), decode(a[2] ?? ""));
      if (e.attrs.has("style")) e.style.cssText = e.attrs.get("style");
      at.append(e);
      if (!(self && inMath) && !VOID.has(t)) at = e;
    } else at.append(decode(text));
  }
  const nodes = [...top.childNodes];
  nodes.forEach((n) => n.remove());
  return nodes;
}

// ------------------------------------------------------------------ layout
const PAD = 2;
/** What is drawn of a node. */
const NONE = [];
const laid = (n) => (n.localName === "style" || n.localName === "template" ? NONE : n.shadowRoot ? [n.shadowRoot] : n.childNodes);
function row(n) {
  let w = 0, a = 0, d = 0;
  for (const c of laid(n)) {
    const m = measure(c);
    m.dx = w; m.dy = 0;
    w += m.w; a = Math.max(a, m.a); d = Math.max(d, m.d);
  }
  return { w, a, d };
}
/** Characters are of different widths, by their code points. */
const textWidth = (data) => 6 + [...data].reduce((x, c) => x + c.codePointAt(0), 0) % 9;
function shifted(m, dx, dy) { m.dx = dx; m.dy = dy; }
function measure(n) {
  let b;
  if (n instanceof FComment) b = { w: 0, a: 0, d: 0 };
  else if (n instanceof FText) b = n.data === "" ? { w: 0, a: 0, d: 0 } : { w: textWidth(n.data), a: 8, d: 2 };
  else {
    const k = n.childNodes, t = n.localName;
    if (t === "mfrac" && k.length === 2) {
      const [p, q] = k.map(measure);
      const w = Math.max(p.w, q.w) + 2 * PAD;
      shifted(p, (w - p.w) / 2, -(p.d + 3));
      shifted(q, (w - q.w) / 2, q.a + 1);
      b = { w, a: p.a + p.d + 3 + PAD, d: q.a + q.d + 1 + PAD };
    } else if ((t === "msup" || t === "msub") && k.length === 2) {
      const [p, q] = k.map(measure);
      const dy = t === "msup" ? -7 : 5;
      shifted(p, 0, 0);
      shifted(q, p.w, dy);
      b = { w: p.w + q.w + 1, a: Math.max(p.a, q.a - dy), d: Math.max(p.d, q.d + dy) };
    } else if (t === "mroot" && k.length === 2) {
      const [p, q] = k.map(measure);
      shifted(q, PAD, -5);
      shifted(p, PAD + q.w + 5, 0);
      b = { w: 2 * PAD + 5 + p.w + q.w, a: Math.max(p.a, q.a + 5) + PAD, d: Math.max(p.d, q.d) + PAD };
    } else if (t === "mtable") {
      const rows = k.map((r) => r.childNodes.map((c) => measure(c)));
      const cols = [];
      rows.forEach((r) => r.forEach((m, i) => { cols[i] = Math.max(cols[i] ?? 0, m.w + 2 * PAD); }));
      const w = cols.reduce((x, y) => x + y, 0) + 2 * PAD;
      let y = PAD;
      k.forEach((r, i) => {
        const a = Math.max(0, ...rows[i].map((m) => m.a)) + PAD, d = Math.max(0, ...rows[i].map((m) => m.d)) + PAD;
        let x = 0;
        rows[i].forEach((m, j) => { shifted(m, x + (cols[j] - m.w) / 2, 0); x += cols[j]; });
        r.box = { w: w - 2 * PAD, a, d, dx: PAD, dy: 0, top: y };
        y += a + d;
      });
      const h = y + PAD, a = h / 2 + 3;
      k.forEach((r) => { r.box.dy = r.box.top + r.box.a - a; });
      b = { w, a, d: h - a };
    } else b = row(n);
  }
  b.dx = 0; b.dy = 0;
  n.box = b;
  return b;
}
function place(n, x, y) {
  n.rect = { left: x, right: x + n.box.w, top: y - n.box.a, bottom: y + n.box.d };
  for (const c of laid(n)) place(c, x + c.box.dx, y + c.box.dy);
}
/** How far the page is scrolled. */
export const scrolled = { x: 0, y: 0 };
export function scrollTo(x, y) { scrolled.x = x; scrolled.y = y; changed(); }
/** The box of a node, relative to the viewport. */
export function rectOf(n) {
  let r = n;
  while (r.parentNode) r = r.parentNode;
  // pure text children of the page's own elements are not laid out
  if (r.laidOut !== version) { measure(r); place(r, 100 - scrolled.x, 100 - scrolled.y); r.laidOut = version; }
  const { left, right, top, bottom } = n.rect ?? { left: 0, right: 0, top: 0, bottom: 0 };
  return { x: left, y: top, left, right, top, bottom, width: right - left, height: bottom - top };
}

/** Ranges that select one node, or the content of one node. */
class FRange {
  constructor() { this.node = null; }
  selectNode(n) { this.node = n; }
  selectNodeContents(n) { this.node = n; }
  setStart(n) { this.node = n; }
  setEnd(n) { this.node = n; }
  setStartBefore(n) { this.node = n; }
  setEndAfter(n) { this.node = n; }
  detach() { }
  collapse() { }
  getBoundingClientRect() { return rectOf(this.node); }
  getClientRects() { return [rectOf(this.node)]; }
}
class FRect {
  constructor(x = 0, y = 0, width = 0, height = 0) { Object.assign(this, { x, y, width, height, left: x, top: y, right: x + width, bottom: y + height }); }
  static fromRect({ x = 0, y = 0, width = 0, height = 0 } = {}) { return new FRect(x, y, width, height); }
  toJSON() { return { ...this }; }
}
class FParser {
  parseFromString(text) {
    const top = new FElement("body", true);
    top.append(...parseMarkup(String(text)));
    return { body: top, documentElement: top.firstElementChild, querySelector: (q) => top.querySelector(q), querySelectorAll: (q) => top.querySelectorAll(q), getElementsByTagName: (t) => top.getElementsByTagName(t), firstElementChild: top.firstElementChild, childNodes: top.childNodes };
  }
}
export function install() {
  const body = new FElement("body", true);
  FNode.root = body;
  const doc = {
    body, activeElement: null,
    createElementNS: (ns, t) => (ns === "http://www.w3.org/1998/Math/MathML" ? new FMathMLElement(t) : new FHTMLElement(t)),
    createElement,
    querySelectorAll: (q) => body.querySelectorAll(q), querySelector: (q) => body.querySelector(q), getElementById: (id) => body.querySelector("#" + id),
    getElementsByTagName: (t) => body.getElementsByTagName(t), readyState: "complete",
    createTextNode: (t) => new FText(t), createComment: (t) => new FComment(t),
    createDocumentFragment: () => new FFragment(),
    createRange: () => new FRange(),
    addEventListener() { }, removeEventListener() { },
    documentElement: body, defaultView: globalThis, nodeType: 9, importNode: (n, deep) => n.cloneNode(deep), adoptNode: (n) => { n.remove(); return n; },
    getElementsByClassName: (c) => body.getElementsByClassName(c), hasFocus: () => true,
  };
  Object.assign(globalThis, {
    document: doc, HTMLElement: FHTMLElement, MathMLElement: FMathMLElement, DocumentFragment: FFragment, Element: FElement, Node: FNode, Text: FText, Comment: FComment, Range: FRange, DOMRect: FRect, DOMRectReadOnly: FRect, DOMParser: FParser, NodeFilter: { SHOW_ALL: -1, SHOW_ELEMENT: 1, SHOW_TEXT: 4 },
    getComputedStyle: () => ({ fontSize: "16px", getPropertyValue: (k) => (k === "font-size" ? "16px" : "") }),
    customElements,
    window: globalThis,
  });
  for (const [k, v] of [["scrollX", "x"], ["scrollY", "y"], ["pageXOffset", "x"], ["pageYOffset", "y"]]) Object.defineProperty(globalThis, k, { get: () => scrolled[v], configurable: true });
  return body;
}
