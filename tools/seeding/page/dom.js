// The part of the DOM the page's code uses: elements, text, styles, events, clipboard. Boxes come from the harness.
"use strict";
function make(env) { // env.box(node): bounding rectangle; env.fontSize(node)
  class EventTarget_ {
    constructor() { this.listeners = new Map(); }
    addEventListener(t, f) { if (!this.listeners.has(t)) this.listeners.set(t, []); if (!this.listeners.get(t).includes(f)) this.listeners.get(t).push(f); }
    removeEventListener(t, f) { this.listeners.set(t, (this.listeners.get(t) || []).filter((g) => g !== f)); }
    dispatch(t, ev) { for (const f of (this.listeners.get(t) || []).slice()) typeof f === "function" ? f.call(this, ev) : f.handleEvent(ev); }
  }
  class Node_ extends EventTarget_ {
    constructor() { super(); this.childNodes = []; this.parentNode = null; }
    insertBefore(c, at) {
      if (c instanceof Fragment_) { for (const k of c.childNodes.slice()) this.insertBefore(k, at); return c; }
      c.remove(); c.parentNode = this;
      this.childNodes.splice(at ? this.childNodes.indexOf(at) : this.childNodes.length, 0, c);
      return c;
    }
    appendChild(c) { return this.insertBefore(c, null); }
    append(...cs) { for (const c of cs) this.appendChild(node(c)); }
    prepend(...cs) { const first = this.firstChild; for (const c of cs) this.insertBefore(node(c), first); }
    before(...cs) { for (const c of cs) this.parentNode.insertBefore(node(c), this); }
    after(...cs) { const next = this.nextSibling; for (const c of cs) this.parentNode.insertBefore(node(c), next); }
    replaceWith(...cs) { this.before(...cs); this.remove(); }
    removeChild(c) { c.remove(); return c; }
    replaceChild(c, old) { old.before(c); old.remove(); return old; }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
    hasChildNodes() { return this.childNodes.length > 0; }
    remove() { if (this.parentNode) { const p = this.parentNode.childNodes, i = p.findIndex((x) => x === this); p.splice(i, 1); this.parentNode = null; } }
    replaceChildren(...cs) { for (const c of this.childNodes.slice()) c.remove(); this.append(...cs); }
    get children() { return this.childNodes.filter((c) => c instanceof Element_); }
    get childElementCount() { return this.children.length; }
    get firstChild() { return this.childNodes[0] ?? null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
    get firstElementChild() { return this.children[0] ?? null; }
    get lastElementChild() { return this.children[this.children.length - 1] ?? null; }
    get nextSibling() { const p = this.parentNode?.childNodes; return p?.[p.indexOf(this) + 1] ?? null; }
    get previousSibling() { const p = this.parentNode?.childNodes; return p?.[p.indexOf(this) - 1] ?? null; }
    get parentElement() { return this.parentNode instanceof Element_ ? this.parentNode : null; }
    get nodeName() { return this instanceof Text_ ? "#text" : this.tagName; }
    get nodeType() { return this instanceof Text_ ? 3 : 1; }
    getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
    get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return env.connected ? env.connected(n) : true; }
    get textContent() { return this.childNodes.map((c) => c.textContent).join(""); }
    set textContent(t) { if (t === "" || t === null) this.replaceChildren(); else this.replaceChildren(new Text_(t)); }
    getBoundingClientRect() { return rect(env.box(this)); }
  }
  class Text_ extends Node_ {
    constructor(t) { super(); this.data = String(t); }
    get length() { return this.data.length; }
    get nodeValue() { return this.data; }
    set nodeValue(t) { this.data = String(t); }
    get textContent() { return this.data; }
  }
  class Fragment_ extends Node_ {}
  const node = (c) => (c instanceof Node_ ? c : new Text_(c));
  const camel = (k) => k.replace(/-(.)/g, (_, c) => c.toUpperCase());
  class Style { // what is set, by its name in scripts
    setProperty(k, v) { this[camel(k)] = v; }
    getPropertyValue(k) { return this[camel(k)] ?? ""; }
    removeProperty(k) { delete this[camel(k)]; }
  }
  class Element_ extends Node_ {
    constructor(tag, ns) {
      super();
      this.localName = tag; this.namespaceURI = ns; this.style = new Style(); this.attributes = new Map();
      const names = (this.$names = new Set());
      this.classList = { add: (...c) => c.forEach((x) => names.add(x)), contains: (c) => names.has(c), remove: (...c) => c.forEach((x) => names.delete(x)),
        toggle: (c, on = !names.has(c)) => { on ? names.add(c) : names.delete(c); return on; }, [Symbol.iterator]: () => names[Symbol.iterator](), get length() { return names.size; } };
    }
    get className() { return [...this.$names].join(" "); }
    set className(t) { this.$names.clear(); for (const c of t.split(" ")) if (c) this.$names.add(c); }
    get ownerDocument() { return document; }
    hasAttribute(k) { return this.attributes.has(k); }
    getAttributeNames() { return [...this.attributes.keys()]; }
    toggleAttribute(k, on = !this.attributes.has(k)) { on ? this.attributes.set(k, "") : this.attributes.delete(k); return on; }
    insertAdjacentElement(where, e) { ({ beforebegin: () => this.before(e), afterbegin: () => this.prepend(e), beforeend: () => this.append(e), afterend: () => this.after(e) })[where](); return e; }
    matches(q) { return q.split(",").some((x) => (x.trim().startsWith(".") ? this.$names.has(x.trim().slice(1)) : this.localName === x.trim())); }
    querySelectorAll(q) { return this.children.flatMap((c) => [...(c.matches(q) ? [c] : []), ...c.querySelectorAll(q)]); }
    querySelector(q) { return this.querySelectorAll(q)[0] ?? null; }
    closest(q) { let n = this; while (n && !n.matches?.(q)) n = n.parentNode; return n ?? null; }
    getClientRects() { return [this.getBoundingClientRect()]; }
    blur() { if (document.activeElement === this) document.activeElement = null; }
    hasPointerCapture(id) { return this.captured?.has(id) ?? false; }
    get tagName() { return this.namespaceURI ? this.localName : this.localName.toUpperCase(); }
    setAttribute(k, v) { this.attributes.set(k, String(v)); }
    getAttribute(k) { return this.attributes.has(k) ? this.attributes.get(k) : null; }
    removeAttribute(k) { this.attributes.delete(k); }
    focus() { document.activeElement = this; this.dispatch("focus", { type: "focus" }); }
    setPointerCapture(id) { (this.captured ??= new Set()).add(id); }
    releasePointerCapture(id) { this.captured?.delete(id); }
    set innerHTML(t) {
      if (this.localName === "template") { const c = env.html(t); this.content = { firstElementChild: c }; return; }
      if (t !== "") throw new Error("innerHTML"); this.replaceChildren();
    }
    set innerText(t) { this.textContent = t; }
    attachShadow() { this.shadowRoot = new Element_("shadow"); this.shadowRoot.host = this; return this.shadowRoot; }
  }
  class HTMLElement_ extends Element_ { constructor(tag) { super(tag || "math-editor"); } }
  class MathMLElement_ extends Element_ {}
  function rect(b) { return { x: b.x, y: b.y, width: b.width, height: b.height, left: b.x, top: b.y, right: env.plus(b.x, b.width), bottom: env.plus(b.y, b.height) }; }
  const document = {
    createElementNS: (ns, tag) => (ns.includes("MathML") ? new MathMLElement_(tag, ns) : new Element_(tag, ns)),
    createElement: (tag) => (tag === "math" ? new MathMLElement_(tag) : new HTMLElement_(tag)),
    createTextNode: (t) => new Text_(t),
    createDocumentFragment: () => new Fragment_(),
    createRange() {
      let n = null, from = 0, to = 0;
      const all = (x) => (x instanceof Text_ ? x.data.length : x.childNodes.length);
      return {
        selectNode(x) { n = x; from = 0; to = all(x); }, selectNodeContents(x) { this.selectNode(x); },
        setStart(x, i) { if (n !== x) to = i; n = x; from = i; if (to < from) to = from; }, setEnd(x, i) { if (n !== x) from = i; n = x; to = i; if (to < from) from = to; },
        collapse(start) { if (start) to = from; else from = to; },
        getBoundingClientRect() {
          const b = env.box(n);
          if (from === 0 && to === all(n)) return rect(b);
          if (from === to && (from === 0 || from === all(n))) return rect({ x: from === 0 ? b.x : env.plus(b.x, b.width), y: b.y, width: 0, height: b.height });
          throw new Error("the box of a part of a text");
        },
      };
    },
  };
  return { document, HTMLElement: HTMLElement_, MathMLElement: MathMLElement_, Element: Element_, Node: Node_, Text: Text_, DocumentFragment: Fragment_,
    getComputedStyle: (e) => ({ get fontSize() { return env.px(env.fontSize(e)); }, getPropertyValue: (k) => { if (k !== "font-size") throw new Error(k); return env.px(env.fontSize(e)); } }) };
}
module.exports = { make };
