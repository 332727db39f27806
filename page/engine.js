// Concolic executor for instrumented JavaScript. Every run has concrete inputs (a solver model) and carries, next to each
// concrete value that depends on an input, the term it is the value of. Each branch on such a value is recorded; afterwards
// the solver is asked for inputs that take its other side, for every branch, until none is left: then all inputs within
// the bounds have been covered. Each assertion is the query "path condition and not assertion".
// Numbers are integers (or halves etc.: term / 2^d) in bit-vectors just wide enough for their interval, so nothing overflows;
// in these ranges doubles compute exactly. Square roots are kept as "root of a term" and compared by their squares.
"use strict";
const { spawn } = require("child_process");
class Abort extends Error { constructor(why, msg) { super(why + (msg ? ": " + msg : "")); this.why = why; } }

// ---- terms (hash-consed)
const terms = [], intern = new Map();
function width(lo, hi) { let w = 1; while (lo < -(2 ** (w - 1)) || hi > 2 ** (w - 1) - 1) w++; if (w > 60) throw new Abort("NOANSWER", "number too large"); return w; }
function mk(op, args, lo, hi, extra) {
  const key = op + "(" + args.map((a) => a.id).join(",") + ")" + (extra === undefined ? "" : extra);
  let t = intern.get(key);
  if (t) return t;
  t = { id: terms.length, op, args, lo, hi, w: lo === undefined ? 0 : width(lo, hi), extra };
  terms.push(t); intern.set(key, t);
  return t;
}
const con = (n) => mk("const", [], n, n, n);
const TRUE = mk("true", []), FALSE = mk("false", []);
function add(a, b) { if (a.id > b.id) [a, b] = [b, a]; if (a.op === "const" && b.op === "const") return con(a.extra + b.extra); if (b.op === "const" && b.extra === 0) return a; if (a.op === "const" && a.extra === 0) return b; return mk("+", [a, b], a.lo + b.lo, a.hi + b.hi); }
function sub(a, b) { if (a === b) return con(0); if (a.op === "const" && b.op === "const") return con(a.extra - b.extra); if (b.op === "const" && b.extra === 0) return a; return mk("-", [a, b], a.lo - b.hi, a.hi - b.lo); }
function mul(a, b) {
  if (a.op === "const" && b.op === "const") return con(a.extra * b.extra);
  if (a.op === "const") [a, b] = [b, a];
  if (b.op === "const" && b.extra === 1) return a;
  if (b.op === "const" && b.extra === 0) return b;
  if (a === b && a.op === "-" && a.args[0].id > a.args[1].id) a = b = sub(a.args[1], a.args[0]); // (x-y)^2 = (y-x)^2
  const c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi];
  return mk("*", [a, b], a === b ? 0 : Math.min(...c), Math.max(...c));
}
function lt(a, b) { if (a === b) return FALSE; if (a.hi < b.lo) return TRUE; if (a.lo >= b.hi) return FALSE; return mk("<", [a, b]); }
function le(a, b) { return neg(lt(b, a)); }
function eq(a, b) { if (a === b) return TRUE; if (a.hi < b.lo || b.hi < a.lo) return FALSE; return mk("=", a.id < b.id ? [a, b] : [b, a]); }
function neg(c) { if (c === TRUE) return FALSE; if (c === FALSE) return TRUE; return c.op === "not" ? c.args[0] : mk("not", [c]); }
function and(a, b) { if (a === FALSE || b === FALSE) return FALSE; if (a === TRUE || a === b) return b; if (b === TRUE) return a; return mk("and", [a, b]); }
function or(a, b) { return neg(and(neg(a), neg(b))); }
function ite(c, a, b) { if (c === TRUE || a === b) return a; if (c === FALSE) return b; return mk("ite", [c, a, b], Math.min(a.lo, b.lo), Math.max(a.hi, b.hi)); }
function half(a, d) { // floor(a / 2^d)
  return a.op === "const" ? con(Math.floor(a.extra / 2 ** d)) : mk("shr", [a], Math.floor(a.lo / 2 ** d), Math.floor(a.hi / 2 ** d), d);
}
function bv(n, w) { const v = BigInt(n) & ((1n << BigInt(w)) - 1n); return "(_ bv" + v + " " + w + ")"; }
function ext(t, w) { return t.w === w ? "n" + t.id : t.op === "const" ? bv(t.extra, w) : `((_ sign_extend ${w - t.w}) n${t.id})`; }
function define(t) {
  const n = "n" + t.id, a = t.args;
  const D = (s, body) => `(define-fun ${n} () ${s} ${body})`;
  const B = `(_ BitVec ${t.w})`;
  switch (t.op) {
    case "const": return D(B, bv(t.extra, t.w));
    case "true": return D("Bool", "true");
    case "false": return D("Bool", "false");
    case "var": return `(declare-const ${n} ${B})`;
    case "+": case "-": { const w = Math.max(t.w, a[0].w, a[1].w), m = `(${t.op === "+" ? "bvadd" : "bvsub"} ${ext(a[0], w)} ${ext(a[1], w)})`; return D(B, w === t.w ? m : `((_ extract ${t.w - 1} 0) ${m})`); }
    case "*": { const w = Math.max(t.w, a[0].w, a[1].w); const m = `(bvmul ${ext(a[0], w)} ${ext(a[1], w)})`; return D(B, w === t.w ? m : `((_ extract ${t.w - 1} 0) ${m})`); }
    case "shr": { const m = `(bvashr n${a[0].id} ${bv(t.extra, a[0].w)})`; return D(B, a[0].w === t.w ? m : `((_ extract ${t.w - 1} 0) ${m})`); }
    case "ite": return D(B, `(ite n${a[0].id} ${ext(a[1], t.w)} ${ext(a[2], t.w)})`);
    case "<": { const w = Math.max(a[0].w, a[1].w); return D("Bool", `(bvslt ${ext(a[0], w)} ${ext(a[1], w)})`); }
    case "=": { const w = Math.max(a[0].w, a[1].w); return D("Bool", `(= ${ext(a[0], w)} ${ext(a[1], w)})`); }
    case "not": return D("Bool", `(not n${a[0].id})`);
    case "and": return D("Bool", `(and n${a[0].id} n${a[1].id})`);
  }
  throw new Error(t.op);
}

// ---- values
class Num { // c = concrete, e / 2^d = the term
  constructor(c, e, d) { this.c = c; this.e = e; this.d = d; }
  valueOf() { return S.concretize(this); }
  toString() { return opaque(this); }
  toJSON() { return S.concretize(this); }
  [Symbol.toPrimitive](hint) { return hint === "string" ? opaque(this) : S.concretize(this); }
}
class Root { // the square root of e / 2^d
  constructor(sq, e, d) { this.sq = sq; this.c = Math.sqrt(sq); this.e = e; this.d = d; }
  [Symbol.toPrimitive]() { throw new Abort("NOANSWER", "a square root is used as a number"); }
}
class Diff { // the difference of two numbers one of which is a root: known by its sign
  constructor(a, b) { this.a = a; this.b = b; this.c = val(a) - val(b); }
  sign(op) { return $.b(op, this.a, this.b); }
  [Symbol.toPrimitive]() { throw new Abort("NOANSWER", "a difference of square roots is used as a number"); }
}
class Bool {
  constructor(c, e) { this.c = c; this.e = e; }
  [Symbol.toPrimitive]() { return S.branch(this); }
  toJSON() { return S.branch(this); }
}
let opaques = [];
function opaque(x) { let i = 0; while (i < opaques.length && opaques[i] !== x) i++; if (i === opaques.length) opaques.push(x); return "⟦" + i + "⟧"; }
function parts(s) { return s.split(/⟦(\d+)⟧/).map((p, i) => (i % 2 ? opaques[+p] : p)); }
const num = (c, e, d = 0) => {
  while (d > 0 && e.op === "const" && e.extra % 2 === 0) { e = con(e.extra / 2); d--; }
  return e.op === "const" ? e.extra / 2 ** d : new Num(c, e, d);
};
const bool = (c, e) => (e === TRUE ? true : e === FALSE ? false : new Bool(c, e));
const isSym = (x) => x instanceof Num || x instanceof Bool || x instanceof Root || x instanceof Diff;
function lift(x) { // a concrete number as a term
  if (x instanceof Num) return x;
  if (x instanceof Bool) return new Num(+x.c, ite(x.e, con(1), con(0)), 0);
  if (typeof x === "boolean") x = +x;
  if (x === null) x = 0;
  if (typeof x !== "number") throw new Abort("NOANSWER", "arithmetic of a number with " + typeof x);
  let d = 0, y = x;
  while (!Number.isInteger(y)) { y *= 2; if (++d > 20) throw new Abort("NOANSWER", "fraction " + x); }
  return new Num(x, con(y), d);
}
function align(a, b) { const d = Math.max(a.d, b.d); return [mul(a.e, con(2 ** (d - a.d))), mul(b.e, con(2 ** (d - b.d))), d]; }
const val = (x) => (isSym(x) ? x.c : x);
const finite = (x) => typeof x !== "number" || Number.isFinite(x);
function squared(x) { // for comparing roots: the square, as [term, denominator exponent]
  if (x instanceof Root) return x;
  const l = lift(x);
  return { e: mul(l.e, l.e), d: 2 * l.d };
}
function nonneg(x) { return x instanceof Root ? TRUE : neg(lt(lift(x).e, con(0))); }
function less(a, b) { // terms
  if (a instanceof Root || b instanceof Root) {
    const A = squared(a), B = squared(b), d = Math.max(A.d, B.d), x = mul(A.e, con(2 ** (d - A.d))), y = mul(B.e, con(2 ** (d - B.d)));
    return and(nonneg(b), or(neg(nonneg(a)), lt(x, y)));
  }
  const [x, y] = align(lift(a), lift(b));
  return lt(x, y);
}
function same(a, b) {
  if (a instanceof Root || b instanceof Root) {
    const A = squared(a), B = squared(b), d = Math.max(A.d, B.d);
    return and(eq(mul(A.e, con(2 ** (d - A.d))), mul(B.e, con(2 ** (d - B.d)))), and(nonneg(a), nonneg(b)));
  }
  const [x, y] = align(lift(a), lift(b));
  return eq(x, y);
}
function infcmp(op, a, b) { // one side infinite or not a number
  const x = isSym(a) ? 0 : a, y = isSym(b) ? 0 : b;
  return plainOp(op, x, y);
}
function plainOp(op, a, b) {
  switch (op) {
    case "+": return a + b; case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b; case "**": return a ** b;
    case "<": return a < b; case "<=": return a <= b; case ">": return a > b; case ">=": return a >= b;
    case "==": return a == b; case "===": return a === b; case "!=": return a != b; case "!==": return a !== b;
    case "&": return a & b; case "|": return a | b; case "^": return a ^ b; case "<<": return a << b; case ">>": return a >> b; case ">>>": return a >>> b;
  }
  throw new Error(op);
}
const opaqueString = (x) => typeof x === "string" && x.includes("⟦");

const values = new Map();
const S = {
  // ---- one run
  start(inputs) { this.inputs = inputs; this.vars = []; this.pc = []; this.checks = []; this.steps = 0; this.labels = new Set(); this.log = []; opaques = []; },
  branch(x) {
    if (!isSym(x)) return !!x;
    if (++this.steps > 2e6) throw new Abort("HANG");
    if (x instanceof Num) x = new Bool(x.c !== 0, neg(eq(x.e, con(0))));
    if (x instanceof Root) x = new Bool(x.sq !== 0, neg(eq(x.e, con(0))));
    if (x instanceof Diff) return $.t(x.sign("!=="));
    if (x.e === TRUE) return true;
    if (x.e === FALSE) return false;
    this.pc.push({ e: x.e, taken: x.c });
    return x.c;
  },
  concretize(x) {
    if (x instanceof Bool) return this.branch(x);
    if (!(x instanceof Num)) throw new Abort("NOANSWER", "a root where a number is needed");
    // one branch per value met so far (in any run), in the order in which they were met: the list only grows at its end, so
    // that a run made for a path meets the branches of that path
    const y = x.c * 2 ** x.d, key = x.e.id;
    if (!values.has(key)) values.set(key, []);
    const list = values.get(key);
    for (let i = 0; ; i++) {
      if (i === list.length) list.push(y);
      const e = eq(x.e, con(list[i]));
      if (e === TRUE) return x.c;
      if (e !== FALSE) this.pc.push({ e, taken: list[i] === y });
      if (list[i] === y) return x.c;
    }
  },
  variable(lo, hi) {
    const i = this.vars.length, t = mk("var", [], lo, hi, "v" + i + "[" + lo + "," + hi + "]");
    const c = i < this.inputs.length ? Math.min(hi, Math.max(lo, this.inputs[i])) : lo;
    this.vars.push({ t, c });
    for (const e of [lt(t, con(lo)), lt(con(hi), t)]) if (e !== FALSE) this.pc.push({ e: e, taken: false, fixed: true });
    if (2 ** (t.w - 1) - 1 > hi) this.pc.push({ e: mk("<", [con(hi), t]), taken: false, fixed: true });
    if (-(2 ** (t.w - 1)) < lo) this.pc.push({ e: mk("<", [t, con(lo)]), taken: false, fixed: true });
    return num(c, t);
  },
};

// ---- what instrumented code calls
const seenFns = new Set();
const $ = {
  meta: { env: { DEV: true } },
  fn(n) { seenFns.add(n); if (++S.steps > 2e6) throw new Abort("HANG"); },
  /** a[k] = a[k] op b, with a and k evaluated once */
  upd(o, k, op, b) { return (o[k] = $.b(op, o[k], b())); },
  post(o, k, op) { const old = o[k]; o[k] = $.b(op, old, 1); return old; },
  /** c ? a : b, where neither a nor b does anything: without a branch, if they are numbers */
  sel(c, a, b) {
    if (!(c instanceof Bool)) return $.t(c) ? a() : b();
    let x, y;
    const n = S.pc.length;
    try { x = a(); y = b(); } catch (e) { if (e instanceof Abort) throw e; return $.t(c) ? a() : b(); }
    if (S.pc.length !== n || ![x, y].every((v) => v instanceof Num || (typeof v === "number" && Number.isInteger(v)))) return x === y ? x : $.t(c) ? x : y;
    const [p, q, d] = align(lift(x), lift(y));
    return num(c.c ? val(x) : val(y), ite(c.e, p, q), d);
  },
  stack: [],
  push(x) { $.stack.push(x); return $.t(x); },
  pop: () => $.stack.pop(),
  t: (x) => (isSym(x) ? S.branch(x) : !!x),
  not: (x) => (x instanceof Bool ? bool(!x.c, neg(x.e)) : isSym(x) ? !S.branch(x) : !x),
  and: (a, b) => ($.t(a) ? b() : a instanceof Bool ? false : a),
  or: (a, b) => ($.t(a) ? (a instanceof Bool ? true : a) : b()),
  neg: (x) => (x instanceof Num ? num(-x.c, sub(con(0), x.e), x.d) : -x),
  num: (x) => (isSym(x) ? x : opaqueString(x) ? (() => { const p = parts(x); if (p.length === 3 && p[0] === "" && p[2] === "") return p[1]; throw new Abort("NOANSWER", "number from text"); })() : +x),
  key(x) { return isSym(x) ? S.concretize(x) : x; },
  typeof: (x) => (x instanceof Num || x instanceof Root || x instanceof Diff ? "number" : x instanceof Bool ? "boolean" : typeof x),
  str: (...p) => p.map((x) => (isSym(x) ? opaque(x) : String(x))).join(""),
  b(op, a, b) {
    const sa = isSym(a), sb = isSym(b);
    if (!sa && !sb) {
      if ((opaqueString(a) || opaqueString(b)) && op !== "+") {
        if (a === b) return plainOp(op, a, b);
        throw new Abort("NOANSWER", "comparison of text that holds a symbolic number");
      }
      return plainOp(op, a, b);
    }
    if (op === "+" && (typeof a === "string" || typeof b === "string")) return $.str(a, b);
    if ((op === "&" || op === "|") && (a instanceof Bool || b instanceof Bool)) {
      const x = a instanceof Bool ? a : { c: !!a, e: a ? TRUE : FALSE }, y = b instanceof Bool ? b : { c: !!b, e: b ? TRUE : FALSE };
      return op === "&" ? bool(x.c && y.c, and(x.e, y.e)) : bool(x.c || y.c, or(x.e, y.e));
    }
    if (a instanceof Diff || b instanceof Diff) {
      if (b === 0 && /^([<>]=?|[!=]==?)$/.test(op)) return a.sign(op);
      if (a === 0 && /^([<>]=?|[!=]==?)$/.test(op)) return new Diff(b.b, b.a).sign(op);
      throw new Abort("NOANSWER", op + " with a difference of square roots");
    }
    if (["===", "!==", "==", "!="].includes(op)) {
      const no = op[0] === "!";
      const o = sa ? b : a, s = sa ? a : b;
      let r;
      if (!isSym(o) && typeof o !== (s instanceof Bool ? "boolean" : "number")) {
        if (op.length === 2 && o !== null && o !== undefined) throw new Abort("NOANSWER", "== of a number with " + typeof o);
        return no;
      }
      if (a instanceof Bool || b instanceof Bool) {
        const x = sa && a instanceof Bool ? a.e : a ? TRUE : FALSE, y = sb && b instanceof Bool ? b.e : b ? TRUE : FALSE;
        r = bool(val(a) === val(b), or(and(x, y), and(neg(x), neg(y))));
      } else if (!finite(o)) r = false;
      else r = bool(a instanceof Root || b instanceof Root ? (a instanceof Root ? a.sq : val(a) < 0 ? NaN : val(a) ** 2) === (b instanceof Root ? b.sq : val(b) < 0 ? NaN : val(b) ** 2) : val(a) === val(b), same(a, b));
      return no ? $.not(r) : r;
    }
    if (!finite(a) || !finite(b)) {
      if (["<", "<=", ">", ">="].includes(op)) return infcmp(op, a, b);
      if (["+", "-"].includes(op)) return plainOp(op, val(a), val(b));
      throw new Abort("NOANSWER", op + " with an infinite number");
    }
    // constants such as 0.1 are rounded to multiples of 2^-20
    if (typeof a === "number") a = Math.round(a * 2 ** 20) / 2 ** 20;
    if (typeof b === "number") b = Math.round(b * 2 ** 20) / 2 ** 20;
    const c = plainOp(op, val(a), val(b));
    switch (op) {
      case "<": return cmp(c, a, b); case ">": return cmp(c, b, a);
      case "<=": return $.not(cmp(!c, b, a)); case ">=": return $.not(cmp(!c, a, b));
    }
    if (a instanceof Root || b instanceof Root) {
      if (op === "*" && a === b) return num(a.sq, a.e, a.d);
      if (op === "**" && b === 2) return num(a.sq, a.e, a.d);
      if (op === "-") return new Diff(a, b);
      const scaled = (x, k) => { const l = lift(k * k); return new Root(x.sq * k * k, mul(x.e, l.e), x.d + l.d); };
      if (op === "*" && typeof b === "number" && b >= 0) return scaled(a, b);
      if (op === "*" && typeof a === "number" && a >= 0) return scaled(b, a);
      if (op === "/" && typeof b === "number" && b > 0 && Number.isInteger(Math.log2(b))) return scaled(a, 1 / b);
      if (op === "+" && b === 0) return a;
      if (op === "+" && a === 0) return b;
      throw new Abort("NOANSWER", op + " with a square root");
    }
    const x = lift(a), y = lift(b);
    switch (op) {
      case "+": { const [p, q, d] = align(x, y); return num(c, add(p, q), d); }
      case "-": { const [p, q, d] = align(x, y); return num(c, sub(p, q), d); }
      case "*": return num(c, mul(x.e, y.e), x.d + y.d);
      case "**": if (b === 2) return num(c, mul(x.e, x.e), 2 * x.d); if (b === 1) return a; if (b === 0) return 1; if (b === 0.5) return $Math.sqrt(a); break;
      case "/": if (typeof b === "number" && Number.isInteger(Math.log2(b))) { const k = Math.log2(b); return k >= 0 ? num(c, x.e, x.d + k) : num(c, mul(x.e, con(2 ** -k)), x.d); } break;
    }
    return plainOp(op, S.concretize(a instanceof Num ? a : x), S.concretize(b instanceof Num ? b : y));
  },
};
function cmp(c, a, b) { // a < b
  const e = less(a, b);
  if (a instanceof Root || b instanceof Root) { // roots are compared by their squares, exactly
    const q = (x) => (x instanceof Root ? x.sq : val(x) ** 2);
    c = a instanceof Root || val(a) >= 0 ? (b instanceof Root || val(b) >= 0) && q(a) < q(b) : b instanceof Root || val(a) < val(b);
  }
  return bool(c, e);
}
const $Math = Object.create(null);
for (const k of Object.getOwnPropertyNames(Math)) $Math[k] = typeof Math[k] === "function" ? (...a) => Math[k](...a.map((x) => (isSym(x) ? S.concretize(x) : x))) : Math[k];
const pick2 = (lower) => (a, b) => {
  if (!isSym(a) && !isSym(b)) return lower ? Math.min(a, b) : Math.max(a, b);
  if (!finite(a)) return (a === Infinity) === lower ? b : a;
  if (!finite(b)) return (b === Infinity) === lower ? a : b;
  if (a instanceof Root && b instanceof Root) {
    const [p, q, d] = align(a, b), first = lower ? lt(p, q) : lt(q, p), e = ite(first, p, q), sq = lower ? Math.min(a.sq, b.sq) : Math.max(a.sq, b.sq);
    return new Root(sq, e, d);
  }
  if (a instanceof Root || b instanceof Root) return $.t($.b("<", a, b)) === lower ? a : b;
  const [p, q, d] = align(lift(a), lift(b));
  const less = lt(p, q), c = lower ? Math.min(val(a), val(b)) : Math.max(val(a), val(b));
  return num(c, lower ? ite(less, p, q) : ite(less, q, p), d);
};
$Math.min = (...a) => a.reduce(pick2(true), Infinity);
$Math.max = (...a) => a.reduce(pick2(false), -Infinity);
$Math.abs = (a) => { if (!(a instanceof Num)) return isSym(a) ? a : Math.abs(a); return num(Math.abs(a.c), ite(lt(a.e, con(0)), sub(con(0), a.e), a.e), a.d); };
$Math.floor = (a) => (a instanceof Num ? num(Math.floor(a.c), half(a.e, a.d)) : Math.floor(a));
$Math.ceil = (a) => $.neg($Math.floor($.neg(a)));
$Math.round = (a) => (a instanceof Num ? $Math.floor($.b("+", a, 0.5)) : Math.round(a));
$Math.trunc = (a) => (a instanceof Num ? ($.t($.b("<", a, 0)) ? $Math.ceil(a) : $Math.floor(a)) : Math.trunc(a));
$Math.sign = (a) => (isSym(a) ? ($.t($.b("<", a, 0)) ? -1 : $.t($.b(">", a, 0)) ? 1 : 0) : Math.sign(a));
$Math.sqrt = (a) => {
  if (!(a instanceof Num)) return Math.sqrt(a);
  if ($.t($.b("<", a, 0))) return NaN;
  return new Root(a.c, a.e, a.d);
};
$Math.hypot = (...a) => (a.some(isSym) ? $Math.sqrt(a.map((x) => $.b("*", x, x)).reduce((x, y) => $.b("+", x, y), 0)) : Math.hypot(...a));
$Math.pow = (a, b) => $.b("**", a, b);
/** The number a text begins with. */
const $parseFloat = (x) => {
  if (isSym(x)) return x;
  if (!opaqueString(x)) return parseFloat(x);
  const p = parts(x);
  if (p[0].trim() !== "" || /^[0-9.e]/i.test(typeof p[2] === "string" ? p[2] : "")) throw new Abort("NOANSWER", "number from text");
  return p[1];
};
const $Boolean = new Proxy(Boolean, { apply: (t, self, a) => $.t(a[0]) });
const $globals = { Boolean: $Boolean, parseFloat: $parseFloat, parseInt: (x, b) => $Math.trunc($parseFloat(x)), isFinite: (x) => isSym(x) || isFinite(x) };
const $Array = new Proxy(Array, {
  construct: (t, a, n) => Reflect.construct(t, a.length === 1 && isSym(a[0]) ? [S.concretize(a[0])] : a, n === $Array ? Array : n),
  apply: (t, self, a) => new $Array(...a),
});
const $Number = new Proxy(Number, {
  apply: (t, self, a) => $.num(a[0]),
  get: (t, k) => (k === "isInteger" || k === "isSafeInteger" ? (x) => (x instanceof Num ? x.d === 0 || $.b("===", $Math.floor(x), x) : Number[k](x))
    : k === "parseFloat" || k === "parseInt" ? $globals[k] : k === "isFinite" ? (x) => isSym(x) || Number.isFinite(x) : k === "isNaN" ? (x) => !isSym(x) && Number.isNaN(x) : t[k]),
});
function patch() { // natives that would look at a symbolic value as at an object
  const A = Array.prototype;
  for (const k of ["find", "filter", "some", "every", "findIndex", "findLast", "findLastIndex"]) {
    const o = A[k];
    Object.defineProperty(A, k, { value(p, self) { return typeof p === "function" ? o.call(this, (a, i, arr) => { const r = p.call(self, a, i, arr); return isSym(r) ? S.branch(r) : r; }) : o.call(this, p, self); }, writable: true, configurable: true });
  }
  for (const k of ["indexOf", "lastIndexOf", "includes"]) {
    const o = A[k];
    Object.defineProperty(A, k, { value(x, ...from) {
      if (!isSym(x) && !(typeof x === "number" && this.some && Array.from(this).some(isSym))) return o.call(this, x, ...from);
      const idx = [...this.keys()];
      if (from.length) throw new Abort("NOANSWER", k);
      if (k === "lastIndexOf") idx.reverse();
      for (const i of idx) if ($.t($.b("===", this[i], x))) return k === "includes" ? true : i;
      return k === "includes" ? false : -1;
    }, writable: true, configurable: true });
  }
  for (const k of ["sort", "toSorted"]) {
    const sort = A[k];
    Object.defineProperty(A, k, { value(c) {
      if (!c && this.some((x) => isSym(x) || opaqueString(x))) throw new Abort("NOANSWER", "numbers sorted as text");
      return sort.call(this, c && ((a, b) => { const r = c(a, b); return isSym(r) ? $Math.sign(r) : r; }));
    }, writable: true, configurable: true });
  }
  for (const k of ["get", "has", "set", "delete"]) { const o = Map.prototype[k]; Object.defineProperty(Map.prototype, k, { value(x, ...r) { return o.call(this, isSym(x) ? S.concretize(x) : x, ...r); }, writable: true, configurable: true }); }
  for (const k of ["has", "add", "delete"]) { const o = Set.prototype[k]; Object.defineProperty(Set.prototype, k, { value(x, ...r) { return o.call(this, isSym(x) ? S.concretize(x) : x, ...r); }, writable: true, configurable: true }); }
}

// ---- what harnesses call
const api = {
  int: (lo, hi) => S.variable(lo, hi),
  choose(n) { if (n <= 1) return 0; const x = S.variable(0, n - 1); return isSym(x) ? S.concretize(x) : x; },
  assume(c) {
    if (!isSym(c)) { if (!c) throw new Abort("ASSUME"); return; }
    const x = c instanceof Bool ? c : null;
    S.pc.push({ e: x.e, taken: x.c, assume: true });
    if (!x.c) throw new Abort("ASSUME");
  },
  check(c, label) {
    S.labels.add(label); S.log.push(label);
    if (!isSym(c)) { S.checks.push({ at: S.pc.length, e: c ? TRUE : FALSE, label }); if (!c) throw new Abort("FAIL", label); return; }
    const e = c instanceof Bool ? c.e : neg(eq(c.e, con(0)));
    const holds = c instanceof Bool ? c.c : c.c !== 0;
    S.checks.push({ at: S.pc.length, e, label });
    if (!holds) throw new Abort("FAIL", label);
  },
  reach(label) { S.labels.add(label); S.log.push(label); S.reached.add(label); },
  /** the number a text such as "12px" begins with */
  numberIn(s) { const p = parts(String(s)); return p.length > 1 && p[0] === "" ? p[1] : parseFloat(s); },
  rest(s) { const p = parts(String(s)); return p.length > 1 && p[0] === "" ? p.slice(2).map((x) => (isSym(x) ? "?" : x)).join("") : String(s).replace(/^-?[0-9.]+/, ""); },
};

// ---- solver process
class Solver {
  constructor(bin) {
    this.p = spawn(bin, ["-in"], { stdio: ["pipe", "pipe", "inherit"] });
    this.buf = ""; this.wait = null; this.done = new Set(); this.queries = 0; this.sat = 0; this.unsat = 0; this.time = 0; this.max = 0; this.out = "";
    this.p.stdout.on("data", (d) => { this.buf += d; this.pump(); });
    this.p.on("exit", () => { this.dead = true; if (this.wait) { const w = this.wait; this.wait = null; w.reject(new Abort("NOANSWER", "solver ended")); } });
    this.send("(set-option :global-declarations true)(set-option :timeout 60000)(set-logic QF_BV)");
  }
  send(s) { this.out += s + "\n"; }
  flush() { if (this.out) { this.p.stdin.write(this.out); this.out = ""; } }
  pump() {
    if (!this.wait) return;
    const i = this.buf.indexOf("<<end>>");
    if (i < 0) return;
    const r = this.buf.slice(0, i).trim(); this.buf = this.buf.slice(i + 7);
    const w = this.wait; this.wait = null; w.resolve(r);
  }
  ask(s) { this.send(s + '(echo "<<end>>")'); this.flush(); return new Promise((resolve, reject) => { this.wait = { resolve, reject }; this.pump(); }); }
  need(t) {
    if (this.done.has(t.id)) return;
    const stack = [t];
    while (stack.length) {
      const x = stack[stack.length - 1];
      if (this.done.has(x.id)) { stack.pop(); continue; }
      const open = x.args.filter((a) => !this.done.has(a.id));
      if (open.length) { stack.push(...open); continue; }
      this.send(define(x)); this.done.add(x.id); stack.pop();
    }
  }
  assert(e, positive = true) { this.need(e); this.send(positive ? `(assert n${e.id})` : `(assert (not n${e.id}))`); }
  async sat_(vars) { // null if unsatisfiable, otherwise values of vars
    const t0 = process.hrtime.bigint();
    for (const v of vars) this.need(v.t);
    const r = await this.ask(`(check-sat-using ${process.env.TACTIC || "(then simplify bit-blast sat)"})`);
    this.queries++;
    let model = null;
    if (r === "sat") {
      this.sat++;
      model = [];
      if (vars.length) {
        const g = await this.ask("(get-value (" + vars.map((v) => "n" + v.t.id).join(" ") + "))");
        const re = /n\d+\s+#([xb])([0-9a-f]+)/g;
        let m, i = 0;
        while ((m = re.exec(g))) { let n = BigInt((m[1] === "x" ? "0x" : "0b") + m[2]); n = BigInt.asIntN(vars[i].t.w, n); model.push(Number(n)); i++; }
        if (model.length !== vars.length) throw new Abort("NOANSWER", "model not understood: " + g);
      }
    } else if (r === "unsat") this.unsat++;
    const dt = Number(process.hrtime.bigint() - t0) / 1e9;
    this.time += dt; this.max = Math.max(this.max, dt);
    if (r !== "sat" && r !== "unsat") throw new Abort("NOANSWER", "solver says " + r);
    return model;
  }
}
function evalTerm(t, env, memo) { // for checking models against what was asked
  let r = memo.get(t.id);
  if (r !== undefined) return r;
  const a = t.args.map((x) => evalTerm(x, env, memo));
  switch (t.op) {
    case "const": r = t.extra; break; case "true": r = true; break; case "false": r = false; break;
    case "var": r = env.get(t.id); break;
    case "+": r = a[0] + a[1]; break; case "-": r = a[0] - a[1]; break; case "*": r = a[0] * a[1]; break;
    case "shr": r = Math.floor(a[0] / 2 ** t.extra); break; case "ite": r = a[0] ? a[1] : a[2]; break;
    case "<": r = a[0] < a[1]; break; case "=": r = a[0] === a[1]; break; case "not": r = !a[0]; break; case "and": r = a[0] && a[1]; break;
  }
  memo.set(t.id, r);
  return r;
}

/** Explores a harness completely (or until time is up); returns counts, findings and what could not be decided. */
async function explore(run, opts) {
  const solver = new Solver(opts.z3 || "z3");
  const work = [{ inputs: opts.inputs || [], bound: 0 }];
  const res = { paths: 0, assumed_away: 0, branches: 0, checks: 0, checks_solver: 0, findings: [], problems: [], labels: {}, reached: {}, samples: [], max_vars: 0 };
  const t0 = Date.now();
  S.reached = new Set();
  const failing = new Map();
  const note = (label, inputs) => { if (!failing.has(label)) { failing.set(label, inputs); res.findings.push({ label, inputs: inputs.map((v, i) => ["v" + i, String(v)]) }); } };
  try {
    while (work.length) {
      if (Date.now() - t0 > opts.time * 1000) { res.problems.push("not finished within the time limit"); break; }
      if (res.findings.length >= (opts.stop || 3)) break;
      const { inputs, bound, prefix } = work.pop();
      S.start(inputs);
      S.reached = new Set();
      let end = "OK";
      try { await run(); } catch (e) {
        if (e instanceof Abort) end = e.message; else end = "THROWN " + (e && e.message) + (opts.verbose ? "\n" + e.stack : "");
      }
      const vals = S.vars.map((v) => v.c), pc = S.pc, vars = S.vars.slice();
      res.max_vars = Math.max(res.max_vars, vars.length);
      if (opts.verbose) console.error(end, JSON.stringify(vals), pc.length, "bound", bound);
      // the run has to follow the path it was made for
      const env = new Map(vars.map((v) => [v.t.id, v.c])), memo = new Map();
      for (let i = 0; i < pc.length; i++) if (evalTerm(pc[i].e, env, memo) !== pc[i].taken) { res.problems.push("the terms disagree with the run on " + JSON.stringify(vals)); end = "NOANSWER"; break; }
      for (let i = 0; i < bound; i++) if (i >= pc.length || pc[i].e !== prefix[i].e || pc[i].taken !== prefix[i].taken) { if (end !== "NOANSWER") res.problems.push("a run left the path it was made for on " + JSON.stringify(vals)); end = "NOANSWER"; break; }
      if (end === "ASSUME") res.assumed_away++;
      else if (end.startsWith("FAIL") || end.startsWith("THROWN") || end === "HANG") note(end, vals);
      else if (end !== "OK") res.problems.push(end + " on " + JSON.stringify(vals));
      if (end !== "ASSUME") { res.paths++; for (const l of S.labels) res.labels[l] = (res.labels[l] || 0) + 1; for (const l of S.reached) res.reached[l] = (res.reached[l] || 0) + 1; }
      if (end === "OK" && (res.samples.length < opts.samples || res.paths % 97 === 0) && res.samples.length < 4 * opts.samples) res.samples.push({ inputs: vals.map((v, i) => ["v" + i, String(v)]), digest: digest(S.log), events: S.log.length });
      res.branches += pc.filter((p) => !p.fixed).length;
      // other sides of the branches, and the assertions
      const next = [];
      solver.send("(push)");
      const checks = S.checks.slice();
      let k = 0;
      for (let i = 0; i <= pc.length; i++) {
        // assertions between the same two branches: all at once, and one by one only if one of them fails
        const group = [];
        while (k < checks.length && checks[k].at === i) {
          const c = checks[k++];
          if (i < bound && !(opts.allchecks)) continue; // decided on the run this one branched off from
          res.checks++;
          if (c.e === TRUE || c.e === FALSE) continue;
          res.checks_solver++;
          group.push(c);
        }
        const refute = async (e) => { solver.send("(push)"); solver.assert(e, false); const m = await solver.sat_(vars); solver.send("(pop)"); return m; };
        if (group.length > 0) {
          const m = await refute(group.reduce((a, c) => and(a, c.e), TRUE));
          if (m) for (const c of group) { const n = group.length === 1 ? m : await refute(c.e); if (n) note("FAIL: " + c.label, n); }
        }
        if (i === pc.length) break;
        const p = pc[i];
        if (i >= bound && !p.fixed && !(p.assume && p.taken)) {
          solver.send("(push)"); solver.assert(p.e, !p.taken);
          const m = await solver.sat_(vars);
          solver.send("(pop)");
          if (m) next.push({ inputs: m, bound: i + 1, prefix: pc.slice(0, i).concat([{ e: p.e, taken: !p.taken }]) });
        }
        solver.assert(p.e, p.taken);
      }
      solver.send("(pop)");
      for (const n of next) work.push(n);
    }
  } catch (e) { if (e instanceof Abort) res.problems.push(e.message); else throw e; }
  solver.flush(); solver.p.stdin.end(); solver.p.kill();
  return Object.assign(res, { queries: solver.queries, sat: solver.sat, unsat: solver.unsat, solver_s: solver.time, solver_max_s: solver.max, wall_s: (Date.now() - t0) / 1000, functions: [...seenFns], left: work.length });
}
function digest(log) { let h = 2166136261; for (const c of log.join("\n")) h = Math.imul(h ^ c.codePointAt(0), 16777619); return (h >>> 0).toString(16); }
module.exports = { digest, $, $Math, $Array, $Number, $globals, api, explore, patch, Abort, S, isSym, terms, evalTerm };
