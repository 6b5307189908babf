"use strict";
/* Symbolic values, Z3, and the exploration of one script's paths by re-execution.
   A run follows recorded decisions, then decides each new branch on a symbolic condition with Z3 (both outcomes feasible: one is queued). */
const fs = require("fs"), os = require("os"), path = require("path"), cp = require("child_process");

// ---------------------------------------------------------------- Z3, spoken to synchronously over two FIFOs
class Z3 {
  constructor(bin) {
    this.dir = fs.mkdtempSync(path.join(os.tmpdir(), "qlc-js-"));
    const a = this.dir + "/a", b = this.dir + "/b"; cp.execFileSync("mkfifo", [a, b]);
    this.p = cp.spawn("sh", ["-c", `exec ${bin} -in < ${a} > ${b}`], { stdio: "ignore" }); this.p.unref();
    this.w = fs.openSync(a, "w"); this.r = fs.openSync(b, "r"); fs.rmSync(this.dir, { recursive: true, force: true });
    this.buf = ""; this.queries = this.sat = this.unsat = this.unknown = this.cached = 0; this.ms = 0; this.max = 0; this.cache = new Map();
    this.version = cp.execFileSync(bin, ["--version"]).toString().trim();
    this.say("(set-option :timeout 20000)");
  }
  say(s) { fs.writeSync(this.w, s + "\n"); }
  line() { for (;;) { const i = this.buf.indexOf("\n"); if (i >= 0) { const l = this.buf.slice(0, i); this.buf = this.buf.slice(i + 1); return l; } const c = Buffer.alloc(65536), n = fs.readSync(this.r, c, 0, 65536); if (!n) throw new Error("z3 ended"); this.buf += c.toString("utf8", 0, n); } }
  sexp() { let t = this.line(); for (;;) { let d = 0, q = false; for (const c of t) { if (c === '"') q = !q; else if (!q && c === "(") d++; else if (!q && c === ")") d--; } if (d <= 0 && !q) return t; t += "\n" + this.line(); } }
  /** Decides the conjunction; only what shares variables (directly or through others) with the last conjunct matters when the rest is known to be satisfiable. */
  check(decls, asserts, want) {
    if (!want) asserts = slice(asserts);
    const used = new Set(); for (const a of asserts) for (const v of varsOf(a)) used.add(v); if (!want) decls = decls.filter((d) => used.has(d[0]));
    const key = asserts.join("\n");
    if (!want && this.cache.has(key)) { this.cached++; return this.cache.get(key); }
    const t = process.hrtime.bigint();
    this.say("(push)\n" + decls.map(([n, s]) => `(declare-const ${n} ${s})`).join("\n") + "\n" + asserts.map((a) => `(assert ${a})`).join("\n") + "\n(check-sat)");
    let r = this.line(); if (r.startsWith("(error")) throw new Error("z3: " + r);
    this.queries++; this[r] = (this[r] || 0) + 1; let model;
    if (want && r === "sat" && decls.length) { this.say(`(get-value (${decls.map((d) => d[0]).join(" ")}))`); model = parseModel(this.sexp()); }
    this.say("(pop)");
    const ms = Number(process.hrtime.bigint() - t) / 1e6; this.ms += ms; if (ms > this.max) this.max = ms;
    if (!want) this.cache.set(key, r);
    return want ? { r, model: model || {} } : r;
  }
  end() { try { fs.closeSync(this.w); fs.closeSync(this.r); this.p.kill(); } catch (e) {} }
}
const VARS = new Map();
function varsOf(a) { let v = VARS.get(a); if (!v) { v = [...new Set(a.replace(/"(?:[^"]|"")*"/g, " ").match(/[A-Za-z_][A-Za-z0-9_]*(?![\w.])/g) || [])].filter((x) => !WORDS.has(x)); VARS.set(a, v); } return v; }
const WORDS = new Set("and or not true false ite mod div str len at in_re prefixof suffixof contains indexof substr replace to_int from_int to_re re range union loop opt comp".split(" "));
function slice(asserts) {
  const last = asserts[asserts.length - 1]; if (last === undefined) return asserts;
  const want = new Set(varsOf(last)), pick = new Set([asserts.length - 1]); let grown = true;
  while (grown) { grown = false; asserts.forEach((a, i) => { if (!pick.has(i) && varsOf(a).some((v) => want.has(v))) { pick.add(i); varsOf(a).forEach((v) => want.add(v)); grown = true; } }); }
  return [...new Set([...pick].sort((a, b) => a - b).map((i) => asserts[i]))];
}
function parseModel(s) {
  const m = {}, re = /\(([A-Za-z_][\w.!]*)\s+("(?:[^"]|"")*"|\(- \d+\)|[-\w]+)\)/g; let x;
  while ((x = re.exec(s))) { let v = x[2]; m[x[1]] = v[0] === '"' ? v.slice(1, -1).replace(/""/g, '"').replace(/\\u\{([0-9a-f]+)\}/g, (_, h) => String.fromCodePoint(parseInt(h, 16))) : v[0] === "(" ? -parseInt(v.slice(3)) : v === "true" ? true : v === "false" ? false : +v; }
  return m;
}

// ---------------------------------------------------------------- values
const lit = (s) => '"' + s.replace(/[^\x20-\x7e]|\\/g, (c) => "\\u{" + c.codePointAt(0).toString(16) + "}").replace(/"/g, '""') + '"';
let RUN = null;                                                   // the run in progress
class Sym {
  constructor(e, sort, parts) { this.e = e; this.sort = sort; this.parts = parts; }
  toString() { return "\u2039" + this.e + "\u203a"; }
  get length() { return this.sort === "String" ? new Sym(`(str.len ${this.e})`, "Int") : undefined; }
}
const S = (e) => new Sym(e, "String"), B = (e) => new Sym(e, "Bool"), I = (e) => new Sym(e, "Int");
const isSym = (v) => v instanceof Sym;
const strOf = (v) => isSym(v) ? (v.sort === "String" ? v : v.sort === "Int" ? S(`(ite (< ${v.e} 0) (str.++ "-" (str.from_int (- ${v.e}))) (str.from_int ${v.e}))`) : S(`(ite ${v.e} "true" "false")`)) : String(v);
const partsOf = (v) => isSym(v) ? v.parts || [v] : v === "" ? [] : [v];
function cat(...vs) {                                            // a normal form: the same pieces give the same expression
  const out = [];
  for (const v of vs.map(strOf)) for (const p of partsOf(v)) if (typeof p === "string" && typeof out[out.length - 1] === "string") out[out.length - 1] += p; else out.push(p);
  if (!out.length) return ""; if (out.length === 1) return out[0];
  return new Sym(`(str.++ ${out.map((p) => typeof p === "string" ? lit(p) : p.e).join(" ")})`, "String", out);
}
const term = (v, sort) => isSym(v) ? v.e : sort === "String" ? lit(String(v)) : sort === "Int" ? (v < 0 ? `(- ${-v})` : String(v)) : String(!!v);
function eq(a, b) {
  if (!isSym(a) && !isSym(b)) return a === b;
  if (!isSym(a)) [a, b] = [b, a];
  if (isSym(b)) return a.sort !== b.sort ? false : a.e === b.e ? true : B(`(= ${a.e} ${b.e})`);
  const t = a.sort === "String" ? "string" : a.sort === "Int" ? "number" : "boolean";
  if (typeof b !== t || t === "number" && !Number.isInteger(b)) return false;
  return B(`(= ${a.e} ${term(b, a.sort)})`);
}
const neg = (v) => isSym(v) ? B(v.e.startsWith("(not ") ? v.e.slice(5, -1) : `(not ${v.e})`) : !v;
const truth = (v) => isSym(v) ? (v.sort === "Bool" ? v : v.sort === "String" ? B(`(not (= ${v.e} ""))`) : B(`(not (= ${v.e} 0))`)) : !!v;
const METHODS = {
  toString: (s) => strOf(s), valueOf: (s) => s,
  trim: (s) => uf("trim", s), trimEnd: (s) => uf("trim", s), trimStart: (s) => uf("trim", s), toLowerCase: (s) => uf("lower", s), toUpperCase: (s) => uf("upper", s), toLocaleLowerCase: (s) => uf("lower", s), normalize: (s) => s,
  startsWith: (s, x, i) => B(`(str.prefixof ${term(x, "String")} ${i === undefined ? s.e : METHODS.slice(s, i).e})`), endsWith: (s, x) => B(`(str.suffixof ${term(x, "String")} ${s.e})`), includes: (s, x) => B(`(str.contains ${s.e} ${term(x, "String")})`),
  indexOf: (s, x, i = 0) => I(`(str.indexof ${s.e} ${term(x, "String")} ${term(i, "Int")})`), charAt: (s, i) => S(`(str.at ${s.e} ${term(i, "Int")})`), at: (s, i) => S(`(str.at ${s.e} ${term(i, "Int")})`),
  slice: (s, a = 0, b) => sub(s, a, b), substring: (s, a = 0, b) => sub(s, a, b), substr: (s, a = 0, l) => S(`(str.substr ${s.e} ${term(a, "Int")} ${l === undefined ? `(str.len ${s.e})` : term(l, "Int")})`),
  concat: (s, ...x) => cat(s, ...x), localeCompare: (s, x) => I(`(ite ${eq(s, x) === true ? "true" : term(eq(s, x), "Bool")} 0 1)`),
  replace: (s, a, b) => { if (a instanceof RegExp) return uf("re" + idOf(a), s); return S(`(str.replace ${s.e} ${term(a, "String")} ${term(b, "String")})`); },
  match: (s, re) => RUN.decide(B(uf("m" + idOf(re), s, "Bool").e)) ? [s] : null,
};
const idOf = (re) => Buffer.from(String(re)).toString("hex");
/** A function of a value that is left uninterpreted: a fresh constant per argument. */
function uf(name, v, sort = "String") { if (sort === "String" && RUN.plain.has(v.e)) return name === "upper" ? RUN.fresh("upper_" + hash(v.e), sort) : name === "trim" || name === "lower" ? v : RUN.fresh(name + "_" + hash(v.e), sort); return RUN.fresh(name + "_" + hash(v.e), sort); }
const hash = (t) => require("crypto").createHash("md5").update(t).digest("hex").slice(0, 12);
function sub(s, a, b) {
  const l = `(str.len ${s.e})`, ix = (v) => typeof v === "number" && v < 0 ? `(ite (< ${l} ${-v}) 0 (- ${l} ${-v}))` : term(v, "Int");
  return b === undefined ? S(`(str.substr ${s.e} ${ix(a)} ${l})`) : S(`(str.substr ${s.e} ${ix(a)} (- ${ix(b)} ${ix(a)}))`);
}

class Ended extends Error {}                                     // thrown where the script cannot go on
/** What the models lack: the path is given up, whatever the script does about the exception. */
class Unsupported extends Error { constructor(m) { super(m); if (RUN && !RUN.unsupported) RUN.unsupported = m; } }
const sameKey = (m, k) => { for (const c of m.keys()) if ((isSym(c) || isSym(k)) ? RUN.decide(truth(eq(c, k))) : Object.is(c, k)) return [c]; return null; };
const ops = {
  t: (v) => RUN.decide(truth(v)),
  not: (v) => neg(truth(v)),
  l: (v) => { ops.slot = v; return RUN.decide(truth(v)); },
  n: (v) => { ops.slot = v; return v === undefined || v === null; },
  r: () => ops.slot,
  num: (v) => isSym(v) ? (v.sort === "Int" ? v : v.sort === "Bool" ? I(`(ite ${v.e} 1 0)`) : I(`(str.to_int ${v.e})`)) : +v,
  typeof: (v) => isSym(v) ? { String: "string", Int: "number", Bool: "boolean" }[v.sort] : typeof v,
  bin(o, a, b) {
    if (!isSym(a) && !isSym(b)) switch (o) {
      case "+": if (typeof a === "object" || typeof b === "object") { if (a && a.$str || b && b.$str) return cat(a && a.$str ? a.$str() : a, b && b.$str ? b.$str() : b); } return a + b;
      case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b; case "&": return a & b; case "|": return a | b; case "^": return a ^ b; case "<<": return a << b; case ">>": return a >> b;
      case "==": return a == b; case "!=": return a != b; case "===": return a === b; case "!==": return a !== b; case "<": return a < b; case "<=": return a <= b; case ">": return a > b; case ">=": return a >= b;
    }
    switch (o) {
      case "===": return eq(a, b); case "!==": return neg(eq(a, b));
      case "==": case "!=": { let r; if (a == null || b == null) r = false; else r = eq(isSym(a) && a.sort === "String" && typeof b === "number" ? ops.num(a) : a, isSym(b) && b.sort === "String" && typeof a === "number" ? ops.num(b) : b); return o === "==" ? r : neg(r); }
      case "+": if ((isSym(a) ? a.sort : typeof a) === "Int" && (isSym(b) ? b.sort === "Int" : typeof b === "number") || isSym(b) && b.sort === "Int" && typeof a === "number") return I(`(+ ${term(a, "Int")} ${term(b, "Int")})`); return cat(a, b);
      case "-": case "*": return I(`(${o} ${term(a, "Int")} ${term(b, "Int")})`);
      case "%": return I(`(mod ${term(a, "Int")} ${term(b, "Int")})`);
      case "/": return I(`(div ${term(a, "Int")} ${term(b, "Int")})`);
      case "<": case "<=": case ">": case ">=":
        if (a === undefined || b === undefined) return false;
        if ((isSym(a) ? a.sort : "String") === "String" && (isSym(b) ? b.sort : "String") === "String" && typeof a !== "number" && typeof b !== "number") { const [x, y] = o[0] === "<" ? [a, b] : [b, a]; return B(`(${o.length > 1 ? "str.<=" : "str.<"} ${term(x, "String")} ${term(y, "String")})`); }
        return B(`(${o} ${term(a, "Int")} ${term(b, "Int")})`);
    }
    throw new Unsupported("operator " + o + " on a symbolic value");
  },
  asg(o, p, op, v) { return (o[p] = ops.bin(op, o[p], v)); },
  tpl(strs, vals) { const out = [strs[0]]; vals.forEach((v, i) => out.push(v && v.$str ? v.$str() : isSym(v) ? v : String(v), strs[i + 1])); return cat(...out); },
  key(k) { if (isSym(k)) throw new Unsupported("a symbolic property name"); return k; },
  idx(o, k) {
    if (isSym(o)) { if (k === "length") return o.length; return METHODS.charAt(o, k); }
    if (!isSym(k)) return o[k];
    const names = new Set(); for (let x = o; x && x !== Object.prototype; x = Object.getPrototypeOf(x)) Object.getOwnPropertyNames(x).forEach((n) => names.add(n));
    if (o instanceof Object) ["constructor", "toString", "__proto__", "hasOwnProperty", "valueOf"].forEach((n) => names.add(n));
    for (const n of names) if (RUN.decide(truth(eq(strOf(k), n)))) return o[n];
    return undefined;
  },
  has(k, o) { if (!isSym(k)) return k in o; for (const n of Object.keys(o)) if (RUN.decide(truth(eq(k, n)))) return true; return false; },
  callopt(o, m, a) { return isSym(o) || o[m] !== undefined && o[m] !== null ? ops.call(o, m, a()) : undefined; },
  call(o, m, a) {
    if (isSym(m)) { const f = ops.idx(o, m); return f.apply(o, a); }
    if (isSym(o)) { if (METHODS[m]) return METHODS[m](o, ...a); throw new Unsupported("method " + m + " of a symbolic value"); }
    if (typeof o === "string" && a.some(isSym)) { if (METHODS[m]) return METHODS[m](new Sym(lit(o), "String", [o]), ...a); throw new Unsupported("method " + m + " with a symbolic argument"); }
    if (o instanceof RegExp && a.some(isSym)) return uf("m" + idOf(o), a[0], "Bool");
    if (Array.isArray(o)) {
      const T = (v) => RUN.decide(truth(v)), f = a[0];
      switch (m) {
        case "includes": for (const x of o) if (T(eq(x, f))) return true; return false;
        case "indexOf": for (let i = 0; i < o.length; i++) if (T(eq(o[i], f))) return i; return -1;
        case "find": for (let i = 0; i < o.length; i++) if (T(f(o[i], i, o))) return o[i]; return undefined;
        case "findIndex": for (let i = 0; i < o.length; i++) if (T(f(o[i], i, o))) return i; return -1;
        case "some": for (let i = 0; i < o.length; i++) if (T(f(o[i], i, o))) return true; return false;
        case "every": for (let i = 0; i < o.length; i++) if (!T(f(o[i], i, o))) return false; return true;
        case "filter": { const r = []; for (let i = 0; i < o.length; i++) if (T(f(o[i], i, o))) r.push(o[i]); return r; }
        case "join": if (o.some(isSym)) { const r = []; o.forEach((x, i) => { if (i) r.push(f === undefined ? "," : f); r.push(x); }); return cat(...r); }
      }
    }
    if (o instanceof Map) { const k = () => sameKey(o, a[0]); switch (m) { case "get": { const c = k(); return c ? o.get(c[0]) : undefined; } case "has": return !!k(); case "set": { const c = k(); o.set(c ? c[0] : a[0], a[1]); return o; } } }
    if (o instanceof Set) { const k = () => sameKey(o, a[0]); switch (m) { case "has": return !!k(); case "add": { if (!k()) o.add(a[0]); return o; } } }
    if (o === Object) { if (m === "is") return eq(a[0], a[1]); if (m === "hasOwn") return ops.has(a[1], a[0]); }
    if (m === "hasOwnProperty") return ops.has(a[0], o);
    if (o == null) throw new TypeError(`Cannot read properties of ${o} (reading '${String(m)}')`);
    if (typeof o[m] !== "function") throw new TypeError(`${String(m)} is not a function`);
    return o[m](...a);
  },
};

// ---------------------------------------------------------------- one run
class Run {
  constructor(ex, prefix) { this.ex = ex; this.prefix = prefix; this.at = 0; this.decs = []; this.pc = []; this.decls = new Map(); this.ended = null; this.pending = []; this.nfresh = {}; this.log = []; this.violation = null; this.facts = {}; this.forks = 0; this.asserts = 0; this.plain = new Set(); this.delays = 0; this.stalled = false; }
  fresh(name, sort) { const n = name.replace(/[^A-Za-z0-9_]/g, "_"); if (!this.decls.has(n)) this.decls.set(n, sort); return new Sym(n, sort); }
  declared() { return [...this.decls]; }
  assume(c) { if (isSym(c)) this.pc.push(c.e); else if (!c) throw new Error("false assumption"); }
  /** Which way a condition goes; both ways are explored when both are possible. */
  decide(c) {
    if (!isSym(c)) return !!c;
    if (this.ended) return false;
    const pos = c.e, ng = neg(c).e;
    if (this.at < this.prefix.length) { const d = this.prefix[this.at++]; this.decs.push(d); this.pc.push(d ? pos : ng); return !!d; }
    const z = this.ex.z3, p = z.check(this.declared(), [...this.pc, pos]), n = p === "unsat" ? "sat" : z.check(this.declared(), [...this.pc, ng]);
    if (p === "unknown" || n === "unknown") this.ex.unknown = true;
    const d = p !== "unsat" ? 1 : 0;
    if (p !== "unsat" && n !== "unsat") { this.ex.queue.push([...this.decs, 0]); this.forks++; }
    this.at++; this.decs.push(d); if (p !== "unsat" && n !== "unsat") this.pc.push(d ? pos : ng); return !!d;
  }
  /** An unconstrained choice of the environment. */
  choose(label, n) {
    if (n <= 1 || this.ended) return 0;
    let d = 0;
    if (this.at < this.prefix.length) d = this.prefix[this.at++];
    else { this.at++; for (let i = n - 1; i > 0; i--) { this.ex.queue.push([...this.decs, i]); } this.forks += n - 1; }
    this.decs.push(d); this.log.push(`${label}=${d}`); (this.choices = this.choices || []).push([label, d]); return d;
  }
  /** An obligation: valid under the path condition, or a counterexample. */
  check(c, msg) {
    if (this.violation) return; this.asserts++;
    if (!isSym(c)) { if (!c) this.fail(msg, (this.ex.models[msg] = (this.ex.models[msg] || 0) + 1) > 40 ? {} : this.ex.z3.check(this.declared(), this.pc, true)); return; }
    const q = [...this.pc, neg(c).e], r = this.ex.z3.check(this.declared(), q);
    if (r === "sat") this.fail(msg, (this.ex.models[msg] = (this.ex.models[msg] || 0) + 1) > 40 ? {} : this.ex.z3.check(this.declared(), q, true)); else if (r !== "unsat") this.ex.unknown = true;
  }
  fail(msg, r) { this.violation = { message: msg, model: r.model, choices: this.choices || [], log: this.log.slice(), order: (this.delivered || []).slice(), whole: !!this.over }; }
  // events of the environment, delivered in any order between sources and in order within one
  post(source, label, f) { if (!this.ended) this.pending.push({ source, label, f }); }
  exit(code, why) { if (this.ended) return; this.ended = { code, why }; }
}
class Explorer {
  constructor(z3) { this.z3 = z3; this.queue = [[]]; this.paths = 0; this.forks = 0; this.asserts = 0; this.violations = []; this.errors = []; this.samples = []; this.covers = {}; this.models = {}; this.unknown = false; this.events = 0; }
  async explore(start, oracle, opts) {
    const t0 = Date.now(); this.exhausted = true; let rejected = [];
    const onRej = (e) => rejected.push(e); process.on("unhandledRejection", onRej);
    const drain = () => new Promise((r) => setImmediate(r));
    while (this.queue.length) {
      if (Date.now() - t0 > opts.budget * 1000 || this.paths >= opts.limit) { this.exhausted = false; break; }
      const run = (RUN = new Run(this, this.queue.pop())); rejected = [];
      run.delivered = [];
      const crash = (e) => { if (e instanceof Ended) return; if (e instanceof Unsupported) { run.exit(-1, "unsupported"); return; } run.log.push("uncaught " + (e && e.message)); run.exit(1, "uncaught " + (e && e.stack || e)); };
      try { start(run); } catch (e) { crash(e); }
      for (let steps = 0; ; steps++) {
        await drain(); for (const e of rejected.splice(0)) crash(e);
        if (run.ended || run.unsupported || !run.pending.length) break;
        if (steps > 400) { run.unsupported = "more than 400 events"; break; }
        const firsts = run.pending.filter((p, i) => run.pending.findIndex((q) => q.source === p.source) === i);
        const d = run.delays < opts.delays ? run.choose("next", firsts.length) : 0; if (d) run.delays++; const p = firsts[d]; run.pending.splice(run.pending.indexOf(p), 1);
        run.delivered.push(p.label); run.log.push(p.label); this.events++;
        try { p.f(); } catch (e) { crash(e); }
      }
      if (!run.ended) { const live = run.stalled; run.exit(live ? -2 : run.exitCode || 0, live ? "waits for ever" : "nothing left to do"); }
      const ended = run.ended; run.ended = null; run.over = true;                // the oracle may still ask
      if (run.unsupported) { if (this.errors.length < 20 && !this.errors.includes(run.unsupported)) this.errors.push(run.unsupported); }
      else if (!run.violation) try { oracle(run, ended); } catch (e) { if (this.errors.length < 20) this.errors.push("oracle: " + e.stack); }
      run.ended = ended;
      this.paths++; this.forks += run.forks; this.asserts += run.asserts;
      const k = `exit ${ended.code}`; this.covers[k] = (this.covers[k] || 0) + 1; for (const f of Object.keys(run.facts.covers || {})) this.covers[f] = (this.covers[f] || 0) + 1;
      if (run.violation) this.violations.push({ ...run.violation, ended, facts: run.native });
      else if (!run.unsupported && (this.paths % 37 === 1 || this.paths < 4) && this.samples.length < 60) { const m = this.z3.check(run.declared(), run.pc, true); if (m.r === "sat") this.samples.push({ model: m.model, choices: run.choices || [], log: run.log, order: run.delivered, whole: true, ended, facts: run.native }); }
    }
    process.removeListener("unhandledRejection", onRej); this.wall = (Date.now() - t0) / 1000;
  }
}
module.exports = { Z3, Sym, S, B, I, isSym, cat, eq, neg, truth, strOf, term, lit, ops, Run, Explorer, Ended, Unsupported, cur: () => RUN };
