"use strict";
/* What the scripts use of Node, over symbolic values: each operation may fail, the server answers anything, and events arrive in any order. */
const realPath = require("path"), { EventEmitter } = require("events");
const { S, B, I, isSym, cat, eq, neg, truth, term, ops, Unsupported, Ended, cur, Sym, strOf } = require("./sym.js");
const err = (code, msg) => Object.assign(new Error(`${code}: ${msg || code}`), { code });
const T = (v) => cur().decide(truth(v));

function world(run, conf) {
  const W = { files: new Map(), dirs: new Set(["/work", "/pkg", "/pkg/lib"]), children: [], requests: [], faults: new Set(), faultsOf: [], reads: [], created: new Set(), tried: new Set(), stdout: [], bad: new Set() };
  const dead = () => !!run.ended;
  // ---- paths
  const abs = (p) => { if (p && p.$href) p = p.$href; const s = strOf(p); const first = isSym(s) ? (s.parts ? s.parts[0] : s) : s; if (typeof first === "string" && first.startsWith("/")) return isSym(s) ? s : realPath.normalize(s); if (!isSym(s)) return realPath.resolve("/work", s); const parts = s.parts && typeof s.parts[0] === "string" && s.parts[0].startsWith("./") ? cat(s.parts[0].slice(2), ...s.parts.slice(1)) : s; return cat("/work/", parts); };
  const key = (p) => { const a = abs(p); return isSym(a) ? a.e : a; };
  const join = (...a) => { if (!a.some(isSym)) return realPath.join(...a); const out = []; for (const x of a) { if (x === "") continue; if (out.length) out.push("/"); out.push(x); } let c = []; let acc = ""; for (const x of out) { if (isSym(x)) { if (acc) { c.push(norm(acc)); acc = ""; } c.push(x); } else acc += x; } if (acc) c.push(acc.replace(/\/+/g, "/")); return cat(...c); };
  const norm = (t) => { const e = t.endsWith("/"); let n = realPath.normalize(t); if (n === "./" || n === ".") return ""; if (e && !n.endsWith("/")) n += "/"; return n; };
  const path = { ...realPath, join, resolve: (...a) => { let r = ""; for (const x of a.reverse()) { r = r === "" ? x : join(x, r); const f = isSym(r) && r.parts ? r.parts[0] : r; if (typeof f === "string" && f.startsWith("/")) return r; } return r === "" ? "/work" : abs(r); }, dirname: (p) => { if (!isSym(p)) return realPath.dirname(p); const ps = p.parts || [p]; const f = ps[0]; if (typeof f === "string" && f.includes("/")) return f.slice(0, f.lastIndexOf("/")) || "/"; return "."; }, basename: (p, x) => isSym(p) ? (() => { const ps = p.parts || [p]; const f = ps[0]; return typeof f === "string" && f.includes("/") ? cat(f.slice(f.lastIndexOf("/") + 1), ...ps.slice(1)) : p; })() : realPath.basename(p, x), isAbsolute: (p) => typeof (isSym(p) ? (p.parts || [p])[0] : p) === "string" && String((isSym(p) ? p.parts[0] : p)).startsWith("/"), extname: (p) => isSym(p) ? realPath.extname(String((p.parts || [""]).slice(-1)[0])) : realPath.extname(p) };
  path.posix = path; path.default = path;
  // ---- contents: lists of pieces
  class Buf { constructor(pieces, text) { this.pieces = pieces; this.text = text; } toString(e) { if (this.text !== undefined) return this.text; throw new Unsupported("text of a buffer"); } $str() { return this.text !== undefined ? this.text : contentText(this.pieces); } equals(o) { return bufEq(this, o); } get length() { return this.text !== undefined ? (isSym(this.text) ? this.text.length : this.text.length) : run.fresh("len_" + this.pieces.join("_"), "Int"); } get byteLength() { return this.length; } compare(o) { const e = bufEq(this, o); return isSym(e) ? I(`(ite ${e.e} 0 1)`) : e ? 0 : 1; } subarray() { throw new Unsupported("part of a buffer"); } }
  const contentText = (pieces) => run.fresh("text_" + pieces.join("_"), "String");
  const bufEq = (a, b) => { a = toBuf(a); b = toBuf(b); if (a.text !== undefined && b.text !== undefined) return eq(a.text, b.text); if (a.pieces && b.pieces && a.text === undefined && b.text === undefined) return a.pieces.join() === b.pieces.join(); throw new Unsupported("comparing a content with a text"); };
  const toBuf = (v) => v instanceof Buf ? v : new Buf(null, v);
  const piecesOf = (v) => v instanceof Buf && v.pieces ? v.pieces : v && v.$content ? v.$content : ["t:" + (isSym(v) ? v.e : v instanceof Buf ? String(v.text) : String(v))];
  const Buffer_ = { from: (v, enc) => v instanceof Buf ? v : isSym(v) || typeof v === "string" ? new Buf(null, v) : global.Buffer.from(v, enc), concat: (l) => { if (l.some((x) => !(x instanceof Buf))) throw new Unsupported("Buffer.concat"); return new Buf([].concat(...l.map((x) => x.pieces || ["t:" + (isSym(x.text) ? x.text.e : x.text)]))); }, isBuffer: (v) => v instanceof Buf || global.Buffer.isBuffer(v), compare: (a, b) => a.compare(b), byteLength: (v) => isSym(v) ? v.length : global.Buffer.byteLength(v), alloc: (n) => global.Buffer.alloc(n), allocUnsafe: (n) => global.Buffer.alloc(n) };
  // ---- emitters
  class Em { constructor() { Object.defineProperty(this, "_l", { value: new Map() }); }
    on(e, f) { if (!this._l.has(e)) this._l.set(e, []); this._l.get(e).push(f); this._added && this._added(e); return this; }
    addListener(e, f) { return this.on(e, f); } prependListener(e, f) { return this.on(e, f); }
    once(e, f) { const g = (...a) => { this.off(e, g); return f.apply(this, a); }; g.listener = f; return this.on(e, g); }
    off(e, f) { const l = this._l.get(e) || []; const i = l.findIndex((g) => g === f || g.listener === f); if (i >= 0) l.splice(i, 1); return this; } removeListener(e, f) { return this.off(e, f); }
    removeAllListeners(e) { if (e) this._l.delete(e); else this._l.clear(); return this; } setMaxListeners() { return this; } listenerCount(e) { return (this._l.get(e) || []).length; } listeners(e) { return [...(this._l.get(e) || [])]; }
    emit(e, ...a) { if (dead()) return false; const l = [...(this._l.get(e) || [])]; if (!l.length && e === "error") throw a[0]; for (const f of l) f.apply(this, a); return l.length > 0; } }
  // ---- the file system
  const fault = (op, k) => { const n = `fault:${op}`; const bad = conf.faults.includes(op) && W.faults.size < conf.maxFaults ? run.choose(n + ":" + (typeof k === "string" ? k.slice(-40) : k), 2) === 1 : false; if (bad) { W.faults.add(op); W.faultsOf.push([op, k]); } return bad; };
  const isDir = (k) => W.dirs.has(k) || (k === "/pkg/bin" && binThere());
  let binState; const binThere = () => { if (binState === undefined) { binState = run.choose("bin directory exists", 2) === 0; if (binState && conf.placeholder && !W.files.has(conf.placeholder)) W.files.set(conf.placeholder, { content: ["placeholder"], mode: 0o644 }); } return binState; };
  const exists = (k) => { if (k === conf.placeholder) binThere(); return W.files.has(k) || isDir(k); };
  const setDir = (k) => { if (k === "/pkg/bin") binState = true; W.dirs.add(k); };
  const core = {
    access(p) { const k = key(p); if (fault("access", k)) throw err("EACCES", k); if (!exists(k)) throw err("ENOENT", k); },
    stat(p) { const k = key(p); if (fault("access", k)) throw err("EACCES", k); if (!exists(k)) throw err("ENOENT", k); const f = W.files.get(k); return { isFile: () => !!f, isDirectory: () => !f, size: f ? run.fresh("len_" + f.content.join("_"), "Int") : 0, mode: f ? f.mode : 0o755 }; },
    mkdir(p, o) { const k = key(p); if (fault("mkdir", k)) throw err("EACCES", k); if (exists(k) && !(o && o.recursive)) throw err("EEXIST", k); setDir(k); },
    unlink(p) { const k = key(p); W.tried.add(k); if (fault("unlink", k)) throw err("EACCES", k); if (!W.files.has(k)) throw err("ENOENT", k); W.files.delete(k); },
    rm(p, o) { const k = key(p); W.tried.add(k); if (fault("unlink", k)) throw err("EACCES", k); if (!exists(k)) { if (o && o.force) return; throw err("ENOENT", k); } W.files.delete(k); for (const f of [...W.files.keys()]) if (f.startsWith(k + "/") || f.startsWith('(str.++ "' + k + "/")) W.files.delete(f); },
    chmod(p, m) { const k = key(p); if (fault("chmod", k)) throw err("EPERM", k); if (!exists(k)) throw err("ENOENT", k); const f = W.files.get(k); if (f) f.mode = typeof m === "string" ? parseInt(m, 8) : m; },
    readFile(p, o) { const k = key(p); if (fault("read", k)) throw err("EACCES", k); const f = W.files.get(k); if (!f) throw err("ENOENT", k); W.reads.push(k); const enc = typeof o === "string" ? o : o && o.encoding; return enc ? contentText(f.content) : new Buf(f.content.slice()); },
    writeFile(p, d, o) { const k = key(p), fl = o && o.flag || "w"; if (fault("write", k)) throw err("ENOSPC", k); if (fl[0] === "a") return core.appendFile(p, d); if (fl.includes("x") && exists(k)) throw err("EEXIST", k); if (fl !== "w" && fl !== "wx") throw new Unsupported("flag " + fl); W.files.set(k, { content: piecesOf(d), mode: 0o644 }); W.created.add(k); },
    appendFile(p, d) { const k = key(p); if (fault("write", k)) throw err("ENOSPC", k); const f = W.files.get(k); W.files.set(k, { content: (f ? f.content : []).concat(piecesOf(d)), mode: 0o644 }); W.created.add(k); },
    rename(a, b) { const x = key(a), y = key(b); if (fault("rename", x)) throw err("EACCES", x); if (!W.files.has(x)) throw err("ENOENT", x); W.files.set(y, W.files.get(x)); W.files.delete(x); W.created.add(y); },
    copyFile(a, b) { const x = key(a), y = key(b); if (fault("write", y)) throw err("EACCES", x); if (!W.files.has(x)) throw err("ENOENT", x); const f = W.files.get(x); W.files.set(y, { content: f.content.slice(), mode: f.mode }); W.created.add(y); },
    mkdtemp(p) { const d = cat(p, "XXXXXX"); if (fault("mkdir", key(d))) throw err("EACCES"); W.dirs.add(key(d)); return d; },
    readdir(p) { const k = key(p); if (!isDir(k)) throw err("ENOENT", k); return []; },
    realpath(p) { return abs(p); },
  };
  let nop = 0;
  const promised = {}, fsm = { constants: { F_OK: 0, R_OK: 4, W_OK: 2, X_OK: 1 }, existsSync: (p) => exists(key(p)) };
  for (const n of Object.keys(core)) {
    promised[n] = (...a) => new Promise((ok, no) => { const id = ++nop; run.post("fs" + id, `fs:${n}`, () => { let v; try { v = core[n](...a); } catch (e) { if (e instanceof Unsupported) throw e; return no(e); } ok(v); }); });
    fsm[n + "Sync"] = (...a) => { if (dead()) throw new Ended(); return core[n](...a); };
    fsm[n] = (...a) => { const cb = a.pop(); if (typeof cb !== "function") throw new TypeError("callback must be a function"); const id = ++nop; run.post("fs" + id, `fs:${n}`, () => { let v; try { v = core[n](...a); } catch (e) { if (e instanceof Unsupported) throw e; return cb(e); } cb(null, v); }); };
  }
  fsm.rmSync = (...a) => core.rm(...a); fsm.promises = promised; promised.constants = fsm.constants; fsm.exists = (p, cb) => run.post("fs" + ++nop, "fs:exists", () => cb(exists(key(p))));
  // ---- writing streams
  class WS extends Em {
    constructor(p, o) { super(); const fl = o && o.flags || "w"; if (!["w", "w+", "a", "a+", "wx", "ax", "r+"].includes(fl) || o && o.start) throw new Unsupported("flags of a write stream"); this.path = p; this.$k = key(p); this.writable = true; this.$buf = []; this.$open = false; this.$src = "ws" + ++nop; this.bytesWritten = 0;
      run.post(this.$src, "ws:open", () => { if (this.destroyed && this.$never) return; if (fault("open", this.$k)) return this.$fail(err("EACCES", String(this.$k))); const old = W.files.get(this.$k); if (fl.includes("x") && exists(this.$k)) return this.$fail(err("EEXIST", String(this.$k))); if (fl === "r+" && !old) return this.$fail(err("ENOENT", String(this.$k))); W.files.set(this.$k, { content: old && fl[0] === "a" ? old.content.slice() : old && fl === "r+" ? ["over:" + old.content.join()] : [], mode: old ? old.mode : 0o644 }); W.created.add(this.$k); this.$open = true; if (this.destroyed) return; this.$flush(); this.emit("open", 3); this.emit("ready"); }); }
    $flush() { const f = W.files.get(this.$k); if (f) f.content.push(...this.$buf.splice(0)); else this.$buf = []; }
    $fail(e) { if (this.destroyed) return; this.destroyed = true; this.errored = e; this.writable = false; const cb = this.$cb; this.emit("error", e); run.post(this.$src, "ws:close", () => this.emit("close")); }
    write(d, enc, cb) { if (typeof enc === "function") cb = enc; if (dead() || this.destroyed) return false; this.$buf.push(...piecesOf(d)); if (this.$open) { if (fault("write", this.$k)) { run.post(this.$src, "ws:error", () => this.$fail(err("ENOSPC"))); return false; } this.$flush(); } if (cb) run.post(this.$src, "ws:written", () => cb()); return true; }
    end(d, enc, cb) { for (const x of [d, enc, cb]) if (typeof x === "function") this.once("finish", x); if (d !== undefined && d !== null && typeof d !== "function") this.write(d); if (this.$ended) return this; this.$ended = true; this.writable = false; run.post(this.$src, "ws:finish", () => { if (this.destroyed) return; if (this.$buf.length && fault("write", this.$k)) return this.$fail(err("ENOSPC")); this.$flush(); this.writableFinished = true; this.emit("finish"); run.post(this.$src, "ws:close", () => { this.closed = true; this.emit("close"); }); }); return this; }
    close(cb) { if (cb) this.once("close", cb); if (this.$ended) return; this.end(); }
    destroy(e) { if (this.destroyed) return this; if (e) { run.post(this.$src, "ws:error", () => this.$fail(e)); } else { this.destroyed = true; run.post(this.$src, "ws:close", () => this.emit("close")); } return this; }
    cork() {} uncork() {} }
  fsm.createWriteStream = (p, o) => new WS(p, o);
  // ---- reading streams: a source of pieces that starts flowing when somebody listens
  class Src extends Em {
    constructor(name) { super(); this.$src = name + ++nop; this.readable = true; }
    _added(e) { if (e === "data" || e === "readable") this.$start(); }
    resume() { this.$start(); return this; } pause() { return this; } setEncoding(e) { this.$enc = e; return this; } unpipe() { return this; }
    $start() { if (this.$started) return; this.$started = true; this.$flow(); }
    $chunk(p) { return this.$enc ? contentText([p]) : new Buf([p]); }
    pipe(d) { this.$start(); this.$dest = d; this.on("data", (c) => d.write(c)); this.on("end", () => d.end()); return d; }
    [Symbol.asyncIterator]() { const q = [], w = []; const put = (x) => { const k = w.shift(); if (k) x.e ? k[1](x.e) : k[0](x.v); else q.push(x); };
      let over = false; this.on("data", (c) => put({ v: { value: c, done: false } })); this.on("end", () => { over = true; put({ v: { value: undefined, done: true } }); }); this.on("error", (e) => { over = true; put({ e }); });
      return { next: () => new Promise((ok, no) => { const x = q.shift(); if (x) x.e ? no(x.e) : ok(x.v); else if (over) ok({ value: undefined, done: true }); else w.push([ok, no]); }), return: async () => ({ done: true }), [Symbol.asyncIterator]() { return this; } }; } }
  class RS extends Src {
    constructor(p) { super("rs"); this.path = p; this.$k = key(p); this.$wait = true; run.post(this.$src, "rs:open", () => { if (fault("read", this.$k) || !W.files.has(this.$k)) { this.$bad = true; this.emit("error", err("ENOENT", String(this.$k))); return; } this.emit("open"); this.$ready = true; if (this.$started) this.$flow(); }); }
    $flow() { if (!this.$ready) return; const f = W.files.get(this.$k), pieces = f ? f.content.slice() : []; W.reads.push(this.$k); for (const p of pieces) run.post(this.$src, "rs:data", () => { if (!this.destroyed) this.emit("data", this.$chunk(p)); }); run.post(this.$src, "rs:end", () => { if (this.destroyed) return; this.emit("end"); run.post(this.$src, "rs:close", () => this.emit("close")); }); }
    destroy(e) { this.destroyed = true; if (e) run.post(this.$src, "rs:error", () => this.emit("error", e)); return this; } close() {} }
  fsm.createReadStream = (p) => new RS(p);
  // ---- pipelines
  const pipeline = (...a) => { let cb = typeof a[a.length - 1] === "function" && !(a[a.length - 1] instanceof Em) ? a.pop() : undefined; const st = a.filter((x) => x instanceof Em); if (st.length !== a.length || st.length < 2) throw new Unsupported("pipeline of these streams"); let over = false; const done = (e) => { if (over) return; over = true; const l = st[st.length - 1]; if (e) { for (const s of st) if (s !== l && s.destroy && !s.destroyed) s.destroy(); if (l instanceof WS && !l.destroyed) { l.destroyed = true; l.errored = e; l.writable = false; run.post(l.$src, "ws:close", () => l.emit("close")); } } run.post(l instanceof WS ? l.$src : "pl" + ++nop, "pipeline:done", () => cb && cb(e)); };
    st.forEach((s, i) => { s.on("error", (e) => done(e)); if (i) { const src = st[i - 1]; src.on("data", (c) => s.write(c)); src.on("end", () => s.end()); } });
    const last = st[st.length - 1]; last.on(last instanceof WS || last.$sink ? "finish" : "end", () => done()); if (st[0].$aborted) done(err("ECONNRESET", "aborted")); st[0].on("aborted", () => done(err("ECONNRESET", "aborted"))); return last; };
  const finished = (s, o, cb) => { if (typeof o === "function") cb = o; let over = false; const d = (e) => { if (!over) { over = true; run.post("pl" + ++nop, "finished", () => cb(e)); } }; s.on("error", d); s.on("finish", () => d()); s.on("end", () => d()); s.on("aborted", () => d(err("ECONNRESET", "aborted"))); return () => {}; };
  const prom = (f) => (...a) => new Promise((ok, no) => f(...a.filter((x) => !(x && x.$signal)), (e, v) => e ? no(e) : ok(v)));
  const stream = { pipeline, finished, promises: { pipeline: prom(pipeline), finished: prom((s, cb) => finished(s, cb)) } };
  // ---- hashes
  const digestVar = (alg, enc, pieces) => { const n = `digest_${String(alg).toLowerCase().replace("-", "")}_${enc}_${pieces.join("_")}`; const known = run.decls.has(n.replace(/[^A-Za-z0-9_]/g, "_")); const v = run.fresh(n, "String"); if (!known && enc === "hex") { run.plain.add(v.e); run.assume(B(`(= (str.len ${v.e}) ${HEX[alg] || 64})`)); } return v; };
  const HEX = { sha256: 64, sha512: 128, sha1: 40, md5: 32, sha384: 96, sha224: 56 };
  class Hash extends Em { constructor(alg) { super(); this.alg = alg; this.pieces = []; this.$sink = true; }
    update(d) { this.pieces.push(...piecesOf(d)); return this; } copy() { const h = new Hash(this.alg); h.pieces = this.pieces.slice(); return h; }
    digest(enc) { if (this.$done) throw new Error("Digest already called"); this.$done = true; const v = digestVar(this.alg, enc || "hex", this.pieces); W.digests = (W.digests || []).concat([[this.alg, enc, this.pieces.slice()]]); return enc ? v : new Buf(null, v); }
    write(d) { this.update(d); return true; } end() { run.post("hash" + ++nop, "hash:finish", () => { this.emit("finish"); this.emit("end"); this.emit("close"); }); return this; } setEncoding(e) { this.$enc = e; return this; } read() { return this.digest(this.$enc); } }
  const crypto = { createHash: (alg) => new Hash(alg), hash: (alg, d, enc = "hex") => digestVar(alg, enc, piecesOf(d)), timingSafeEqual: (a, b) => { a = toBuf(a); b = toBuf(b); const la = a.length, lb = b.length; if (T(neg(eq(la, lb)))) throw new RangeError("Input buffers must have the same byte length"); return bufEq(a, b); }, randomBytes: () => ({ toString: () => "r" }), randomUUID: () => "uuid" };
  // ---- child processes
  const run_child = (cmd, args) => { const c = { cmd, args: args.map((x) => x), reads: [] }; for (const x of [cmd, ...args]) { const k = key(x); if (W.files.has(k)) c.reads.push(k); else if (isSym(x) || /^(--file=|-f)./.test(String(x))) { /* an option that carries the name */ if (!isSym(x)) { const k2 = key(String(x).replace(/^(--file=|-f)/, "")); if (W.files.has(k2)) c.reads.push(k2); } else for (const f of W.files.keys()) if (x.e.includes(f.replace(/^\(str\.\+\+ "\/work\//, '(str.++ "'))) c.reads.push(f); } } W.children.push(c); conf.onChild(run, W, c); return c; };
  class Child extends Em { constructor(cmd, args, o) { super(); this.pid = 4242; this.stdout = new Src("co"); this.stderr = new Src("ce"); this.stdin = new WSnull(); const out = run.choose("child process: 0 runs, 1 cannot be started, 2 is killed", 3); const src = "cp" + ++nop;
      if (out === 1) { W.faults.add("tar"); this.failed = true; run.post(src, "child:error", () => this.emit("error", err("ENOENT", "spawn"))); return; }
      this.c = run_child(cmd, args); const code = out === 2 ? null : run.fresh(`code_${W.children.length}`, "Int"); if (out !== 2) run.assume(B(`(and (>= ${code.e} ${this.c.none ? 1 : 0}) (<= ${code.e} 255))`));
      this.c.code = code; if (out === 2) W.faults.add("tar"); const sig = out === 2 ? "SIGKILL" : null;
      run.post(src, "child:exit", () => { this.exitCode = code; this.signalCode = sig; this.c.ended = true; conf.onChildEnd(run, W, this.c); this.emit("exit", code, sig); }); run.post(src, "child:close", () => this.emit("close", code, sig)); }
    kill() { return true; } unref() {} ref() {} }
  class WSnull extends Em { write() { return true; } end() {} }
  const spawnSync = (cmd, args = [], o) => { if (!Array.isArray(args)) { args = []; } const out = run.choose("child process: 0 runs, 1 cannot be started, 2 is killed", 3); if (out === 1) { W.faults.add("tar"); return { status: null, error: err("ENOENT"), signal: null, stdout: "", stderr: "" }; } const c = run_child(cmd, args); c.ended = true; const code = out === 2 ? null : run.fresh(`code_${W.children.length}`, "Int"); if (c.none && code) run.assume(B(`(>= ${code.e} 1)`)); if (out === 2) W.faults.add("tar"); c.code = code; conf.onChildEnd(run, W, c); return { status: code, signal: out === 2 ? "SIGKILL" : null, stdout: "", stderr: "" }; };
  const execFile = (cmd, args, o, cb) => { if (typeof args === "function") { cb = args; args = []; } if (typeof o === "function") { cb = o; } const ch = new Child(cmd, args || []); ch.on("error", (e) => cb && cb(e, "", "")); ch.on("close", (code, sig) => { if (!cb) return; if (code === null || !T(eq(code, 0))) cb(Object.assign(new Error("Command failed"), { code, signal: sig }), "", ""); else cb(null, "", ""); }); return ch; };
  const sh = (cmd) => strOf(cmd); const shargs = (cmd) => { const s = sh(cmd); if (!isSym(s)) return s.split(/\s+/); /* words of a command with symbolic pieces */ const words = [[]]; for (const p of s.parts || [s]) if (typeof p === "string") p.split(/(\s+)/).forEach((w) => { if (/^\s+$/.test(w)) words.push([]); else if (w) words[words.length - 1].push(w.replace(/["']/g, "")); }); else words[words.length - 1].push(p); return words.map((w) => cat(...w)); };
  const execFileSync = (cmd, args, o) => { const r = spawnSync(cmd, args || [], o); if (r.error) throw r.error; if (r.status === null || !T(eq(r.status, 0))) throw Object.assign(new Error("Command failed"), { status: r.status }); return ""; };
  const child_process = { spawn: (c, a = [], o) => Array.isArray(a) ? (a.length || !isSym(c) && !/\s/.test(c) ? new Child(c, a, o) : new Child(...((w) => [w[0], w.slice(1)])(shargs(c)))) : new Child(...((w) => [w[0], w.slice(1)])(shargs(c))), spawnSync, execFile, execFileSync, exec: (c, o, cb) => { const w = shargs(c); return execFile(w[0], w.slice(1), typeof o === "function" ? o : cb); }, execSync: (c) => { const w = shargs(c); return execFileSync(w[0], w.slice(1)); } };
  // ---- the network
  class Res extends Src {
    constructor(req, k) { super("net"); this.$src = req.$src; this.$req = req; this.k = k; this.complete = false; this.statusCode = run.fresh("status_" + k, "Int"); run.assume(B(`(and (>= ${this.statusCode.e} 200) (<= ${this.statusCode.e} 599))`)); if (k >= conf.maxRequests) run.assume(B(`(or (< ${this.statusCode.e} 300) (> ${this.statusCode.e} 399))`)); this.statusMessage = "message"; let loc; const headers = { "content-type": run.fresh("type_" + k, "String") }; Object.defineProperty(headers, "location", { enumerable: true, get: () => loc === undefined ? (loc = run.choose("location header present", 2) === 0 ? run.fresh("location_" + k, "String") : (W.badUrl = true, null)) || undefined : loc || undefined }); let len; Object.defineProperty(headers, "content-length", { enumerable: true, get: () => len === undefined ? (len = run.fresh("length_" + k, "String")) : len }); this.headers = headers; this.httpVersion = "1.1"; req.res = this; }
    $flow() { const k = this.k; const skipped = () => { /* read and thrown away */ const out = run.choose(`body of response ${k}: 0 whole, 1 cut off${conf.stall ? ", 2 stalls" : ""}`, conf.stall ? 3 : 2); if (out === 0) { this.complete = true; this.emit("end"); this.emit("close"); } else if (out === 1) { W.bad.add(k); this.$abort(); } else { W.bad.add(k); this.$req.$stall(); } };
      run.post(this.$src, `net:data1`, () => { if (!this.destroyed && !this.listenerCount("data") && !this.listenerCount("readable")) return skipped(); if (this.destroyed) return; this.emit("data", this.$chunk(`r${k}a`));
        const out = this.$req.$out = run.choose(`body of response ${k}: 0 whole, 1 cut off${conf.stall ? ", 2 stalls" : ""}`, conf.stall ? 3 : 2);
        if (out === 0) { run.post(this.$src, "net:data2", () => { if (!this.destroyed) this.emit("data", this.$chunk(`r${k}b`)); }); run.post(this.$src, "net:end", () => { if (this.destroyed) return; this.complete = true; this.emit("end"); run.post(this.$src, "net:close", () => this.emit("close")); }); }
        else if (out === 1) { W.bad.add(this.k); run.post(this.$src, "net:cut", () => this.$abort()); }
        else { W.bad.add(this.k); this.$req.$stall(); } }); }
    $abort() { if (this.destroyed && this.$aborted) return; this.$aborted = true; this.destroyed = true; this.aborted = true; this.emit("aborted"); run.post(this.$src, "net:close", () => { if (this.listenerCount("error")) this.emit("error", err("ECONNRESET", "aborted")); this.emit("close"); }); }
    destroy(e) { if (!this.destroyed) this.$req.destroy(e); return this; } }
  class Req extends Em {
    constructor(target, opts, cb, secure) { super(); this.k = W.requests.length + 1; this.$src = "net" + this.k; this.opts = opts; this.$timeout = opts.timeout; this.body = []; this.$secure = secure; W.requests.push(this); this.url = target; this.method = (opts.method || "GET"); this.headers = opts.headers || {}; if (cb) this.once("response", cb);
      if (opts.signal && opts.signal.$timeout) { this.$signal = true; } if (opts.signal) opts.signal.$reqs.push(this); }
    $go() { if (this.$gone) return; this.$gone = true; const k = this.k;
      run.post(this.$src, "net:connect", () => { if (this.destroyed) return; const out = run.choose(`request ${k}: 0 response, 1 error${conf.stall ? ", 2 stalls" : ""}`, conf.stall ? 3 : 2); if (out === 1) { W.bad.add(this.k); this.destroyed = true; this.emit("error", err("ECONNREFUSED")); run.post(this.$src, "net:close", () => this.emit("close")); } else if (out === 2) { W.bad.add(this.k); this.$stall(); } else { const res = (this.res = new Res(this, k)); this.emit("response", res); if (!res.$started && !this.destroyed && conf.stall) { /* nobody reads the answer: its connection stays open and falls silent */ run.post("idle" + this.k, "net:idle", () => { if (!res.$started && !this.destroyed && this.$timeout && !this.$signal) this.emit("timeout"); }); } } }); }
    $stall() { run.stalled = true; if (this.$signal) run.post(this.$src, "net:signal", () => this.destroy(err("ABORT_ERR", "The operation was aborted"))); else if (this.$timeout) run.post(this.$src, "net:timeout", () => this.emit("timeout")); }
    setTimeout(ms, cb) { this.$timeout = ms; if (cb) this.once("timeout", cb); return this; }
    destroy(e) { if (this.destroyed) return this; this.destroyed = true; run.stalled = false; run.post(this.$src, "net:destroyed", () => { if (this.res && (this.res.complete)) return; if (this.res) { if (e) this.emit("error", e); this.res.$abort(); } else this.emit("error", e || err("ECONNRESET", "socket hang up")); this.emit("close"); }); return this; }
    abort() { return this.destroy(); }
    write(d) { this.body.push(d); return true; }
    end(d) { if (d !== undefined && typeof d !== "function") this.body.push(d); this.$go(); return this; }
    setHeader(n, v) { this.headers = { ...this.headers, [n]: v }; } setNoDelay() {} setSocketKeepAlive() {} flushHeaders() {} }
  const hrefOf = (u) => u && u.$href !== undefined ? u.$href : u && u.href !== undefined ? u.href : u;
  const net = (secure, autoEnd) => (a, b, c) => { if (dead()) return new Req("", {}, null); let opts = {}, cb, target; if (typeof a === "string" || isSym(a)) target = a; else { target = hrefOf(a); if (!(a instanceof URL_)) opts = { ...a }; } if (typeof b === "function") cb = b; else if (b) { opts = { ...opts, ...b }; cb = c; }
      const url = target && typeof target === "object" && !isSym(target) ? cat(opts.protocol || (secure ? "https:" : "http:"), "//", opts.hostname || opts.host || "", opts.path || "/") : target;
      const scheme = secure ? "https:" : "http:"; const proto = opts.protocol !== undefined && opts.protocol !== null ? opts.protocol : schemeOf(url);
      if (!T(eq(proto, scheme))) { W.badUrl = true; throw Object.assign(new TypeError(`Protocol "${proto}" not supported. Expected "${scheme}"`), { code: "ERR_INVALID_PROTOCOL" }); }
      const r = new Req(url, opts, cb, secure); if (autoEnd) r.$go(); return r; };
  const METH = { startsWith: (u, p) => T(ops.call(u, "startsWith", [p])) };
  const mod = (secure) => ({ get: net(secure, true), request: net(secure, false), Agent: class {}, globalAgent: {} });
  // ---- URLs
  const schemes = new Map();
  /** The scheme of an address; for an unknown text the environment says which, and null stands for no address at all. */
  const schemeOf = (u) => { const f = isSym(u) ? (u.parts || [u])[0] : u; if (typeof f === "string") { const m = /^([a-z]+:)\/\/./.exec(f); return m ? m[1] : null; }
    if (!schemes.has(u.e)) { const n = run.choose("address: 0 https, 1 http, 2 another scheme, 3 no address" + (conf.capitals ? ", 4 https, 5 http in capitals" : ""), conf.capitals ? 6 : 4), p = ["https://h", "http://h", "ftp://h", null, "HTTPS://h", "HTTP://h"][n]; if (p) run.assume(eq(u, cat(p, run.fresh("rest_" + schemes.size, "String")))); else run.assume(neg(B(`(str.contains ${u.e} ":")`))); schemes.set(u.e, p ? p.slice(0, p.indexOf("/")).toLowerCase() : null); }
    return schemes.get(u.e); };
  class URL_ { constructor(u, base) { if (u instanceof URL_) u = u.$href; if (u === undefined || u === null) throw new TypeError("Invalid URL"); if (base !== undefined && isSym(u)) { if (schemeOf(u) !== null) base = undefined; else { this.$href = run.fresh("resolved_" + W.requests.length, "String"); run.assume(B(`(str.prefixof "https://" ${this.$href.e})`)); return; } }
      if (isSym(u) && u.parts && typeof u.parts[0] === "string" && /^https?:\/\/./.test(u.parts[0])) { this.$href = u; return; }
      if (isSym(u)) { if (schemeOf(u) === null) { W.badUrl = true; throw new TypeError("Invalid URL"); } this.$href = u; return; }
      const r = new global.URL(u, base && base.$href || base); this.$href = r.href; }
    get href() { return this.$href; } toString() { return this.$href; } $str() { return this.$href; }
    get protocol() { return schemeOf(this.$href); }
    $split() { const ps = isSym(this.$href) ? this.$href.parts || [this.$href] : [this.$href], m = typeof ps[0] === "string" && /^https?:\/\/([^/]+)(\/.*)$/s.exec(ps[0]); return m ? [m[1], cat(m[2], ...ps.slice(1))] : [run.fresh("host_of_" + W.requests.length, "String"), run.fresh("path_of_" + W.requests.length, "String")]; } get hostname() { return this.$split()[0]; } get host() { return this.hostname; } get pathname() { return this.$split()[1]; } get search() { return ""; } get port() { return ""; } get searchParams() { throw new Unsupported("searchParams"); } }
  const url = { URL: URL_, parse: (u) => { if (u === undefined || u === null || typeof u === "object" && !isSym(u)) throw new TypeError('The "url" argument must be of type string'); const x = Object.create(null); x.href = u; if (isSym(u)) { const tmp = Object.create(URL_.prototype); tmp.$href = u; x.protocol = tmp.protocol; x.hostname = x.host = tmp.hostname; x.pathname = x.path = tmp.pathname; } else { const r = require("url").parse(u); return { ...r }; } x.$href = u; return x; }, fileURLToPath: (u) => u, pathToFileURL: (p) => new URL_("file://" + p) };
  // ---- the rest
  class AbortSignal_ extends Em { constructor() { super(); this.$reqs = []; this.$signal = true; } addEventListener(e, f) { this.on(e, f); } static timeout() { const s = new AbortSignal_(); s.$timeout = true; return s; } }
  class AbortController_ { constructor() { this.signal = new AbortSignal_(); } abort(e) { if (this.signal.aborted) return; this.signal.aborted = true; for (const r of this.signal.$reqs) r.destroy(e || err("ABORT_ERR")); } }
  const platform = () => { const v = run.fresh("platform", "String"); if (!W.pl) { W.pl = true; run.assume(B("(or " + ["aix", "android", "darwin", "freebsd", "linux", "openbsd", "sunos", "win32"].map((x) => `(= platform "${x}")`).join(" ") + ")")); } return v; };
  const arch = () => { const v = run.fresh("arch", "String"); if (!W.ar) { W.ar = true; run.assume(B("(or " + ["arm", "arm64", "ia32", "loong64", "mips", "mipsel", "ppc64", "riscv64", "s390x", "x64"].map((x) => `(= arch "${x}")`).join(" ") + ")")); } return v; };
  const os = { platform, arch, type: () => run.fresh("ostype", "String"), tmpdir: () => "/tmp", homedir: () => "/home", EOL: "\n", machine: arch, cpus: () => [] };
  // an environment variable that the script asks for is set to anything or not set
  const envVals = new Map(), envGet = (n) => { if (typeof n !== "string") return undefined; if (!envVals.has(n)) envVals.set(n, run.choose("variable set: " + n, 2) === 1 ? run.fresh("env_" + n, "String") : undefined); return envVals.get(n); };
  const envOf = () => new Proxy({}, { get: (t, n) => envGet(n), has: (t, n) => envGet(n) !== undefined, set: (t, n, v) => { envVals.set(n, v); return true; }, getOwnPropertyDescriptor: (t, n) => envGet(n) === undefined ? undefined : { value: envGet(n), enumerable: true, configurable: true, writable: true }, ownKeys: () => [...envVals.keys()].filter((n) => envVals.get(n) !== undefined) });
  const process_ = Object.assign(new Em(), { env: envOf(), cwd: () => "/work", chdir() {}, exit: (c) => { if (dead()) return; run.exit(c === undefined ? run.exitCode || 0 : c, "process.exit"); }, abort: () => run.exit(134, "abort"), nextTick: (f, ...a) => Promise.resolve().then(() => f(...a)), stdout: { write: (x) => true, isTTY: false }, stderr: { write: () => true, isTTY: false }, pid: 1, version: "v22.0.0", versions: { node: "22.0.0" }, hrtime: Object.assign(() => [0, 0], { bigint: () => 0n }), umask: () => 0o22, emitWarning() {}, uptime: () => 0, memoryUsage: () => ({}) });
  let argv; Object.defineProperty(process_, "argv", { get: () => argv || (argv = conf.argv(run, W)), set: (v) => { argv = v; } });
  Object.defineProperty(process_, "platform", { get: platform }); Object.defineProperty(process_, "arch", { get: arch }); Object.defineProperty(process_, "exitCode", { get: () => run.exitCode, set: (v) => { run.exitCode = v; } });
  const timers = { setTimeout: (f, ms, ...a) => { const t = { live: true, unref() { this.weak = true; return this; }, ref() { return this; } }; run.post("timer" + ++nop, "timer", () => { if (t.live) f(...a); }); return t; }, clearTimeout: (t) => { if (t) { t.live = false; } }, setImmediate: (f, ...a) => { run.post("imm" + ++nop, "immediate", () => f(...a)); } };
  const console_ = { log() {}, error() {}, warn() {}, info() {}, debug() {} };
  const assertm = Object.assign((v, m) => { if (!T(v)) throw m instanceof Error ? m : new Error("assertion"); }, { strictEqual: (a, b, m) => { if (!T(eq(a, b))) throw m instanceof Error ? m : new Error("assertion"); }, equal: (a, b, m) => assertm.strictEqual(a, b, m), notStrictEqual: (a, b, m) => { if (T(eq(a, b))) throw m instanceof Error ? m : new Error("assertion"); }, ok: (v, m) => assertm(v, m) }); assertm.strict = assertm;
  const util = { promisify: (f) => { for (const n of Object.keys(promised)) if (f === fsm[n]) return promised[n]; if (f === pipeline) return stream.promises.pipeline; if (f === finished) return stream.promises.finished; if (f === execFile) return (...a) => new Promise((ok, no) => execFile(...a, (e, o, s) => e ? no(e) : ok({ stdout: o, stderr: s }))); return (...a) => new Promise((ok, no) => f(...a, (e, v) => e ? no(e) : ok(v))); }, inspect: (x) => String(x), format: (...a) => a.map(String).join(" ") };
  const events = Object.assign(Em, { EventEmitter: Em, once: (em, e) => new Promise((ok, no) => { em.once(e, (...a) => ok(a)); if (e !== "error") em.once("error", no); }) });
  const mods = { fs: fsm, "fs/promises": promised, os, path, url, https: mod(true), http: mod(false), crypto, child_process, stream, "stream/promises": stream.promises, util, events, assert: assertm, process: process_, buffer: { Buffer: Buffer_ }, timers, "timers/promises": { setTimeout: (ms, v) => new Promise((ok) => timers.setTimeout(() => ok(v), ms)) }, console: console_ };
  mods["path/posix"] = path; mods["assert/strict"] = assertm;
  for (const [n, m] of Object.entries(mods)) { let real; try { real = require(n); } catch (e) {} if (real) mods[n] = new Proxy(m, { get: (o, k) => { if (k in o || typeof k === "symbol" || !(k in real)) return o[k]; if (typeof real[k] !== "function") throw new Unsupported(`${n}.${k}`); return function () { throw new Unsupported(`${n}.${k}`); }; } }); }
  W.mods = mods; W.key = key; W.digestVar = digestVar; W.exists = exists; W.contentOf = (k) => W.files.get(k); W.contentText = contentText;
  W.globals = { $: ops, process: process_, console: console_, Buffer: Buffer_, URL: URL_, AbortController: AbortController_, AbortSignal: AbortSignal_, ...timers, setInterval: () => { throw new Unsupported("setInterval"); }, clearInterval() {}, String: Object.assign((v) => v && v.$str ? v.$str() : isSym(v) ? strOf(v) : String(v), String), Boolean: Object.assign((v) => truth(v), { prototype: Boolean.prototype }), Number: Object.assign((v) => ops.num(v), { isInteger: (v) => isSym(v) ? v.sort === "Int" : Number.isInteger(v), isNaN: (v) => !isSym(v) && Number.isNaN(v), parseInt: (v, b) => ops.num(v) }), parseInt: (v, b) => isSym(v) ? ops.num(v) : parseInt(v, b), fetch: () => { throw new Unsupported("fetch"); }, queueMicrotask: (f) => Promise.resolve().then(f), JSON: { parse: (v) => { if (isSym(v) && v.e === "text_pkgjson" || v instanceof Buf && v.pieces && v.pieces.join() === "pkgjson") return W.pkg; if (isSym(v) || v instanceof Buf) throw new Unsupported("JSON.parse of a symbolic text"); return JSON.parse(v); }, stringify: (v, ...a) => JSON.stringify(v, ...a) }, structuredClone: (v) => v };
  return W;
}
module.exports = { world, err };
