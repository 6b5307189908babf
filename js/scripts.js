"use strict";
/* The two scripts of the npm package, what surrounds them, and what has to hold. */
const fs = require("fs"), path = require("path");
const { S, B, I, isSym, cat, eq, neg, truth, term, cur } = require("./sym.js");
const { world } = require("./models.js"), { transform } = require("./instr.js");
const TARGETS = [["darwin", "x64", "x86_64-apple-darwin"], ["darwin", "arm64", "aarch64-apple-darwin"], ["linux", "x64", "x86_64-unknown-linux-musl"], ["linux", "arm64", "aarch64-unknown-linux-musl"]];
const and = (...c) => { c = c.filter((x) => x !== true); return c.some((x) => x === false) ? false : c.length ? B(`(and true ${c.map((x) => x.e).join(" ")})`) : true; };
const or = (...c) => { c = c.filter((x) => x !== false); return c.some((x) => x === true) ? true : c.length ? B(`(or false ${c.map((x) => x.e).join(" ")})`) : false; };

function loader(repo) {
  const cache = new Map(), info = { functions: [], branches: 0, operators: 0, files: [] };
  return { info, load(run, W, file) {
    const mods = new Map();
    const go = (f) => {
      if (mods.has(f)) return mods.get(f).exports;
      const module = { exports: {} }; mods.set(f, module);
      if (f === "/pkg/package.json") { module.exports = W.pkg; return W.pkg; }
      const real = path.join(repo, "pkg/npm", f.slice(5));
      if (!cache.has(f)) { const r = transform(fs.readFileSync(real, "utf8"), f); info.functions.push(...r.counts.functions.map((n) => path.basename(f) + ":" + n)); info.branches += r.counts.branches; info.operators += r.counts.operators; info.files.push(f); cache.set(f, r.code); }
      const dir = path.posix.dirname(f);
      const req = Object.assign((n) => { n = n.replace(/^node:/, ""); if (W.mods[n]) return W.mods[n]; if (!n.startsWith(".")) { const { Unsupported } = require("./sym.js"); throw new Unsupported("module " + n); } let t = path.posix.join(dir, n); if (!/\.(js|json|cjs)$/.test(t)) t = fs.existsSync(path.join(repo, "pkg/npm", t.slice(5) + ".js")) ? t + ".js" : fs.existsSync(path.join(repo, "pkg/npm", t.slice(5) + ".json")) ? t + ".json" : t + "/index.js"; return go(t); }, { main: module, resolve: (n) => path.posix.join(dir, n) });
      const names = Object.keys(W.globals); module.require = req; if (f === file) { module.id = "."; }
      new Function(...names, `return function (exports, require, module, __filename, __dirname) {\n${cache.get(f)}\n}`)(...names.map((n) => W.globals[n])).call(module.exports, module.exports, req, module, f, dir);
      return module.exports;
    };
    return go(file);
  } };
}

// ---------------------------------------------------------------- lib/postinstall.js
function postinstall(repo, tier, L) {
  const raw = JSON.parse(fs.readFileSync(path.join(repo, "pkg/npm/package.json"), "utf8"));
  const conf = { stall: true, maxRequests: tier.requests, maxFaults: tier.faults, faults: ["access", "mkdir", "unlink", "chmod", "read", "open", "write", "rename"], placeholder: "/pkg/bin/qlc", argv: (run) => { const a = ["node", "/pkg/lib/postinstall.js"]; if (run.choose("argument given", 2) === 1) a.push(run.fresh("argument", "String")); return a; },
    onChild(run, W, c) {
      if (!c.reads.length && /(^|\/)(bsd|g)?tar$/.test(String(c.cmd))) { c.none = true; return; }
      if (!c.reads.length) { const { Unsupported } = require("./sym.js"); throw new Unsupported("a child process that reads no file: " + c.cmd); }
      for (const k of c.reads) {
        const content = W.contentOf(k).content, d = W.digestVar("sha256", "hex", content);
        run.facts.covers["unpacks"] = 1;
        const good = or(...TARGETS.map(([p, a, t]) => W.pins[t] && W.pins[t].v !== undefined ? and(B(`(= platform "${p}")`), B(`(= arch "${a}")`), eq(d, W.pins[t].v), neg(eq(W.pins[t].v, ""))) : false));
        for (const n of ["platform", "arch"]) run.fresh(n, "String");
        run.check(good, "a download whose SHA-256 is not the checksum pinned for the platform is unpacked");
        const last = W.requests[W.requests.length - 1];
        run.check(and(...W.requests.slice(0, -1).map((r) => r.res ? B(`(and (>= ${r.res.statusCode.e} 300) (<= ${r.res.statusCode.e} 399))`) : false)), "an answer other than a redirect is followed");
        if (last && last.res) run.check(and(neg(eq(last.res.statusCode, 404)), neg(B(`(>= ${last.res.statusCode.e} 400)`))), "the answer to a failed request is unpacked");
      }
    },
    onChildEnd(run, W, c) { if (c.none) return; c.done = true; W.files.set("/pkg/bin/qlc", { content: ["unpacked"], mode: 0o644 }); } };
  return {
    name: "lib/postinstall.js", conf,
    start(run) {
      run.facts.covers = {}; const W = (run.W = world(run, conf)); W.pins = {};
      const version = run.fresh("version", "String"); run.assume(B(`(str.in_re version (re.+ (re.union (re.range "0" "9") (str.to_re "."))))`));
      const pins = {}; for (const t of Object.keys(raw.checksumConfig || {})) { W.pins[t] = {}; Object.defineProperty(pins, t, { enumerable: true, get() { const p = W.pins[t]; if (!p.read) { p.read = true; if (run.choose("pinned checksum present: " + t, 2) === 0) { p.v = run.fresh("pin_" + t, "String"); run.plain.add(p.v.e); } } return p.v; } }); }
      W.pkg = { ...raw, version, checksumConfig: pins }; W.files.set("/pkg/package.json", { content: ["pkgjson"], mode: 0o644 });
      L.load(run, W, "/pkg/lib/postinstall.js");
    },
    oracle(run, end) {
      const W = run.W, F = W.faults, reqs = W.requests, last = reqs[reqs.length - 1];
      for (const n of ["platform", "arch"]) run.fresh(n, "String");
      const supported = or(...TARGETS.map(([p, a]) => B(`(and (= platform "${p}") (= arch "${a}"))`)));
      const tars = W.children.filter((c) => c.reads.length), bin = W.files.get("/pkg/bin/qlc");
      if (end.code === 0) {
        run.facts.covers["succeeds"] = 1;
        run.check(tars.length === 1 && !!tars[0].done && !F.has("tar") , "success is reported although nothing was unpacked");
        if (!run.violation) run.check(eq(tars[0].code, 0), "success is reported although unpacking failed");
        run.check(!!bin && bin.content[0] === "unpacked" && (bin.mode & 0o111) === 0o111, "success is reported although the binary is not executable");
        run.check(![...F].some((f) => ["open", "write", "read", "chmod"].includes(f)) && !W.bad.has(last.k), "success is reported although an operation failed");
        run.check(left(W).length === 0 || F.has("unlink"), "the download is left behind after success");
      } else if (end.code === -2) run.check(false, "a download that stalls is waited for for ever");
      else {
        run.facts.covers["fails"] = 1;
        run.check(end.code > 0 && end.code < 256, "the script does not end");
        const kinds = [...F];
        const whole = last && last.res && !W.bad.size && !W.badUrl && !F.size ? and(...reqs.slice(0, -1).map((r) => r.res ? eq(r.res.statusCode, 302) : false), eq(last.res.statusCode, 200)) : false;
        const content = last ? [`r${last.k}a`, `r${last.k}b`] : [];
        const matches = last ? or(...TARGETS.map(([p, a, t]) => W.pins[t] && (!W.pins[t].read || W.pins[t].v !== undefined) ? and(B(`(= platform "${p}")`), B(`(= arch "${a}")`), eq(W.digestVar("sha256", "hex", content), run.fresh("pin_" + t, "String")), neg(eq(run.fresh("pin_" + t, "String"), ""))) : false)) : false;
        const tarOk = tars.length ? and(...tars.map((t) => t.code === null || t.code === undefined ? false : eq(t.code, 0))) : true;
        run.check(neg(and(whole, matches, tarOk)), "a download with the pinned checksum is refused");
        if (!reqs.length) run.check(F.size > 0 || neg(and(supported)), "nothing is downloaded for a supported platform");
        if (!kinds.some((f) => !["open", "write", "read"].includes(f)) && !tars.length) { if (reqs.length) run.facts.covers["refuses a download"] = 1; run.check(left(W).length === 0, "a failed or refused download is left on the disk"); }
      }
      if (reqs.length && !run.violation) {
        const u = reqs[0].url; const want = TARGETS.map(([p, a, t]) => and(B(`(= platform "${p}")`), B(`(= arch "${a}")`), eq(u, cat("https://github.com/notarize/qlc/releases/download/", run.fresh("version", "String"), "/qlc-", run.fresh("version", "String"), "-", t, ".tar.gz"))));
        run.check(or(...want), "another file than the platform's release is downloaded");
      }
    },
    covers: ["unpacks", "succeeds", "fails", "refuses a download"],
  };
}
const left = (W) => [...W.created].filter((k) => W.files.has(k) && !k.startsWith("/pkg/bin"));

// ---------------------------------------------------------------- lib/download.js
function download(repo, tier, L) {
  const conf = { stall: false, capitals: true, maxRequests: tier.requests, maxFaults: tier.faults, faults: ["unlink", "open", "write", "rename"],
    argv(run) { const a = ["node", "/pkg/bin/qlc-download-schema"]; if (run.choose("endpoint given", 2) === 0) { const e = run.fresh("endpoint", "String"); run.assume(neg(eq(e, ""))); a.push(e); if (run.choose("output file given", 2) === 1) { const o = run.fresh("output", "String"); run.assume(B(`(str.in_re output (re.+ (re.union (re.range "a" "z") (str.to_re "."))))`)); const q = run.choose("output file: 0 here, 1 in a directory", 2) ? cat("d/", o) : o; a.push(q); run.facts.out = q; } } return a; },
    onChild() { const { Unsupported } = require("./sym.js"); throw new Unsupported("child process"); }, onChildEnd() {} };
  return {
    name: "lib/download.js", conf,
    start(run) { run.facts.covers = {}; const W = (run.W = world(run, conf)); void W.mods.process.argv; if (run.choose("schema from an earlier download", 2) === 1) { W.files.set(W.key(run.facts.out || "schema.json"), { content: ["old"], mode: 0o644 }); } W.pkg = {}; L.load(run, W, "/pkg/lib/download.js"); },
    oracle(run, end) {
      const W = run.W, F = W.faults, reqs = W.requests, endpoint = run.decls.has("endpoint"), out = W.key(run.facts.out || "schema.json"), f = W.files.get(out), last = reqs[reqs.length - 1];
      if (end.code === 0) {
        run.facts.covers["succeeds"] = 1;
        run.check(endpoint && !!last && !!last.res, "success is reported although nothing was downloaded");
        if (!run.violation) run.check(eq(last.res.statusCode, 200), "success is reported for an answer other than 200");
        if (!run.violation) run.check(!!f && f.content.join() === `r${last.k}a,r${last.k}b`, "success is reported although the schema file is not the whole answer");
        run.check(![...W.created].some((k) => k !== out && W.files.has(k)) || F.has("unlink"), "other files than the schema are left");
      } else {
        run.facts.covers["fails"] = 1;
        run.check(end.code > 0 && end.code < 256, "the script does not end");
        if (!F.size && last && last.res && !W.bad.size && reqs.length === 1) run.check(neg(eq(last.res.statusCode, 200)), "a whole answer is reported as a failure");
        if (!F.size && endpoint && !reqs.length) run.check(neg(or(...["https", "http", "HTTPS", "HTTP"].map((x) => B(`(str.prefixof "${x}://h" endpoint)`)))), "nothing is requested from a valid endpoint");
        if (!F.has("unlink") && !F.has("rename")) { if (reqs.length) run.facts.covers["a failed download"] = 1; run.check(!f || f.content.join() === "old" || f.content.join() === "" && (!reqs.length || W.tried.has(out)), "part of a failed download is left in the schema file"); }
      }
      if (reqs.length && !run.violation) {
        const r = reqs[0]; run.check(String(r.method).toUpperCase() === "POST", "the request is not a POST");
        run.check(eq(r.url, run.fresh("endpoint", "String")), "another address than the endpoint is asked");
        const tls = or(B(`(str.prefixof "https:" endpoint)`), B(`(str.prefixof "HTTPS:" endpoint)`)); run.check(r.$secure ? tls : neg(tls), "the protocol is not the endpoint's");
        const h = Object.entries(r.headers).find(([n]) => n.toLowerCase() === "content-type"); run.check(!!h && String(h[1]).startsWith("application/json"), "the request does not say that its body is JSON");
        if (r.$gone) { let q; try { q = JSON.parse(r.body.map(String).join("")); } catch (e) {} run.check(!!q && typeof q.query === "string" && /__schema/.test(q.query), "the request's body is not an introspection query"); }
      }
    },
    covers: ["succeeds", "fails", "a failed download"],
  };
}
module.exports = { postinstall, download, loader };
