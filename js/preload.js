"use strict";
/* Loaded before the real script: the recorded environment of one path, on the real Node. Everything stays inside the scratch directory. */
const C = JSON.parse(process.env.QLC_CASE), path = require("path"), fs = require("fs"), os = require("os"), net = require("net"), http = require("http"), https = require("https"), cp = require("child_process"), crypto = require("crypto");
const SCR = process.env.QLC_SCRATCH, WORK = SCR + "/work", real = { ...fs }, realp = { ...fs.promises };
const obs = { tars: [], urls: [], faults: [], requests: 0, last: null, children: [] };
const seq = {}; for (const [l, d] of C.choices) { const k = l.startsWith("fault:") ? l.split(":").slice(0, 2).join(":") : l.replace(/:.*/, ""); (seq[k] = seq[k] || []).push(d); }
const take = (k) => (seq[k] && seq[k].length ? seq[k].shift() : 0);
const start = Date.now(), slots = {}; C.order.forEach((l, i) => (slots[l] = slots[l] || []).push(i));
// an operation that the path never saw ending had not ended when the script did
const slot = (l) => { const s = slots[l] && slots[l].shift(); if (s === undefined && C.whole && l.startsWith("fs:")) return 1500; return s === undefined ? 0 : Math.max(0, start + 150 + s * 25 - Date.now()); };
const at = (l, f) => { const d = slot(l); if (d) setTimeout(f, d); else setImmediate(f); };
const mine = (p) => { try { const a = path.resolve(String(p)); return a.startsWith(WORK) || a.startsWith(SCR + "/pkg/bin"); } catch (e) { return false; } };
const inside = (p) => { const a = path.resolve(String(p)); if (!a.startsWith(SCR)) throw Object.assign(new Error("outside of the scratch directory: " + a), { code: "EACCES" }); };
const E = (c) => Object.assign(new Error(c + ": injected"), { code: c });
const OPS = { access: "access", stat: "access", mkdir: "mkdir", unlink: "unlink", rm: "unlink", chmod: "chmod", readFile: "read", rename: "rename", writeFile: "write", appendFile: "write", copyFile: "write" };
const CHANGES = new Set(["mkdir", "unlink", "rm", "chmod", "rename", "writeFile", "appendFile", "copyFile"]);
for (const [n, op] of Object.entries(OPS)) {
  const pre = (a) => { if (op === "unlink") (obs.tried = obs.tried || []).push(path.relative(WORK, path.resolve(String(a[0])))); if (!mine(a[0])) { if (CHANGES.has(n)) inside(a[0]); return false; } if (take("fault:" + op)) { obs.faults.push(op); throw E(n === "writeFile" ? "ENOSPC" : "EACCES"); } return true; };
  fs.promises[n] = async (...a) => { if (mine(a[0])) { const d = slot("fs:" + n); if (d) await new Promise((ok) => setTimeout(ok, d)); } pre(a); return realp[n](...a); };
  const sync = real[n + "Sync"]; if (sync) fs[n + "Sync"] = (...a) => { pre(a); return sync(...a); };
  const cb0 = real[n]; fs[n] = (...a) => { const cb = a[a.length - 1]; if (!mine(a[0]) || typeof cb !== "function") return cb0(...a); const go = () => { try { pre(a); } catch (e) { return cb(e); } cb0(...a); }; const d = slot("fs:" + n); if (d) setTimeout(go, d); else go(); };
}
fs.createWriteStream = (p, o) => {
  inside(p); const bad = take("fault:open"); if (bad) obs.faults.push("open");
  const fails = (seq["fault:write"] || []).includes(1); if (fails) obs.faults.push("write");
  return real.createWriteStream(p, { ...(typeof o === "string" ? { encoding: o } : o), fs: { open: (q, ...a) => { const cb = a[a.length - 1]; const go = () => (bad ? cb(E("EACCES")) : real.open(q, ...a)); const d = slot("ws:open"); if (d) setTimeout(go, d); else go(); }, write: (fd, ...a) => { const cb = a[a.length - 1]; if (fails) return setImmediate(() => cb(E("ENOSPC"))); return real.write(fd, ...a); }, writev: undefined, close: real.close } });
};
// platform and process
os.platform = () => C.platform; os.arch = () => C.arch; Object.defineProperty(process, "platform", { value: C.platform }); Object.defineProperty(process, "arch", { value: C.arch });
// the server: one connection per request, told what to do by the path
const body = (k) => [Buffer.from(`r${k}a`.repeat(40)), Buffer.from(`r${k}b`.repeat(40))];
const server = net.createServer((s) => { s.on("error", () => {}); s.unref(); let t = ""; s.on("data", (d) => { t += d; if (t.includes("\r\n\r\n")) { const m = /^\w+ \/(\d+)/.exec(t); t = ""; s.removeAllListeners("data"); s.on("data", (x) => { obs.body = (obs.body || "") + x; }); if (m) answer(s, +m[1]); } }); });
function answer(s, k) {
  const R = C.requests[k - 1] || { status: 200, out: 0, body: 0 }; if (R.out === 2) return; if (R.out === 1) return at("net:connect", () => s.destroy());
  at("net:connect", () => { const [a, b] = body(k);
    s.write(`HTTP/1.1 ${R.status} Status\r\nContent-Type: application/octet-stream\r\n${R.location ? `Location: ${R.location}\r\n` : ""}Content-Length: ${a.length + b.length}\r\nConnection: close\r\n\r\n`);
    at("net:data1", () => { s.write(a); if (R.body === 0) at("net:data2", () => s.end(b)); else if (R.body === 1) at("net:cut", () => s.destroy()); }); });
}
const sock = SCR + "/s"; server.listen(sock); server.unref();
const route = (secure, auto) => (a, b, c) => {
  let o = {}, cb, target; if (typeof a === "string" || a instanceof URL) target = String(a); else o = { ...a }; if (typeof b === "function") cb = b; else if (b) { o = { ...o, ...b }; cb = c; }
  const u = target ? new URL(target) : new URL(o.href || `${o.protocol || (secure ? "https:" : "http:")}//${o.hostname || o.host}${o.path || "/"}`);
  if (u.protocol !== (secure ? "https:" : "http:")) throw Object.assign(new TypeError(`Protocol "${u.protocol}" not supported.`), { code: "ERR_INVALID_PROTOCOL" });
  const k = ++obs.requests, R = C.requests[k - 1] || {}; obs.urls.push(target || o.href || u.href); obs.method = o.method || "GET"; obs.headers = o.headers || {}; obs.secure = secure; obs.last = k;
  const r = realRequest({ host: "127.0.0.1", socketPath: sock, path: "/" + k, method: o.method || "GET", headers: o.headers, timeout: o.timeout && Math.min(o.timeout, 700), agent: false, signal: o.signal }, cb);
  const st = r.setTimeout.bind(r); r.setTimeout = (ms, f) => st(Math.min(ms, 700), f); const w = r.end.bind(r); r.end = (d, ...x) => { if (typeof d === "string") obs.sent = d; return w(d, ...x); }; if (auto) r.end(); return r;
};
const realRequest = http.request; const as = AbortSignal.timeout; AbortSignal.timeout = (ms) => as.call(AbortSignal, Math.min(ms, 700));
const late = setTimeout; global.setTimeout = (f, ms, ...a) => late(f, ms > 2000 ? 700 : ms, ...a);
https.get = route(true, true); https.request = route(true, false); http.get = route(false, true); http.request = route(false, false);
// child processes
const spawn = cp.spawn, spawnSync = cp.spawnSync; let nchild = 0;
const child = (cmd, args, sync) => {
  const n = ++nchild, out = take("child process"), words = [cmd, ...(args || [])].join(" ").split(/\s+/);
  const files = words.flatMap((w) => [w, w.replace(/^(--file=|-f)/, "")]).map((w) => path.resolve(w.replace(/["']/g, ""))).filter((w) => mine(w) && real.existsSync(w) && real.statSync(w).isFile() && !w.startsWith(SCR + "/pkg/bin"));
  if (out === 1) { obs.faults.push("tar"); return ["/nonexistent/program", []]; }
  const code = out === 2 ? null : C.codes[n - 1] || 0; if (out === 2) obs.faults.push("tar");
  obs.tars.push({ cmd: words.join(" "), hashes: files.map((f) => crypto.createHash("sha256").update(real.readFileSync(f)).digest("hex")), code });
  // it ends when the path says; what it unpacks is there then
  const wait = sync ? 0 : slots["child:exit"] && slots["child:exit"].length ? slot("child:exit") : C.whole ? 1500 : 0, bin = SCR + "/pkg/bin";
  return ["/bin/sh", ["-c", `sleep ${wait / 1000}; if [ -d ${bin} ] && [ ${files.length} -gt 0 ]; then printf unpacked > ${bin}/qlc; chmod 644 ${bin}/qlc; fi; ${out === 2 ? "kill -9 $$" : "exit " + (code || (files.length ? 0 : 2))}`]];
};
cp.spawn = (c, a, o) => { const [x, y] = child(c, Array.isArray(a) ? a : []); return spawn(x, y, { stdio: "ignore" }); };
cp.spawnSync = (c, a, o) => { const [x, y] = child(c, Array.isArray(a) ? a : [], true); return spawnSync(x, y, { stdio: "ignore" }); };
cp.execFile = (c, a, o, cb) => { if (typeof a === "function") { cb = a; a = []; } if (typeof o === "function") cb = o; const p = cp.spawn(c, a); p.on("error", (e) => cb && cb(e, "", "")); p.on("close", (code, sig) => cb && cb(code === 0 ? null : Object.assign(new Error("Command failed"), { code, signal: sig }), "", "")); return p; };
cp.exec = (c, o, cb) => cp.execFile(c, [], typeof o === "function" ? o : cb);
cp.execFileSync = (c, a) => { const r = cp.spawnSync(c, a); if (r.error) throw r.error; if (r.status !== 0) throw Object.assign(new Error("Command failed"), { status: r.status }); return ""; }; cp.execSync = (c) => cp.execFileSync(c, []);
process.on("exit", (code) => { obs.code = code; real.writeFileSync(SCR + "/obs.json", JSON.stringify(obs)); });
if (C.argv) process.argv.splice(2, 10, ...C.argv);
