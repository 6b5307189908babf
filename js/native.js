"use strict";
/* native.js <repo> <script> <case.json>: one recorded path on the real, unchanged script under the real Node. Exit 1 with REPRODUCED when the property is broken there too. */
const fs = require("fs"), path = require("path"), os = require("os"), cp = require("child_process"), crypto = require("crypto");
const TARGETS = [["darwin", "x64", "x86_64-apple-darwin"], ["darwin", "arm64", "aarch64-apple-darwin"], ["linux", "x64", "x86_64-unknown-linux-musl"], ["linux", "arm64", "aarch64-unknown-linux-musl"]];
function run(repo, name, c) {
  const S = fs.mkdtempSync(path.join(os.tmpdir(), "qlc-js-native-")), m = c.model || {}, has = (l) => { const x = c.choices.find((y) => y[0] === l); return x ? x[1] : undefined; };
  try {
    fs.cpSync(path.join(repo, "pkg/npm"), S + "/pkg", { recursive: true }); fs.mkdirSync(S + "/work");
    const bytes = (p) => Buffer.from(p.repeat(40)), num = (x, d) => (typeof x === "number" ? x : d);
    const requests = [], bodies = {}; for (let k = 1; k <= 4; k++) { const o = c.choices.find((y) => y[0].startsWith(`request ${k}:`)), b = c.choices.find((y) => y[0].startsWith(`body of response ${k}:`)); let loc = m[`location_${k}`]; try { if (loc) new URL(loc); } catch (e) { loc = loc.startsWith("http:") ? "http://host.example/x" : loc.startsWith("ftp:") ? "ftp://host.example/x" : loc.startsWith("https:") ? "https://host.example/x" : "no address"; } requests.push({ out: o ? o[1] : 0, body: b ? b[1] : 0, status: num(m[`status_${k}`], 200), location: loc }); }
    const C = { choices: c.choices, order: c.order || [], whole: !!c.whole, platform: m.platform || "linux", arch: m.arch || "x64", requests, codes: [1, 2, 3].map((n) => num(m[`code_${n}`], 0)) };
    let script = "lib/postinstall.js", pins = {}; const extra = {}; for (const [l, d] of c.choices) if (l.startsWith("variable set: ") && d) extra[l.slice(14)] = m["env_" + l.slice(14).replace(/[^A-Za-z0-9_]/g, "_")] || "";
    if (name === "postinstall") {
      if (c.choices.some((y) => y[0] === "bin directory exists" && y[1] === 1)) fs.rmSync(S + "/pkg/bin", { recursive: true });
      const pk = JSON.parse(fs.readFileSync(S + "/pkg/package.json", "utf8")); pk.version = m.version || "1";
      const dig = Object.keys(m).filter((n) => n.startsWith("digest_")).map((n) => { const x = n.split("_"), alg = x[1], enc = x[2]; return [m[n], crypto.createHash(alg).update(Buffer.concat(x.slice(3).map(bytes))).digest(enc === "hex" ? "hex" : "base64")]; });
      for (const t of Object.keys(pk.checksumConfig)) { const absent = has("pinned checksum present: " + t) === 1, v = m["pin_" + t.replace(/[^A-Za-z0-9_]/g, "_")]; if (absent) { delete pk.checksumConfig[t]; continue; } let r = v === undefined ? "0".repeat(64) : v; for (const [d, real] of dig) if (v === d) r = real; else if (v && d && v.includes(d)) r = v.replace(d, real); else if (v && d && d.includes(v)) { const i = d.indexOf(v); r = real.slice(i, i + v.length); } pk.checksumConfig[t] = r; }
      if (has("argument given") === 1) C.argv = [m.argument || ""]; pins = pk.checksumConfig; fs.writeFileSync(S + "/pkg/package.json", JSON.stringify(pk)); C.version = pk.version;
    } else {
      script = "lib/download.js"; C.argv = []; fs.mkdirSync(S + "/work/d");
      if (has("endpoint given") === 0) { let e = m.endpoint || "https://host.example/x"; const sch = c.choices.find((y) => y[0].startsWith("address:")); try { new URL(e); } catch (x) { e = sch && sch[1] === 3 ? "no address" : sch && sch[1] === 1 ? "http://host.example/x" : sch && sch[1] === 2 ? "ftp://host.example/x" : sch && sch[1] === 4 ? "HTTPS://host.example/x" : sch && sch[1] === 5 ? "HTTP://host.example/x" : "https://host.example/x"; } C.argv.push(e); if (has("output file given") === 1) { const d = c.choices.find((y) => y[0].startsWith("output file:")); C.argv.push((C.outFile = (d && d[1] ? "d/" : "") + (m.output || "out.json"))); }; }
      C.outFile = C.outFile || "schema.json"; if (has("schema from an earlier download") === 1) fs.writeFileSync(S + "/work/" + C.outFile, "old");
    }
    const p = cp.spawnSync(process.execPath, ["-r", path.join(__dirname, "preload.js"), S + "/pkg/" + script], { cwd: S + "/work", timeout: 9000, killSignal: "SIGKILL", env: { PATH: process.env.PATH, ...extra, QLC_CASE: JSON.stringify(C), QLC_SCRATCH: S }, encoding: "utf8" });
    const hang = p.error && p.error.code === "ETIMEDOUT"; const o = fs.existsSync(S + "/obs.json") ? JSON.parse(fs.readFileSync(S + "/obs.json", "utf8")) : { tars: [], faults: [], urls: [] };
    if (!hang && o.code === undefined) return { violations: [], code: p.status, broken: true, stderr: (p.stderr || "").slice(0, 800) };
    const files = fs.readdirSync(S + "/work", { recursive: true }).filter((x) => !fs.statSync(S + "/work/" + x).isDirectory()), V = [], v = (x, t) => { if (!x) V.push(t); }, F = new Set(o.faults), R = requests[(o.last || 1) - 1], code = hang ? -2 : p.status, all = (k) => Buffer.concat([bytes(`r${k}a`), bytes(`r${k}b`)]);
    const bad = requests.slice(0, o.requests || 0).some((r, i) => r.out || (r.body && o.urls.length > i));
    if (name === "postinstall") {
      const T = TARGETS.find(([a, b]) => a === C.platform && b === C.arch), pin = T && pins[T[2]];
      for (const t of o.tars) { v(t.hashes.length > 0 && t.hashes.every((h) => pin && h === pin), "a download whose SHA-256 is not the checksum pinned for the platform is unpacked"); v(requests.slice(0, o.last - 1).every((r) => r.status >= 300 && r.status < 400), "an answer other than a redirect is followed"); v(R.status < 400, "the answer to a failed request is unpacked"); }
      const bin = fs.existsSync(S + "/pkg/bin/qlc") && fs.statSync(S + "/pkg/bin/qlc"), isBin = bin && fs.readFileSync(S + "/pkg/bin/qlc", "utf8") === "unpacked";
      if (code === 0) { v(o.tars.length === 1 && !F.has("tar"), "success is reported although nothing was unpacked"); v(o.tars.every((t) => t.code === 0), "success is reported although unpacking failed"); v(isBin && (bin.mode & 0o111) === 0o111, "success is reported although the binary is not executable"); v(![...F].some((f) => ["open", "write", "read", "chmod"].includes(f)) && !(R && (R.out || R.body)), "success is reported although an operation failed"); v(!files.length || F.has("unlink"), "the download is left behind after success"); }
      else if (code === -2) v(false, "a download that stalls is waited for for ever");
      else { const whole = o.last && !bad && !F.size && R.status === 200 && requests.slice(0, o.last - 1).every((r) => r.status === 302);
        v(!(whole && pin && crypto.createHash("sha256").update(all(o.last)).digest("hex") === pin && o.tars.every((t) => t.code === 0)), "a download with the pinned checksum is refused");
        if (!o.requests) v(F.size || !T, "nothing is downloaded for a supported platform");
        if (![...F].some((f) => !["open", "write", "read"].includes(f)) && !o.tars.length) v(!files.length, "a failed or refused download is left on the disk"); }
      if (o.urls.length && T) v(o.urls[0] === `https://github.com/notarize/qlc/releases/download/${C.version}/qlc-${C.version}-${T[2]}.tar.gz`, "another file than the platform's release is downloaded");
      else if (o.urls.length) v(false, "another file than the platform's release is downloaded");
    } else {
      const f = files.includes(C.outFile) ? fs.readFileSync(S + "/work/" + C.outFile) : null;
      if (code === 0) { v(C.argv.length && o.requests, "success is reported although nothing was downloaded"); v(R && R.status === 200, "success is reported for an answer other than 200"); v(f && o.last && f.equals(all(o.last)), "success is reported although the schema file is not the whole answer"); v(files.every((x) => x === C.outFile) || F.has("unlink"), "other files than the schema are left"); }
      else { v(code > 0 && code < 256, "the script does not end"); if (!F.size && o.requests === 1 && !bad) v(R.status !== 200, "a whole answer is reported as a failure"); if (!F.size && C.argv.length && !o.requests) v(!/^https?:\/\/./i.test(C.argv[0]), "nothing is requested from a valid endpoint"); if (!F.has("unlink") && !F.has("rename")) v(!f || f.toString() === "old" || !f.length && (!o.requests || (o.tried || []).includes(C.outFile)), "part of a failed download is left in the schema file"); }
      if (o.urls.length) { v(String(o.method).toUpperCase() === "POST", "the request is not a POST"); v(new URL(o.urls[0]).href === new URL(C.argv[0]).href, "another address than the endpoint is asked"); v(o.secure === /^https:/i.test(C.argv[0]), "the protocol is not the endpoint's"); const h = Object.entries(o.headers || {}).find(([n]) => n.toLowerCase() === "content-type"); v(h && String(h[1]).startsWith("application/json"), "the request does not say that its body is JSON"); if (o.sent !== undefined) { let q; try { q = JSON.parse(o.sent); } catch (e) {} v(q && /__schema/.test(q.query || ""), "the request's body is not an introspection query"); } }
    }
    return { violations: V, code, files, obs: o, stderr: (p.stderr || "").slice(0, 600) };
  } finally { fs.rmSync(S, { recursive: true, force: true }); }
}
module.exports = { run };
if (require.main === module) {
  const [, , repo, name, file] = process.argv, c = JSON.parse(fs.readFileSync(file, "utf8")), r = run(repo, name, c);
  console.log(JSON.stringify(r, null, 1)); if (r.violations.length) { console.log("REPRODUCED: " + (r.violations.includes(c.message) ? c.message : r.violations[0])); process.exit(1); }
  if (r.broken) process.exit(4);
  if (c.ended && c.expect && (c.ended.code === 0) !== (r.code === 0)) { console.log(`MISMATCH: the model ends with ${c.ended.code}, the script with ${r.code}`); process.exit(3); }
}
