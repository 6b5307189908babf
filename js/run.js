"use strict";
/* run.js <repo> <script> <tier> <out.json>: explores one script and writes what was found. */
const fs = require("fs"), { Z3, Explorer } = require("./sym.js"), scripts = require("./scripts.js");
(async () => {
  const [, , repo, name, tierName, out] = process.argv;
  const tier = tierName === "thorough" ? { requests: 3, faults: 3, budget: 1500, delays: 4, limit: 2000000 } : { requests: 2, faults: 1, budget: 150, delays: 2, limit: 260000 };
  const L = scripts.loader(repo), z3 = new Z3("z3"), ex = new Explorer(z3), sc = scripts[name](repo, tier, L);
  try { await ex.explore(sc.start, sc.oracle, tier); } finally { z3.end(); }
  const groups = {}; for (const v of ex.violations) (groups[v.message] = groups[v.message] || []).push(v);
  const viols = Object.values(groups).flatMap((g) => g.sort((a, b) => a.choices.filter((c) => c[1]).length - b.choices.filter((c) => c[1]).length || a.choices.length - b.choices.length).slice(0, 6));
  fs.writeFileSync(out, JSON.stringify({ script: sc.name, tier, paths: ex.paths, forks: ex.forks, events: ex.events, asserts: ex.asserts, exhausted: ex.exhausted && !ex.unknown, queries: z3.queries, sat: z3.sat, unsat: z3.unsat, unknown: z3.unknown, cached: z3.cached, solver_s: z3.ms / 1000, max_query_ms: z3.max, z3: z3.version, covers: ex.covers, missing: sc.covers.filter((c) => !ex.covers[c]), errors: ex.errors, violations: viols, nviol: ex.violations.length, samples: ex.samples, wall_s: ex.wall, ...L.info }, null, 1));
})().catch((e) => { console.error(e); process.exit(2); });
