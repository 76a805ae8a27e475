// Check driver:  node sim/run.mjs check <property> | replay <file> | seed <property> <seed-string>
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fork, execFileSync, spawnSync } from 'node:child_process';
import { ROOT, loadMods, runSeeded, runActions, minimise, runSeed, sigHash, evHex, RULES } from './engine.mjs';

const HERE = import.meta.dirname;
const sec = (t) => Math.round((performance.now() - t) / 100) / 10;

function build() {
  if (process.env.SIM_MODS) return process.env.SIM_MODS;
  const out = execFileSync('python3', [path.join(HERE, 'build.py')], { stdio: ['ignore', 'pipe', 'inherit'] }).toString().trim().split('\n').pop();
  if (!fs.existsSync(path.join(out, 'cycles-ledger.wasm'))) throw new Error('build produced nothing');
  return out;
}

// ---------------------------------------------------------------- worker
async function worker() {
  const { dir, prop, seed, stepMs } = JSON.parse(process.env.SIM_JOB);
  const mods = loadMods(dir);
  process.on('message', (m) => {
    if (m.t === 'quit') process.exit(0);
    const t0 = performance.now();
    process.send({ t: 'begin', i: m.i });
    let out;
    try {
      const r = runSeeded(mods, runSeed(seed, prop, m.i), prop);
      const w = r.w;
      out = { t: 'done', i: m.i, ev: evHex(w), sig: sigHash(w), big: [...new Set(w.sig.map((x, k) => (w.sig[k - 1] ?? '^') + '>' + x))], stats: w.stats, len: r.actions.length, sim: String(w.net.now - BigInt(w.cfg0.t0)), aborted: w.aborted, soft: w.soft, softTags: w.softTags, ms: performance.now() - t0,
        nontrivial: RULES[prop] ? !!RULES[prop][1](w.stats) : true, v: r.v ?? null, cfg: r.v ? r.plan.cfg : undefined, opts: r.v ? r.plan.opts : undefined, actions: r.v ? r.actions : undefined,
        sample: m.i < 2 ? { seed: r.plan.seed, cfg: r.plan.cfg, first_actions: r.actions.slice(0, 6), actions: r.actions.length } : undefined };
    } catch (e) { out = { t: 'error', i: m.i, msg: String(e && e.stack || e) }; }
    process.send(out);
  });
  process.send({ t: 'ready' });
}

// ---------------------------------------------------------------- check
// Number of runs per tier; a property whose runs are dearer gets fewer.
const RUNS = { quick: 420, thorough: 40000 };
const CAP = { quick: 240, thorough: 3300 };    // seconds of wall clock for the search
const ERRORS = 4;                               // harness errors tolerated per check; each is printed and counted as an unjudged run
const HANG = 120_000;                           // one run may not take longer
async function check(prop) {
  const t0 = performance.now(), tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick', seed = Number(process.env.VERIF_SEED ?? 1) || 0;
  if (!RULES[prop]) { console.error('unknown property ' + prop); return 2; }
  const dir = build(), buildS = sec(t0);
  const total = Number(process.env.SIM_RUNS ?? RUNS[tier]), cap = Number(process.env.SIM_CAP ?? CAP[tier]) * 1000;
  const nw = Math.max(1, Math.min(Number(process.env.SIM_WORKERS ?? os.availableParallelism()), total));
  const t1 = performance.now();
  const agg = { faults: {}, methods: {}, outcomes: {}, probes: {}, steps: 0, msgs: 0, queries: 0, blocks: 0 };
  const sigs = new Set(), nsigs = new Set(), bigs = new Set(), evs = []; let done = 0, nontriv = 0, sim = 0n, aborted = 0, softRuns = 0, longest = 0; const softTags = {};
  let next = 0, best = null, capped = false, errors = [], hangs = []; const samples = [];
  await new Promise((resolve) => {
    let live = 0;
    const start = () => {
      const p = fork(path.join(HERE, 'run.mjs'), ['worker'], { env: { ...process.env, SIM_JOB: JSON.stringify({ dir, prop, seed }) }, execArgv: ['--max-old-space-size=2048'] });
      live++;
      p.cur = null; p.since = performance.now();
      const give = () => {
        if (performance.now() - t1 > cap) capped = true;
        if (next < total && !capped && errors.length <= ERRORS && (best === null || next < best.i)) { p.cur = next++; p.since = performance.now(); p.send({ i: p.cur }); } else { p.finished = true; p.cur = null; p.send({ t: 'quit' }); }
      };
      p.on('message', (m) => {
        if (m.t === 'ready') return give();
        if (m.t === 'begin') { p.since = performance.now(); return; }
        if (m.t === 'error') { errors.push(m); return give(); }
        done++; agg.steps += m.stats.steps; agg.msgs += m.stats.msgs; agg.queries += m.stats.queries; agg.blocks += m.stats.blocks;
        for (const g of ['faults', 'methods', 'outcomes', 'probes']) for (const k in m.stats[g]) agg[g][k] = (agg[g][k] ?? 0) + m.stats[g][k];
        sigs.add(m.sig); if (m.nontrivial) { nsigs.add(m.sig); nontriv++; } for (const b of m.big) bigs.add(b);
        sim += BigInt(m.sim); if (m.aborted) aborted++; if (m.soft) softRuns++; longest = Math.max(longest, m.ms); evs[m.i] = m.ev;
        for (const k in m.softTags ?? {}) softTags[k] = (softTags[k] ?? 0) + m.softTags[k];
        if (m.sample) samples[m.i] = m.sample;
        if (m.v && (best === null || m.i < best.i)) best = m;
        give();
      });
      p.on('exit', (code) => {
        live--;
        if (!p.finished && p.cur !== null && !p.killedHang) errors.push({ i: p.cur, msg: 'worker exited with ' + code });
        if ((p.killedHang || (!p.finished && p.cur !== null)) && next < total && errors.length <= ERRORS) start();
        if (live === 0) { clearInterval(timer); resolve(); }
      });
      procs.add(p);
    };
    const procs = new Set();
    const timer = setInterval(() => { for (const p of procs) if (p.cur !== null && !p.finished && performance.now() - p.since > HANG) { p.killedHang = true; hangs.push(p.cur); p.kill('SIGKILL'); p.finished = true; procs.delete(p); } }, 1000);
    for (let i = 0; i < nw; i++) start();
  });
  const searchS = sec(t1);
  if (done === 0 && !hangs.length) errors.push({ i: 0, msg: 'no run was completed' });
  let rc = 0, replay = null, minInfo = null;
  if (errors.length) { for (const e of errors.slice(0, 3)) console.error(`harness error in run ${e.i} (seed ${runSeed(seed, prop, e.i)}): ${e.msg}`); if (errors.length > ERRORS || done === 0) rc = 3; }
  fs.mkdirSync(path.join(ROOT, 'replays'), { recursive: true });
  if (best) {
    const mods = loadMods(dir);
    const m = minimise(mods, best.cfg, best.opts, best.actions, prop, best.v, tier === 'thorough' ? 180_000 : 40_000);
    const tr = []; const fin = runActions(mods, m.cfg, { ...best.opts, trace: (s) => tr.push(s.slice(0, 400)) }, m.actions, prop);
    replay = path.join(ROOT, 'replays', `${prop}-${seed}-${best.i}.json`);
    fs.writeFileSync(replay, JSON.stringify({ format: 1, property: prop, seed: runSeed(seed, prop, best.i), violation: fin.v?.msg, tags: fin.v?.tags, event_hash: evHex(fin.w), original_actions: best.actions.length, minimised_actions: m.actions.length, cfg: m.cfg, opts: best.opts, actions: m.actions, trace: tr }, null, 1));
    minInfo = { original_actions: best.actions.length, minimised_actions: m.actions.length, tests: m.tests };
    const again = spawnSync(process.execPath, [path.join(HERE, 'run.mjs'), 'replay', replay], { env: { ...process.env, SIM_MODS: dir }, encoding: 'utf8' });
    if (again.status !== 1) { console.error('replay did not reproduce the violation:\n' + again.stdout + again.stderr); rc = 3; } else {
      console.log(`violation: ${fin.v.msg}`);
      console.log(`found in run ${best.i} (seed ${runSeed(seed, prop, best.i)}), ${best.actions.length} actions, minimised to ${m.actions.length}; replay with: node sim/run.mjs replay ${replay}`);
      console.log(`VIOLATION property=${prop} replay=${replay}`); rc = 1;
    }
  } else if (hangs.length && prop === 'C31' && rc === 0) {
    replay = path.join(ROOT, 'replays', `${prop}-${seed}-${hangs[0]}.json`);
    fs.writeFileSync(replay, JSON.stringify({ format: 1, property: prop, seed: runSeed(seed, prop, hangs[0]), hang: true, violation: 'a message does not terminate' }, null, 1));
    console.log(`VIOLATION property=${prop} replay=${replay}`); rc = 1;
  } else if (hangs.length && rc === 0) { console.error(`${hangs.length} runs did not terminate (property C31 judges that)`); }
  const runs = done;
  const ev = { property: prop, tier, seed, level: 'exploration', wall_s: sec(t0), violations: rc === 1 ? 1 : 0,
    coverage: {
      evaluations: runs, distinct_nontrivial: nsigs.size,
      rule: `One evaluation is one simulated run: a random installation, then a random sequence of requests, message deliveries, faults, clock moves and upgrades drawn from the run's seed, then a fault-free ending. A run is non-trivial if: ${RULES[prop][0]}. Two runs are distinct if their sequences of (action kind, outcome, number of calls in flight) differ.`,
      samples: samples.filter(Boolean),
      runs_nontrivial: nontriv, distinct_runs: sigs.size, distinct_transitions: bigs.size, planned_runs: total, stopped_by_time_limit: capped, stopped_early_runs: aborted, runs_with_violations_of_other_properties: softRuns, violations_of_other_properties: softTags,
      runs_per_hour: Math.round(runs / Math.max(searchS, 0.1) * 3600), seeds: `${runSeed(seed, prop, 0)} .. ${runSeed(seed, prop, Math.max(0, runs - 1))}`,
      actions: agg.steps, messages_executed: agg.msgs, queries_executed: agg.queries, blocks_observed: agg.blocks, simulated_time_days: Number(sim / 1_000_000_000n) / 86400, longest_run_ms: Math.round(longest),
      faults_injected: agg.faults, situations_reached: agg.probes, requests_by_method: agg.methods, outcomes: agg.outcomes,
      event_hash: evHashes(evs), workers: nw, build_s: buildS, search_s: searchS, minimisation: minInfo, hangs: hangs.length, harness_errors: errors.length,
      real_code: ['cycles-ledger canister (release semantics, wasm32)', 'depositor canister', 'fake-cmc canister', 'cycles-ledger canister of the pinned commit (upgrade source)'],
      stubbed: ['IC system API and message scheduling (sim/ic.mjs)', 'management canister', 'cycles minting canister (in runs without fake-cmc)', 'ic-canisters-http-types crate (type definitions only)'],
    },
    assumptions: ['the simulated system API follows the IC interface specification (message atomicity, call contexts, cycles transfer, upgrades)', 'upgrades happen only with no open call context (the operator stops the canister first)', 'the CMC refunds what it says it refunds', 'a sha-256 collision does not occur'] };
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(ROOT, 'evidence', prop + '.json'), JSON.stringify(ev, null, 1) + '\n');
  console.log(`${prop}: ${runs} runs (${nsigs.size} distinct non-trivial), ${agg.msgs} messages, ${Object.values(agg.faults).reduce((a, b) => a + b, 0)} faults, build ${buildS} s, search ${searchS} s, ${rc === 0 ? 'held' : rc === 1 ? 'VIOLATED' : 'ERROR'}`);
  return rc;
}
import { createHash } from 'node:crypto';
const evHashes = (evs) => { const h = createHash('sha256'); for (let i = 0; i < evs.length; i++) h.update(String(evs[i] ?? '-')); return h.digest('hex').slice(0, 32); };

// ---------------------------------------------------------------- replay
function replay(file) {
  const f = JSON.parse(fs.readFileSync(file)), dir = build();
  if (f.hang) {
    const r = spawnSync(process.execPath, [path.join(HERE, 'run.mjs'), 'seed', f.property, f.seed], { env: { ...process.env, SIM_MODS: dir }, timeout: HANG, killSignal: 'SIGKILL' });
    if (r.error || r.signal) { console.log(`VIOLATION property=${f.property} replay=${file}`); return 1; }
    console.log('terminated'); return 0;
  }
  const r = runActions(loadMods(dir), f.cfg, { ...f.opts, trace: process.env.SIM_TRACE ? (s) => console.log('   ' + s.slice(0, 600)) : undefined }, f.actions, f.property, (i) => { if (process.env.SIM_TRACE) console.log(`#${i} ${JSON.stringify(f.actions[i])}`); });
  if (!r.v) { console.log(`no violation of ${f.property} (event hash ${evHex(r.w)})`); return 0; }
  console.log(`step ${r.v.step}: ${r.v.msg}`);
  console.log(`event hash ${evHex(r.w)}${f.event_hash ? (evHex(r.w) === f.event_hash ? ' (identical to the recording)' : ' (recording: ' + f.event_hash + ')') : ''}`);
  console.log(`VIOLATION property=${f.property} replay=${file}`);
  return 1;
}
function one(prop, seed) {
  const r = runSeeded(loadMods(build()), seed, prop, { trace: process.env.SIM_TRACE ? (s) => console.log('   ' + s.slice(0, 600)) : undefined, onAction: process.env.SIM_TRACE ? (a) => console.log(JSON.stringify(a)) : undefined });
  console.log(JSON.stringify({ seed, actions: r.actions.length, event_hash: evHex(r.w), violation: r.v ?? null, soft: r.w.soft, aborted: r.w.aborted }));
  return r.v ? 1 : 0;
}
// Generates `n` runs and executes each recorded action list again.
function rerun(prop, n) {
  const mods = loadMods(build()); let bad = 0;
  for (let i = 0; i < n; i++) {
    const r = runSeeded(mods, runSeed(1, prop, i), prop), s = runActions(mods, r.plan.cfg, r.plan.opts, JSON.parse(JSON.stringify(r.actions)), prop);
    const a = evHex(r.w), b = evHex(s.w); console.log(`${prop} run ${i}: ${r.actions.length} actions, ${a === b ? 'same' : 'DIFFERENT'} event hash ${a}`); if (a !== b) bad = 1;
  }
  return bad;
}

const [cmd, ...args] = process.argv.slice(2);
if (cmd === 'worker') await worker();
else {
  let rc = 3;
  try { rc = cmd === 'check' ? await check(args[0]) : cmd === 'replay' ? replay(args[0]) : cmd === 'seed' ? one(args[0], args[1]) : cmd === 'rerun' ? rerun(args[0], Number(args[1] ?? 5)) : (console.error('usage: run.mjs check|replay|seed'), 2); } catch (e) { console.error('harness error: ' + (e.stack ?? e)); rc = 3; }
  process.exitCode = rc;
}
