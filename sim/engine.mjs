// One simulated run: generation, re-execution of a recorded run, and minimisation.
import fs from 'node:fs';
import zlib from 'node:zlib';
import path from 'node:path';
import { createHash } from 'node:crypto';
import { World } from './world.mjs';
import { makePlan, Gen } from './gen.mjs';
import { hex } from './ic.mjs';

export const ROOT = path.resolve(import.meta.dirname, '..');
export function loadMods(dir) {
  const M = (b) => new WebAssembly.Module(b), F = (f) => M(fs.readFileSync(path.join(dir, f + '.wasm')));
  return { led: F('cycles-ledger'), dep: F('depositor'), cmc: F('fake-cmc'), base: M(zlib.gunzipSync(fs.readFileSync(path.join(ROOT, 'baseline/cycles-ledger-47d8590.wasm.gz')))) };
}
export const runSeed = (seed, prop, i) => `${seed}/${prop}/${i}`;
const hit = (w, prop) => w.viol.find((v) => v.tags.includes(prop));

// Runs seed -> {plan, actions, w, violation}.  Stops at the first violation of `prop`.
export function runSeeded(mods, seed, prop, opts = {}) {
  const plan = makePlan(seed, prop), actions = [];
  const w = new World(mods, plan.cfg, { ...plan.opts, ...opts });
  w.start();
  let v = hit(w, prop);
  if (!v && !w.aborted) {
    const g = new Gen(plan, w);
    for (;;) {
      const a = g.next();
      if (!a) break;
      actions.push(a);
      opts.onAction?.(a);
      w.exec(a);
      v = hit(w, prop);
      if (v || w.aborted) break;
    }
  }
  return { plan, actions, w, v };
}
// Re-executes a recorded list of actions: no generator, no randomness.
export function runActions(mods, cfg, opts, actions, prop, onStep) {
  const w = new World(mods, cfg, opts);
  w.start();
  let v = hit(w, prop), at = 0;
  for (let i = 0; !v && i < actions.length && !w.aborted; i++) { onStep?.(i, w); w.exec(actions[i]); at = i + 1; v = hit(w, prop); }
  return { w, v, at };
}
const cls = (m) => m.replace(/[0-9a-f]{8,}/g, '#').replace(/\d+/g, 'N').slice(0, 60);

// Delta debugging over the recorded actions, then over the faults attached to them.
export function minimise(mods, cfg, opts, actions, prop, v0, budgetMs) {
  const end = performance.now() + budgetMs; let tests = 0;
  const want = cls(v0.msg);
  const fails = (acts, c = cfg) => { if (performance.now() > end) return null; tests++; let r; try { r = runActions(mods, c, opts, acts, prop); } catch { return null; } return r.v && cls(r.v.msg) === want ? acts.slice(0, r.at) : null; };
  let cur = fails(actions) ?? actions;
  let n = 2;
  while (cur.length >= 2 && performance.now() < end) {
    const size = Math.ceil(cur.length / n); let done = false;
    for (let i = 0; i < cur.length; i += size) {
      const cand = cur.slice(0, i).concat(cur.slice(i + size));
      const r = fails(cand);
      if (r) { cur = r; n = Math.max(2, n - 1); done = true; break; }
    }
    if (!done) { if (size === 1) break; n = Math.min(cur.length, n * 2); }
  }
  for (let i = 0; i < cur.length; i++) for (const k of ['f', 'll', 'pf', 'gf', 'first', 'o']) {
    if (cur[i][k] === undefined) continue;
    const a = { ...cur[i] }; delete a[k];
    const r = fails(cur.slice(0, i).concat([a], cur.slice(i + 1)));
    if (r && r.length === cur.length) cur = r;
  }
  for (let i = 0; i < cur.length; i++) if (cur[i].t === 'bulk') for (const c of [1, 2, 10, 50, 100, 101]) if (c < cur[i].count) { const r = fails(cur.slice(0, i).concat([{ ...cur[i], count: c }], cur.slice(i + 1))); if (r && r.length === cur.length) { cur = r; break; } }
  let c = cfg;
  const try2 = (x) => { const r = fails(cur, x); if (r) { c = x; cur = r; } };
  if (c.dep) try2({ ...c, dep: undefined });
  if (c.cmc) try2({ ...c, cmc: undefined });
  for (let i = (c.init.balances ?? []).length - 1; i >= 0; i--) try2({ ...c, init: { ...c.init, balances: c.init.balances.filter((_, j) => j !== i) } });
  return { actions: cur, cfg: c, tests };
}
export const sigHash = (w) => createHash('sha256').update(w.sig.join(' ')).digest('hex').slice(0, 16);
export const evHex = (w) => hex(w.ev);

// What makes a run of a property's check non-trivial: the situations the property is about occurred.
const any = (o, ...ks) => ks.reduce((s, k) => s + Object.entries(o).filter(([x]) => (k instanceof RegExp ? k.test(x) : x === k)).reduce((t, [, n]) => t + n, 0), 0);
export const RULES = {
  C01: ['at least 8 blocks and at least one refund, trap, failed send or upgrade', (s) => s.blocks >= 8 && any(s.probes, /refunded$/, /^trap-/, 'send-failed-synchronously') + any(s.outcomes, /^upgrade:/) > 0],
  C02: ['a withdrawal or creation left the ledger and failed or was interleaved', (s) => any(s.probes, /refunded$/, 'interleaved-response', 'send-failed-synchronously', /too-small/) > 0],
  C03: ['at least two executed transfers and one refused one', (s) => any(s.outcomes, 'icrc1_transfer=Ok', 'icrc2_transfer_from=Ok') >= 2 && any(s.outcomes, /^icrc(1_transfer|2_transfer_from):/) >= 1],
  C04: ['an accepted and a refused or trapped deposit', (s) => any(s.outcomes, 'deposit=Ok') > 0 && any(s.outcomes, 'deposit=refused', 'deposit=injected') > 0],
  C05: ['at least one trap injected into a message that would have had effects', (s) => any(s.faults, /^trap:/, 'stable-grow-failed') > 0],
  C06: ['at least three refused requests', (s) => any(s.probes, /^error:/) >= 3],
  C07: ['at least three different error conditions reported', (s) => Object.keys(s.probes).filter((k) => k.startsWith('error:')).length >= 3],
  C08: ['at least one delivered withdrawal', (s) => any(s.probes, 'withdraw-succeeded') > 0],
  C09: ['at least one failed withdrawal', (s) => any(s.probes, 'withdraw-refunded', 'withdraw-too-small-to-refund') > 0],
  C10: ['at least one successful creation', (s) => any(s.probes, 'create-succeeded') > 0],
  C11: ['at least one failed creation', (s) => any(s.probes, 'create-refunded', 'create-too-small-to-refund') > 0],
  C12: ['at least two responses arrived after other messages had run', (s) => any(s.probes, 'interleaved-response') >= 2],
  C13: ['at least one repeat of an executed request arrived', (s) => any(s.probes, 'error:dup') > 0],
  C14: ['at least one Duplicate answer', (s) => any(s.probes, 'error:dup') > 0],
  C15: ['a TooOld or CreatedInFuture answer', (s) => any(s.probes, 'error:tooold', 'error:future') > 0],
  C16: ['a spender was refused for lack of allowance, or used one', (s) => any(s.probes, 'error:allowance', 'error:denied') + any(s.outcomes, 'icrc2_transfer_from=Ok') > 0],
  C17: ['an allowance was used and one was insufficient', (s) => any(s.outcomes, 'icrc2_transfer_from=Ok', 'withdraw_from=pending', 'create_canister_from=pending') > 0 && any(s.probes, 'error:allowance') > 0],
  C18: ['an approval with an expiry was set and the clock passed or met an expiry', (s) => any(s.probes, 'expired-allowance-observed', 'allowance-at-its-expiry', 'error:expired', 'error:allowance-expired') > 0],
  C19: ['at least two approvals executed and one compare-and-set mismatch or replacement', (s) => any(s.outcomes, 'icrc2_approve=Ok') >= 2],
  C20: ['a failed *_from operation', (s) => any(s.outcomes, 'withdraw_from:failed', 'create_canister_from:failed', 'withdraw_from=send-failed', 'create_canister_from=send-failed') > 0],
  C21: ['an allowance listing with at least one entry', (s) => any(s.probes, 'listing-nonempty') > 0],
  C22: ['at least 8 blocks and an upgrade or a refund', (s) => s.blocks >= 8 && any(s.outcomes, /^upgrade:/) + any(s.probes, /refunded$/) > 0],
  C23: ['at least 8 blocks of at least three operations', (s) => s.blocks >= 8],
  C24: ['at least 8 blocks', (s) => s.blocks >= 8],
  C25: ['at least 8 blocks and a trap or upgrade', (s) => s.blocks >= 8 && any(s.faults, /^trap:/, 'restart') > 0],
  C26: ['at least one block query over a non-empty log', (s) => any(s.methods, 'q:blocks') > 0 && s.blocks > 0],
  C27: ['an upgrade with state to preserve', (s) => any(s.outcomes, 'upgrade:ok') > 0 && s.blocks >= 3],
  C28: ['an upgrade from the pinned release with at least 3 blocks', (s) => any(s.outcomes, 'upgrade:from-base') > 0 && s.blocks >= 3],
  C29: ['an installation or upgrade with arguments, good or bad', (s) => any(s.outcomes, /^upgrade:/, 'init:refused', 'init:ok') > 0],
  C30: ['expired approvals or old transactions were pruned', (s) => any(s.probes, /^prune/) > 0],
  C31: ['a fault was injected and operations succeeded afterwards', (s) => any(s.faults, /^trap:/, /^reject/, 'low-liquid-cycles', 'call-perform-failed', /^cmc-/) > 0 && s.steps > 10],
  C32: ['at least three explicit queries', (s) => any(s.methods, /^q:/) >= 3],
  C33: ['a deposit went through the depositor', (s) => any(s.probes, 'depositor-ok', 'depositor-refused') > 0],
  C34: ['the fake CMC was called', (s) => any(s.probes, /^cmc-/) > 0],
};
