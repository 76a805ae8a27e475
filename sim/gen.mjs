// Workload and fault generator.  Everything is drawn from one seeded generator; the
// produced actions are plain JSON with absolute times, so the recorded list replays
// without the generator.
import { Rng } from './rng.mjs';
import { FEE, U128, U64, WINDOW, DRIFT, LEDGER, CMC, MGMT, DEPOSITOR, ANON, Z, key, withdrawMemo } from './world.mjs';

const S = 1_000_000_000n, DAY = 86400n * S;
const W0 = { transfer: 10, tfrom: 6, approve: 9, withdraw: 5, wfrom: 5, create: 3, cfrom: 4, deposit: 5, dep: 4, cmc: 3, dlv: 16, upg: 1, q: 3, tick: 3, bulk: 0.15, retry: 6 };

// What each property's runs concentrate on.  `w` multiplies the action weights, the other
// numbers replace the defaults; `keep` lists weights the swarm never switches off.
export const PROFILES = {
  general: {},
  C01: { peak: 0.01, wide: 0.06, w: { deposit: 1.5 } },
  C02: { macro: 0.03, macros: ['storm', 'requeue', 'overlap', 'again', 'edge', 'inflight', 'twins', 'alike'], peak: 0.01, w: { withdraw: 2, wfrom: 2, create: 2, cfrom: 2, dlv: 1.2 }, ll: 0.06, pf: 0.06, respTrap: 0.06 },
  C03: { peak: 0.02, w: { transfer: 3, tfrom: 3 }, keep: ['transfer', 'tfrom', 'approve'], huge: 0.2, base: 0.03 },
  C04: { w: { deposit: 6, dep: 3 }, keep: ['deposit'], trap: 0.15, huge: 0.2, base: 0.03 },
  C05: { trap: 0.35, respTrap: 0.35, gf: 0.03, base: 0.03, len: [30, 70] },
  C06: { w: { transfer: 1.5, retry: 1.5 }, invalid: 2.5 },
  C07: { macro: 0.035, macros: ['crowd', 'storm', 'requeue', 'overlap', 'again', 'edge', 'inflight', 'twins', 'alike'], peak: 0.015, invalid: 2.5, w: { retry: 1.5 }, huge: 0.15, big: 0.25 },
  C08: { macro: 0.03, macros: ['storm', 'requeue', 'overlap', 'again', 'edge', 'inflight', 'twins', 'alike'], w: { withdraw: 4, wfrom: 3, dlv: 1.5 }, keep: ['withdraw', 'wfrom', 'dlv', 'approve'], ok: 0.7, base: 0.03 },
  C09: { huge: 0.12, edgeDlv: 0.25, macro: 0.04, macros: ['storm', 'inflight', 'overlap', 'again'], w: { withdraw: 4, wfrom: 3, dlv: 1.5 }, keep: ['withdraw', 'wfrom', 'dlv', 'approve'], ok: 0.15, ll: 0.12, pf: 0.12, base: 0.03, small: 0.5 },
  C10: { macro: 0.03, macros: ['storm', 'requeue', 'overlap', 'again', 'edge', 'inflight', 'twins', 'alike'], w: { create: 5, cfrom: 4, dlv: 1.5 }, keep: ['create', 'cfrom', 'dlv', 'approve'], ok: 0.75, args: 0.85, base: 0.03 },
  C11: { huge: 0.12, edgeDlv: 0.25, macro: 0.04, macros: ['storm', 'inflight', 'overlap', 'again'], w: { create: 5, cfrom: 4, dlv: 1.5 }, keep: ['create', 'cfrom', 'dlv', 'approve'], ok: 0.1, ll: 0.12, pf: 0.12, base: 0.03, small: 0.5 },
  C12: { macro: 0.08, macros: ['storm', 'overlap', 'again', 'inflight'], w: { withdraw: 3, wfrom: 3, create: 3, cfrom: 3, dlv: 0.8, upg: 0.3 }, keep: ['withdraw', 'wfrom', 'create', 'dlv'], users: [2, 3], tight: 0.6, base: 0.02 },
  C13: { macro: 0.065, macros: ['again', 'edge', 'twins', 'twins', 'again', 'edge', 'twins', 'twins', 'crowd'], w: { retry: 5, withdraw: 1.5, create: 1.5, upg: 2 }, keep: ['retry', 'transfer'], cat: 0.95, users: [2, 3], base: 0.08, fastTime: 0.5 },
  C14: { macro: 0.08, macros: ['again', 'again', 'edge', 'twins'], w: { retry: 5, create: 3, cfrom: 2, upg: 2 }, keep: ['retry', 'create', 'dlv'], cat: 0.95, users: [2, 3], tight: 0.4, base: 0.08 },
  C15: { macro: 0.05, macros: ['edge'], w: { retry: 2, tick: 2 }, cat: 0.95, edgeCat: 0.7, base: 0.03, odd: 0.25 },
  C16: { macro: 0.05, macros: ['alike'], w: { tfrom: 3, wfrom: 2, cfrom: 2 }, stranger: 0.4, keep: ['tfrom', 'wfrom', 'cfrom'] },
  C17: { huge: 0.1, macro: 0.05, macros: ['requeue', 'inflight', 'overlap', 'alike'], w: { tfrom: 3, wfrom: 3, cfrom: 3, approve: 2 }, keep: ['tfrom', 'wfrom', 'cfrom', 'approve', 'dlv'], users: [2, 3], edgeAllow: 0.5, base: 0.03 },
  C18: { macro: 0.12, macros: ['pile', 'requeue', 'inflight', 'requeue', 'requeue', 'inflight', 'requeue', 'requeue', 'inflight', 'requeue'], w: { tfrom: 2, wfrom: 2, cfrom: 2, approve: 3, q: 2, tick: 2 }, keep: ['approve', 'tfrom', 'wfrom', 'dlv', 'q'], exp: 0.9, jump: 0.5, users: [2, 4], bulk: 0.06, base: 0.04, queries: ['list', 'allowance', 'list', 'allowance', 'blocks', 'balance', 'pages', 'audit'] },
  C19: { macro: 0.06, macros: ['requeue', 'requeue', 'inflight'], w: { approve: 6, tfrom: 1.5 }, keep: ['approve'], xa: 0.6, exp: 0.5, users: [2, 3], base: 0.03 },
  C20: { huge: 0.12, macro: 0.14, edgeDlv: 0.3, macros: ['pile', 'storm', 'overlap', 'inflight', 'overlap', 'inflight', 'overlap', 'inflight', 'overlap', 'inflight', 'overlap', 'inflight', 'overlap', 'inflight'], w: { wfrom: 5, cfrom: 5, approve: 2.5, dlv: 1.3, withdraw: 0.3, create: 0.3 }, keep: ['wfrom', 'cfrom', 'approve', 'dlv'], ok: 0.08, exp: 0.5, jump: 0.3, users: [2, 3], small: 0.3, bulk: 0.03, base: 0.03 },
  C21: { macro: 0.02, macros: ['alike'], w: { approve: 4, q: 6 }, keep: ['approve', 'q'], queries: ['list', 'pages', 'list', 'pages', 'allowance'], exp: 0.5, bulk: 0.15, subs: 5, base: 0.05 },
  C22: { tall: 0.01, w: { upg: 1.5 }, fastTime: 0.3 },
  C23: { macro: 0.04, macros: ['inflight', 'overlap', 'requeue'], exp: 0.5, jump: 0.3, w: { wfrom: 1.5, cfrom: 1.5 } },
  C24: { w: { withdraw: 1.3, create: 1.3 }, memo: 0.6, base: 0.03 },
  C25: { tall: 0.01, w: { upg: 2.5 }, trap: 0.1, respTrap: 0.1, ll: 0.06, pf: 0.06, bulk: 0.04 },
  C26: { wide: 0.04, w: { q: 6, transfer: 1.5 }, keep: ['q', 'transfer'], queries: ['blocks'], maxBlocks: 0.9, bulk: 0.08, base: 0.05 },
  C27: { wide: 0.04, macro: 0.05, macros: ['again', 'again', 'twins', 'requeue', 'inflight'], w: { upg: 5, retry: 2, create: 1.3 }, keep: ['upg', 'retry'], cat: 0.8, exp: 0.5, bulk: 0.05, base: 0.02 },
  C28: { base: 1, baseLen: [20, 90], w: { retry: 2 }, keep: ['approve', 'transfer'], cat: 0.8, exp: 0.5, bulk: 0.05, len: [20, 60] },
  C29: { wide: 0.05, w: { upg: 4, q: 1.5 }, keep: ['upg'], upgArgs: 0.9, badInit: 0.04, initTrap: 0.05, manyInit: 0.4, maxBlocks: 0.5, len: [15, 50] },
  C30: { wide: 0.02, macro: 0.05, macros: ['requeue', 'edge'], metrics: true, w: { approve: 3, tick: 2 }, keep: ['approve', 'transfer'], exp: 0.9, jump: 0.5, cat: 0.8, bulk: 0.5, base: 0.03, len: [30, 80] },
  C31: { macro: 0.035, macros: ['crowd', 'storm', 'requeue', 'overlap', 'again', 'edge', 'inflight', 'twins', 'alike'], ll: 0.05, pf: 0.05, respTrap: 0.1, trap: 0.08, exp: 0.5, jump: 0.25, bulk: 0.06, w: { upg: 1.5 } },
  C32: { wide: 0.03, macro: 0.025, macros: ['alike'], qpure: true, w: { q: 7 }, keep: ['q'], queries: ['balance', 'allowance', 'static', 'http', 'tip', 'audit', 'list', 'blocks'], exp: 0.5, bulk: 0.03 },
  C33: { w: { dep: 30, deposit: 1 }, keep: ['dep', 'dlv'], dep: 1, trap: 0.12, respTrap: 0.1, ll: 0.1, pf: 0.1, base: 0.03, depReject: 0.2 },
  C34: { w: { cmc: 20, create: 6, cfrom: 4 }, keep: ['cmc', 'create', 'dlv'], cmc: 1, args: 0.8, base: 0.02 },
};
const DEF = { trap: 0.03, respTrap: 0.03, ll: 0.02, pf: 0.02, gf: 0.005, cat: 0.5, edgeCat: 0.15, exp: 0.4, xa: 0.2, ok: 0.5, args: 0.4, jump: 0.12, fastTime: 0.15, users: [2, 5], subs: 3, base: 0.06,
  baseLen: [10, 50], len: [40, 120], bulk: 0.01, dep: 0.15, cmc: 0.12, depReject: 0.08, huge: 0.06, big: 0.06, odd: 0.03, small: 0.15, tight: 0.15, stranger: 0.08, edgeAllow: 0.25, memo: 0.4, invalid: 1, maxBlocks: 0.08, wide: 0.01, tall: 0.0015, peak: 0.002,
  edgeDlv: 0.12, macro: 0.025, macros: ['requeue', 'overlap', 'again', 'edge', 'inflight', 'twins', 'alike', 'requeue', 'overlap', 'again', 'inflight', 'twins', 'alike', 'storm', 'pile'], upgArgs: 0.35, badInit: 0, initTrap: 0.005, manyInit: 0.1, qpure: false, metrics: false, queries: ['blocks', 'list', 'pages', 'balance', 'allowance', 'static', 'http', 'tip', 'audit'] };

export function makePlan(seed, prop) {
  const r = new Rng('plan:' + seed);
  const focused = prop !== 'general' && r.p(0.75);
  const pr = { ...DEF, ...(PROFILES[prop] ?? {}) };
  if (!focused) for (const k of Object.keys(DEF)) if (!['metrics', 'qpure', 'base', 'dep', 'cmc', 'badInit', 'initTrap', 'baseLen'].includes(k)) pr[k] = DEF[k];
  const keep = PROFILES[prop]?.keep ?? [], mult = PROFILES[prop]?.w ?? {};
  const w = {};
  for (const k of Object.keys(W0)) {
    let x = W0[k] * (focused ? mult[k] ?? 1 : 1);
    if (!(keep.includes(k)) && k !== 'dlv') x *= r.weighted([[0, 0.12], [0.3, 0.2], [1, 0.45], [3, 0.23]]);
    if (k === 'dlv') x *= r.pick([0.3, 1, 1, 2]); // slow or fast callees
    w[k] = x;
  }
  // per-run swarm of fault intensities
  for (const k of ['trap', 'respTrap', 'll', 'pf', 'gf']) pr[k] *= r.weighted([[0, 0.25], [1, 0.55], [2.5, 0.2]]);
  w.bulk = r.p(Math.min(1, pr.bulk * 8)) ? 1.2 : 0;
  const plan = { seed, prop, focused, pr, w };
  // actors
  const nu = r.range(...pr.users), users = [];
  for (let i = 0; i < nu; i++) users.push(r.p(0.75) ? r.hex(28) + '02' : r.hex(8) + '0101');
  if (r.p(0.1)) users.push(ANON);
  if (r.p(0.06)) users.push(DEPOSITOR);
  const subs = [null, Z]; while (subs.length < 2 + pr.subs) subs.push(r.p(0.5) ? (subs.length - 1).toString(16).padStart(64, '0') : r.hex(32));
  if (r.p(0.3)) subs.push('ff'.repeat(32));
  if (r.p(0.4)) { // look-alikes: subaccounts that differ in one byte, principals that share a prefix
    const flip = (h) => { const i = r.pick([0, 0, 31, 31, r.int(32)]) * 2; return h.slice(0, i) + ((parseInt(h.slice(i, i + 2), 16) ^ r.pick([1, 0x80, 0xff])) & 255).toString(16).padStart(2, '0') + h.slice(i + 2); };
    for (let i = r.range(1, 3); i > 0; i--) subs.splice(r.range(1, subs.length), 0, flip(r.pick(subs.filter((s) => s !== null))));
    if (r.p(0.5)) { const u = r.pick(users); if (u.length === 58) users.push(r.p(0.5) ? u.slice(0, 54) + r.hex(1) + '02' : u.slice(0, r.range(3, 27) * 2) + '01'); }
  }
  plan.users = users; plan.subs = subs;
  plan.nsub = r.range(1, subs.length);
  const accs = []; for (let i = 0; i < Math.max(3, nu * 2); i++) accs.push([r.pick(users), subs[r.int(plan.nsub)]]);
  plan.accs = accs;
  // initial state
  const amount = () => r.p(pr.huge * 0.3) ? r.pick([U128 / 2n, U64, U64 + 1n, U128 - 10n * FEE, 1n << 100n]) : r.p(pr.tight) ? BigInt(r.range(1, 12)) * FEE + BigInt(r.range(-2, 2)) : r.p(0.2) ? r.big(20n * FEE) : 10n ** BigInt(r.range(10, 16));
  const tall = r.p(pr.tall); // a log long enough for block indices of three LEB128 bytes
  if (tall) plan.pr = { ...pr, upgArgs: 0 };
  let balances = []; const wide = !tall && r.p(pr.wide), nb = tall ? 16384 + r.pick([-40, -2, -1, 0, 1, 500]) : r.p(0.08) ? 0 : wide ? r.pick([r.range(100, 700), r.range(100, 700), r.range(900, 1400)]) : r.p(pr.manyInit) ? r.range(3, 12) : r.range(1, 5); let sum = 0n;
  for (let i = 0; i < nb; i++) { let n = i > 3 && (tall || wide && r.p(0.15)) ? BigInt(r.int(1000)) : amount(); if (n < 0n) n = 0n; if (sum + n > U128 && !r.p(0.02)) n = 1_000n * FEE; if (r.p(0.04)) n = 0n; sum += n; balances.push([wide && i > 3 ? [r.hex(28) + '02', r.p(0.5) ? null : r.hex(32)] : r.pick(accs), String(n)]); }
  const peak = !tall && r.p(pr.peak); if (peak) { plan.peak = true; balances = [[r.pick(accs.filter((a) => a[0] !== ANON).concat([accs[0]])), String(U128 - r.pick([0n, 0n, 0n, 1n, FEE - 1n, FEE, FEE + 1n]))]]; }
  const max = tall ? '2000' : r.p(pr.maxBlocks) ? r.pick(['0', '1', '2', '3', '7', '10', String(U64), String(U64 - 1n), '1000000']) : r.pick(['50', '100', '1000', '2000']);
  const t0 = r.p(pr.odd) ? r.pick([5n, DRIFT, WINDOW, WINDOW + DRIFT, WINDOW + DRIFT + 1n, 3n * DAY, U64 - 4n * DAY, U64 - DAY / 2n]) : 1_700_000_000_000_000_000n + r.big(10n * DAY);
  const base = prop !== 'general' && r.p(pr.base);
  plan.cfg = { start: base ? 'base' : 'cur', t0: String(t0), init: { max, index: r.p(0.3) ? (r.p(0.85) ? r.hex(8) + '0101' : r.pick([MGMT, ANON, r.hex(29), LEDGER])) : null, balances: balances.length || r.p(0.5) ? balances : null }, extra: String(r.p(0.3) ? 0n : r.big(100n * FEE)) };
  if (!base && r.p(pr.badInit)) plan.cfg.badInit = true;
  if (!base && r.p(pr.initTrap)) plan.cfg.fault = { p: r.f(), eff: r.p(0.7) };
  if (r.p(pr.dep)) plan.cfg.dep = true; else w.dep = 0;
  if (r.p(pr.cmc)) plan.cfg.cmc = true; else w.cmc = 0;
  plan.len = tall ? r.range(20, 50) : r.range(...pr.len);
  plan.baseLen = base ? r.range(...pr.baseLen) : 0;
  plan.opts = { metrics: pr.metrics, qpure: pr.qpure || r.p(0.1) };
  return plan;
}

export class Gen {
  constructor(plan, world) { this.p = plan; this.w = world; this.r = new Rng('run:' + plan.seed); this.n = 0; this.hist = []; this.phase = 0; this.fin = null; this.count = 0; this.bulks = 0; this.macro = []; }
  remember(a) { this.hist.push(a); if (this.hist.length > 40) this.hist.shift(); }
  acc() { const r = this.r; return r.p(0.85) ? r.pick(this.p.accs) : [r.pick(this.p.users), this.sub()]; }
  sub() { return this.p.subs[this.r.int(this.p.nsub)]; }
  anyTarget() { const r = this.r; return r.p(0.03) ? r.pick([[MGMT, null], [LEDGER, null], [CMC, null], [ANON, null], [r.hex(29), r.p(0.5) ? r.hex(32) : null]]) : this.acc(); }
  canister() { const r = this.r; return r.p(0.8) ? r.pick(['00000000010000010101', '00000000010000020101', '0000000001000003' + '0101', this.p.cfg.dep ? DEPOSITOR : '00000000010000020101']) : r.p(0.5) ? r.hex(8) + '0101' : r.pick([LEDGER, ANON, MGMT, CMC, r.hex(1), r.hex(29), r.hex(28) + '01', r.hex(7) + '02', r.hex(r.range(1, 27)) + '02', '02', r.hex(9) + '03', r.hex(28) + '00']); }
  rich(need = 2n * FEE) { const r = this.r, c = []; for (const [k, v] of this.w.M.bal) if (v >= need && !k.startsWith(MGMT + ':')) c.push(k); if (!c.length) return this.acc(); const [o, s] = r.pick(c).split(':'); return this.spell([o, s]); }
  spell(a) { return a[1] === Z ? [a[0], this.r.p(0.7) ? null : Z] : a; }
  // --- instants worth visiting
  instants() {
    const w = this.w, now = w.net.now, c = [];
    for (const e of w.M.allow.values()) if (e.exp > now && e.exp < U64 - 10n) c.push(e.exp);
    for (const o of w.pend.values()) if (o.old > now) c.push(o.old);
    let k = 0; for (const d of w.dedup.values()) { if (++k > 400) break; const e = d.cat + WINDOW + DRIFT; if (e > now && e < U64) c.push(e); }
    for (const q of this.future ?? []) if (q > now) c.push(q);
    return c;
  }
  advance() {
    const r = this.r, now = this.w.net.now, pr = this.p.pr; let t;
    if (r.p(pr.jump)) { const c = this.instants(); if (c.length) { t = r.pick(c) + BigInt(r.pick([-1, 0, 0, 1, 1])); if (t > now && (t - now < 2n * DAY || r.p(0.3))) return this.cap(t); } }
    if (r.p(pr.fastTime)) t = now + r.pick([S, 10n * S, DRIFT, DRIFT + 1n, 3600n * S, r.big(DAY), DAY]);
    else t = now + r.weighted([[0n, 0.25], [1n, 0.2], [BigInt(r.range(2, 5000)), 0.25], [r.big(S), 0.2], [r.big(30n * S), 0.1]]);
    return this.cap(t);
  }
  cap(t) { const m = U64 - 3600n * S; return t > m && t > this.w.net.now ? (this.w.net.now > m ? this.w.net.now : m) : t; }
  cat() {
    const r = this.r, now = this.at, pr = this.p.pr;
    if (!r.p(pr.cat)) return null;
    let v = now;
    if (this.hist.length && r.p(0.12)) { const o = this.hist[Math.max(0, this.hist.length - 1 - r.int(5))].a.cat; if (o !== null && o !== undefined) return o; } // many requests of one instant
    if (r.p(pr.edgeCat)) v = r.pick([now + DRIFT, now + DRIFT + 1n, now + DRIFT - 1n, now - WINDOW - DRIFT, now - WINDOW - DRIFT - 1n, now - WINDOW - DRIFT + 1n, now - WINDOW, now - WINDOW - 1n, now - WINDOW + r.big(DRIFT), 0n, 1n, U64, U64 - 1n, U64 - WINDOW, now + 2n * DRIFT, now - DAY / 2n]);
    else v = now - r.weighted([[0n, 0.5], [r.big(1000n), 0.3], [r.big(DRIFT), 0.2]]) + (r.p(0.1) ? r.big(DRIFT) : 0n);
    if (v < 0n) v = 0n; if (v > U64) v = U64;
    return String(v);
  }
  memo() {
    const r = this.r; if (!r.p(this.p.pr.memo)) return null;
    return r.weighted([[r.hex(r.range(1, 8)), 0.5], ['', 0.1], [r.hex(32), 0.12], [r.hex(31), 0.05], [this.inv(0.05) ? r.hex(33) : '07', 0.1], ['ff'.repeat(32), 0.04], ['fe'.repeat(32), 0.04], ['fd'.repeat(32), 0.03], [withdrawMemo(this.canister()).slice(0, 64), 0.05], ['00'.repeat(r.range(1, 32)), 0.04]]);
  }
  inv(p) { return this.r.p(Math.min(0.9, p * this.p.pr.invalid)); }
  fee() { const r = this.r; if (r.p(0.6)) return null; if (!this.inv(0.12)) return String(FEE); return String(r.pick([FEE - 1n, FEE + 1n, 0n, U64, U128, U128 + 1n, 1n << 200n, FEE * 2n])); }
  amount(k, lim, forSend) {
    const r = this.r, pr = this.p.pr, b = this.w.M.b(k); let v;
    const opts = [b - FEE, b - FEE + 1n, b - FEE - 1n, b, b - 2n * FEE, b / 2n];
    if (lim !== undefined && lim !== null && r.p(pr.edgeAllow)) v = r.pick([lim - FEE, lim - FEE, lim - FEE + 1n, lim - FEE - 1n, lim, lim / 2n]);
    else if (r.p(pr.big * (this.p.pr.invalid > 1 ? 1 : 0.6))) v = r.pick([U64, U64 + 1n, U64 + 1n + r.big(4n * FEE), (BigInt(r.range(1, 9)) << 64n) + r.big(b / 2n + 1n), U128, U128 + 1n, U128 + 1n + r.big(4n * FEE), U128 - FEE, U128 - FEE + 1n, 1n << 200n, U128 - b]);
    else if (r.p(this.inv(0.12) ? 0.6 : 0.1)) v = r.pick(opts);
    else if (r.p(pr.small)) v = r.pick([0n, 1n, FEE - 1n, FEE, FEE + 1n, 2n * FEE, 2n * FEE - 1n, 2n * FEE + 1n, 3n * FEE, 3n * FEE + 1n]);
    else v = r.pick([BigInt(r.range(1, 1000)), FEE * BigInt(r.range(1, 9)) + r.big(FEE), r.big(b / 3n + 1n), r.big(20n * FEE), r.big(FEE * 4n)]);
    if (forSend && v < 3n * FEE && r.p(0.4)) v = FEE * BigInt(r.range(2, 7)) + r.big(FEE);
    if (v < 0n) v = 0n;
    return String(v);
  }
  pairFor(needEff) { // an existing (from, spender) pair
    const r = this.r, c = []; for (const [pk, e] of this.w.M.allow) { if (!this.w.pairs.has(pk)) continue; const live = e.exp === 0n || e.exp > this.at; if (live || r.p(0.25)) c.push(pk); if (c.length > 60) break; }
    if (!c.length) return null;
    const [f, s] = this.w.pairs.get(r.pick(c)); return [this.spell(f), this.spell(s), this.w.M.eff(f, s, this.at).amt];
  }
  fromPair() { // account, spender, remaining allowance
    const r = this.r;
    if (!r.p(this.p.pr.stranger)) { const p = this.pairFor(); if (p) return p; }
    const f = this.rich(), s = r.p(0.2) ? (r.p(0.6) ? f : [f[0], this.sub()]) : this.acc();
    return [f, s, null];
  }
  cmcArgs() {
    const r = this.r; if (!r.p(this.p.pr.args)) return undefined;
    const o = {};
    if (r.p(0.8)) { const s = o.settings = {};
      if (r.p(0.5)) { s.controllers = []; const n = r.p(0.2) ? 0 : r.p(0.08) ? r.range(10, 17) : r.range(1, 3); for (let i = 0; i < n; i++) s.controllers.push(r.p(0.5) ? r.pick(this.p.users) : r.p(0.8) ? r.hex(8) + '0101' : LEDGER); }
      for (const k of ['compute_allocation', 'memory_allocation', 'freezing_threshold', 'reserved_cycles_limit', 'wasm_memory_limit', 'wasm_memory_threshold']) if (r.p(0.35)) s[k] = String(r.pick([0n, 1n, r.big(1000n), r.big(U64), U64, U128 + 5n]));
      if (r.p(0.3)) s.log_visibility = r.pick(['controllers', 'public', ['04', r.hex(10)]]);
      if (r.p(0.25)) s.environment_variables = [['A', r.hex(2)], ['b', '']].slice(0, r.range(1, 2));
    }
    if (r.p(0.4)) o.subnet = r.p(0.5) ? { subnet: r.hex(29) } : { type: r.p(0.6) ? 'fiduciary' : null };
    return o;
  }
  faults(a, resp) {
    const r = this.r, pr = this.p.pr;
    if (r.p(resp ? pr.respTrap : pr.trap)) a.f = { p: Math.floor(r.f() * 1e4) / 1e4, eff: r.p(0.7) };
    else if (r.p(pr.gf)) a.gf = 1;
    if (!resp && /withdraw|create/.test(a.m ?? '') || a.c === 'dep') {
      if (r.p(pr.ll)) a.ll = String(r.pick([0n, 1n, FEE, r.big(10n * FEE)]));
      else if (r.p(pr.pf)) a.pf = r.pick([1, 2, 2, 3]);
    }
    return a;
  }
  req(kind) {
    const r = this.r, id = 'r' + this.n++, a = { t: 'req', n: id, at: String(this.at) };
    const own = (from) => { a.by = from[0]; return from[1]; };
    switch (kind) {
      case 'transfer': { const f = r.p(0.9) ? this.rich() : this.acc(); a.m = 'icrc1_transfer'; const to = r.p(0.12) ? f : this.anyTarget(); a.a = { fs: own(f), to, amt: this.amount(key(f)), fee: this.fee(), memo: this.memo(), cat: this.cat() }; break; }
      case 'tfrom': { const [f, s, l] = this.fromPair(); a.m = 'icrc2_transfer_from'; a.by = s[0]; a.a = { ss: s[1], from: f, to: r.p(0.15) ? f : this.anyTarget(), amt: this.amount(key(f), l), fee: this.fee(), memo: this.memo(), cat: this.cat() }; break; }
      case 'approve': {
        let f = this.rich(FEE), sp = r.p(0.03) ? [MGMT, null] : this.acc();
        const ex = r.p(0.4) ? this.pairFor() : null; if (ex) { f = ex[0]; sp = ex[1]; }
        if (sp[0] === f[0] && !this.inv(0.06)) { const o = this.p.users.filter((u) => u !== f[0]); if (o.length) sp = [r.pick(o), sp[1]]; }
        a.m = 'icrc2_approve';
        const cur = this.w.M.eff(f, sp, this.at).amt, b = this.w.M.b(key(f));
        let exp = null;
        if (r.p(this.p.pr.exp)) {
          const c = this.instants();
          exp = this.inv(0.06) ? r.pick([0n, this.at, this.at - 1n, 1n, this.at - DAY]) : c.length && r.p(0.3) ? r.pick(c) : this.at + r.weighted([[1n, 0.08], [2n, 0.04], [BigInt(r.range(1, 100000)), 0.2], [r.big(10n * S), 0.25], [r.big(3600n * S), 0.2], [r.big(2n * DAY), 0.2], [U64, 0.03]]);
          if (exp < 0n) exp = 0n; if (exp > U64) exp = U64;
        }
        const amt = r.weighted([[0n, 0.06], [FEE + r.big(5n * FEE), 0.25], [BigInt(r.range(1, 10)) * FEE, 0.2], [b, 0.08], [1n, 0.03], [U64, 0.02], [U128, 0.04], [U128 + 1n, 0.02], [1n << 200n, 0.01], [r.big(b + FEE), 0.15], [10n * FEE + r.big(100n * FEE), 0.25], [cur, 0.03]]);
        a.a = { fs: own(f), sp, amt: String(amt), xa: r.p(this.p.pr.xa) ? String(r.weighted([[cur, 0.65], [cur + 1n, 0.1], [cur > 0n ? cur - 1n : 7n, 0.1], [0n, 0.1], [U128 + 1n, 0.03], [this.w.M.allow.get(key(f) + '|' + key(sp))?.amt ?? 0n, 0.1]])) : null, exp: exp === null ? null : String(exp), fee: this.fee(), memo: this.memo(), cat: this.cat() };
        break;
      }
      case 'withdraw': { const f = r.p(0.93) ? this.rich() : this.acc(); a.m = 'withdraw'; a.a = { fs: own(f), to: this.inv(0.05) ? r.hex(28) + '02' : this.canister(), amt: this.inv(0.03) ? '0' : this.amount(key(f), null, true), cat: this.cat() }; break; }
      case 'wfrom': { const [f, s, l] = this.fromPair(); a.m = 'withdraw_from'; a.by = s[0]; a.a = { ss: s[1], from: f, to: this.inv(0.05) ? r.hex(28) + '02' : this.canister(), amt: this.inv(0.03) ? '0' : this.amount(key(f), l, true), cat: this.cat() }; break; }
      case 'create': { const f = r.p(0.93) ? this.rich() : this.acc(); a.m = 'create_canister'; a.a = { fs: own(f), amt: this.cmcAmount(this.amount(key(f), null, true)), cat: this.cat(), args: this.cmcArgs() }; break; }
      case 'cfrom': { const [f, s, l] = this.fromPair(); a.m = 'create_canister_from'; a.by = s[0]; a.a = { ss: s[1], from: f, amt: this.cmcAmount(this.amount(key(f), l, true)), cat: this.cat(), args: this.cmcArgs() }; break; }
      case 'deposit': { a.m = 'deposit'; a.by = r.pick([DEPOSITOR, '00000000010000770101', this.p.users[0]]); a.a = { to: this.anyTarget(), memo: this.memo() }; a.cyc = this.depCycles(); break; }
      case 'dep': { a.m = 'deposit'; a.c = 'dep'; a.by = r.pick(this.p.users); a.a = { cycles: this.depCycles(), to: this.acc(), memo: this.memo() }; break; }
      case 'cmc': { a.c = 'cmc'; a.by = r.pick(this.p.users);
        if (r.p(0.6)) { a.m = 'fail_next_create_canister_with'; a.a = r.p(0.65) ? { k: 'refunded', amt: String(r.pick([0n, 1n, FEE, FEE + 1n, 2n * FEE, r.big(100n * FEE), 1000n * FEE])), msg: 'm' + r.int(9) } : { k: 'refundfailed', msg: 'c' + r.int(9), msg2: 'r' + r.int(9) }; } else { a.m = 'create_canister'; a.cyc = String(r.pick([0n, 1n, 100_000_000_000n - 1n, 100_000_000_000n, 100_000_000_001n, r.big(10n ** 12n)])); a.a = { args: this.cmcArgs() ?? {} }; }
        break; }
    }
    return this.faults(a, false);
  }
  cmcAmount(x) { if (!this.p.cfg.cmc) return x; const r = this.r; return r.p(0.4) ? String(r.pick([100_000_000_000n, 100_000_000_000n - 1n, 100_000_000_000n + r.big(10n ** 10n)])) : x; }
  depCycles() {
    const r = this.r, w = this.w;
    let v = this.inv(0.15) ? r.pick([0n, 1n, FEE, FEE - 1n]) : r.p(this.p.pr.huge * 0.5) ? r.pick([U64, U64 + 1n, U128 - w.M.supply + FEE, U128 - w.M.supply + FEE + 1n, (U128 - w.M.supply) / 2n, 1n << 110n]) : r.pick([FEE + 1n, FEE + BigInt(r.range(1, 100)), 2n * FEE, r.big(30n * FEE), 1000n * FEE, 10n * FEE + r.big(FEE)]);
    if (v < 0n) v = 0n; if (v > U128) v = U128;
    return String(v);
  }
  // A repeat of an earlier request, exact or changed in one place.
  retry() {
    const r = this.r; if (!this.hist.length) return null;
    const old = r.p(0.6) ? this.hist[Math.max(0, this.hist.length - 1 - r.int(6))] : r.pick(this.hist);
    const a = { t: 'req', n: 'r' + this.n++, at: String(this.at), m: old.m, by: old.by, a: structuredClone(old.a) };
    if (old.cyc) a.cyc = old.cyc;
    if (r.p(0.4)) { // a near-duplicate
      const k = r.pick(Object.keys(a.a)), v = a.a[k], o = a.a;
      if (k === 'amt') o.amt = String(BigInt(v) + BigInt(r.pick([1, 1, -1])) * 1n).replace('-', '');
      else if (k === 'fee') o.fee = v === null ? String(FEE) : null;
      else if (k === 'memo') o.memo = v === null ? r.pick(['', '01']) : r.pick([null, v.slice(2), v.slice(0, -2) + '99']);
      else if (k === 'cat') o.cat = v === null ? null : String(BigInt(v) + BigInt(r.pick([1, -1])) < 0n ? 0n : BigInt(v) >= U64 ? U64 : BigInt(v) + 1n);
      else if (k === 'fs' || k === 'ss') o[k] = v === null ? Z : v === Z ? null : this.sub();
      else if (k === 'exp') o.exp = v === null ? String(this.at + S) : r.p(0.5) ? null : String(BigInt(v) + 1n > U64 ? U64 : BigInt(v) + 1n);
      else if (k === 'xa') o.xa = v === null ? '0' : null;
      else if (k === 'args') { o.args = this.cmcArgs(); if (o.args === undefined) delete o.args; }
      else if (k === 'from') { if (r.p(0.5)) o.from = [v[0], v[1] === null ? Z : v[1] === Z ? null : v[1]]; else o.from = this.rich(); }
      else if (Array.isArray(v)) o[k] = r.p(0.5) ? [v[0], v[1] === null ? Z : v[1] === Z ? null : this.sub()] : this.acc();
      else if (k === 'to') o.to = this.canister();
      if (r.p(0.15)) a.by = r.pick(this.p.users);
      if (o.amt && BigInt(o.amt) < 0n) o.amt = '0';
    }
    if (r.p(0.1)) this.faults(a, false);
    return a;
  }
  dlv(clean) {
    const r = this.r, ids = [...this.w.net.queue.keys()]; if (!ids.length) return null;
    const id = clean ? ids[0] : r.p(0.5) ? r.pick(ids) : r.p(0.5) ? ids[0] : ids[ids.length - 1];
    const item = this.w.net.queue.get(id), op = this.w.pend.get(id);
    if (!clean && op?.old > this.w.net.now && op.old < U64 - 10n && r.p(this.p.pr.edgeDlv)) { const t = op.old + BigInt(r.pick([-1, 0, 0, 1])); if (t >= this.w.net.now && (t - this.w.net.now < 2n * DAY || r.p(0.3))) this.at = this.cap(t); }
    const a = { t: 'dlv', id, at: String(this.at) };
    if (item.kind === 'response') { if (!clean) this.faults(a, true); return a; }
    const pr = this.p.pr;
    if (item.from === this.w.dep) { if (!clean && r.p(pr.depReject)) a.o = { k: 'reject', code: r.pick([1, 2, 3, 4, 5]), msg: 'down ' + r.int(5) }; else if (!clean && item.bestEffort && r.p(0.2)) a.lost = 1; else if (!clean) this.faults(a, false); return a; }
    if (item.from === this.w.cmcCan) { a.o = !clean && r.p(0.2) ? { k: 'exists' } : { k: 'ok', cid: r.hex(8) + '0101' }; return a; }
    if (item.to === CMC && this.w.cmcCan) { return a; }
    if (clean || r.p(pr.ok)) a.o = { k: 'ok', cid: r.hex(8) + '0101' };
    else if (item.to === CMC && r.p(0.55)) { const at = item.cycles; const v = r.pick([at, at - 1n, at / 2n, at - 1_000_000n, FEE, FEE + 1n, FEE - 1n, 2n * FEE, 2n * FEE + 1n, 0n, 1n, r.big(at + 1n)]); a.o = r.p(0.09) && !this.w.onBase ? { k: 'garbled', amt: String(v < 0n ? 0n : v > at ? at : v), how: r.pick(['variant', 'none', 'text', 'void', '4449444c0001', '00']), msg: 'new ' + r.int(9) } : r.p(0.75) ? { k: 'refunded', amt: String(v < 0n ? 0n : v > at ? at : v), msg: 'cmc ' + r.int(9) } : { k: 'refundfailed', msg: 'c' + r.int(9), msg2: 'r' + r.int(9) }; } else if (r.p(0.06)) a.o = { k: 'unknown' };
    else a.o = { k: 'reject', code: r.p(0.08) ? r.pick([7, 8, 100]) : r.pick([1, 2, 3, 4, 5]), msg: r.pick(['', 'no', 'IC0302: canister stopped', 'x'.repeat(40), 'caf\u00e9 \u2603', 'x'.repeat(r.int(3)) + '\u00e9'.repeat(r.pick([150, 700])), '\u{1F980}'.repeat(r.pick([60, 300, 600]))]) };
    if (!clean) this.faults(a, true);
    return a;
  }
  // --- short directed sequences, mixed into the random ones -------------------------------
  // Each is a list of steps evaluated one by one; unrelated random actions come in between.
  two() { // an owner account that can pay, and a spender of another principal
    const f = this.rich(60n * FEE), o = this.p.users.filter((u) => u !== f[0] && u !== MGMT);
    return this.w.M.b(key(f)) >= 60n * FEE && o.length ? [f, [this.r.pick(o), this.r.p(0.5) ? null : this.sub()]] : null;
  }
  mk(m, by, a) { if (a.cat && BigInt(a.cat) > U64) a.cat = String(U64); return { t: 'req', n: 'r' + this.n++, at: String(this.at), m, by, a }; }
  mkApprove(f, s, amt, exp) { if (exp !== null) exp = exp < 0n ? 0n : exp > U64 ? U64 : exp; return this.mk('icrc2_approve', f[0], { fs: f[1], sp: s, amt: String(amt), xa: null, exp: exp === null ? null : String(exp), fee: null, memo: null, cat: this.cat() }); }
  mkTfrom(f, s, amt) { return this.mk('icrc2_transfer_from', s[0], { ss: s[1], from: f, to: this.acc(), amt: String(amt), fee: null, memo: null, cat: this.cat() }); }
  mkSend(f, s, amt, cat) { // withdraw_from or create_canister_from, or without spender their direct forms
    const w = this.r.p(0.5), c = cat === undefined ? this.cat() : cat;
    if (!s) return w ? this.mk('withdraw', f[0], { fs: f[1], to: this.canister(), amt: String(amt), cat: c }) : this.mk('create_canister', f[0], { fs: f[1], amt: String(amt), cat: c, args: this.cmcArgs() });
    return w ? this.mk('withdraw_from', s[0], { ss: s[1], from: f, to: this.canister(), amt: String(amt), cat: c }) : this.mk('create_canister_from', s[0], { ss: s[1], from: f, amt: String(amt), cat: c, args: this.cmcArgs() });
  }
  goto(t) { this.at = this.cap(t > this.w.net.now ? t : this.w.net.now); }
  // An allowance ends (revoked, used up or replaced) and is granted anew; its old expiry passes.
  m_requeue() {
    const p = this.two(); if (!p) return null; const [f, s] = p, r = this.r; let t1, amt = FEE * BigInt(r.range(2, 9));
    const t2 = () => r.weighted([[null, 0.4], [t1 + 3600n * S, 0.4], [t1 + 1n, 0.1], [t1, 0.1]]);
    const look = () => ({ t: 'q', m: 'allowance', at: String(this.at), by: s[0], f, s });
    return [
      () => { t1 = this.at + r.pick([10n, 1000n, 10n * S, 600n * S]); return this.mkApprove(f, s, amt, t1); },
      () => { const k = r.pick(['zero', 'use', 'use', 'none', 'replace', 'part']); return k === 'zero' ? this.mkApprove(f, s, 0n, r.p(0.5) ? null : this.at + 5n) : k === 'use' ? this.mkTfrom(f, s, amt - FEE) : k === 'part' ? this.mkTfrom(f, s, amt / 2n - FEE) : k === 'replace' ? this.mkApprove(f, s, amt, this.at + r.big(3600n * S) + 1n) : null; },
      () => this.mkApprove(f, s, amt + 1n, t2()),
      () => { this.goto(t1 + BigInt(r.pick([-1, 0, 1, 1, 1000]))); return this.mkApprove(f, [s[0], r.hex(32)], FEE, this.at + 1n); },
      look,
      () => { this.goto(this.at + 1n); return this.mkTfrom(f, s, r.pick([0n, 1n, amt + 1n - FEE])); },
      () => r.p(0.5) ? this.mkApprove(f, s, 0n, null) : null,
      look,
    ];
  }
  // an amount beyond 64 bits for accounts that have it
  wideAmt(f) { const b = this.w.M.b(key(f)); return b > 1n << 66n && this.r.p(0.5) ? this.r.pick([1n << 64n, 1n << 65n, b / 2n]) : 0n; }
  // Two spends of different allowances are in flight at once; both fail, in either order.
  m_overlap() {
    const p = this.two(), q = this.two(); if (!p || !q) return null; const r = this.r;
    const e = () => r.p(0.35) ? null : this.at + r.pick([5n * S, 100n * S, 7200n * S, DAY]);
    const amt = () => FEE * BigInt(r.range(2, 12)) + r.big(FEE), a1 = amt() + this.wideAmt(p[0]), a2 = amt();
    const fail = () => { const d = this.dlv(false); if (d && d.o && d.o.k === 'ok' && r.p(0.8)) d.o = { k: 'reject', code: r.pick([1, 2, 3, 4, 5]), msg: 'overlap' }; return d; };
    const ap = (x, n) => () => this.mkApprove(x[0], x[1], n + FEE + r.pick([0n, 0n, 1n, FEE, 5n * FEE]), e());
    return [ap(p, a1), ap(q, a2), () => this.mkSend(p[0], p[1], a1), () => this.mkSend(q[0], r.p(0.8) ? q[1] : null, a2), () => r.p(0.4) ? this.mkApprove(p[0], p[1], r.pick([0n, 3n * FEE]), e()) : null, fail, () => r.p(0.3) ? this.upgOr() : null, fail, () => this.mkTfrom(p[0], p[1], r.pick([1n, FEE]))];
  }
  quiet() { const a = this.dlv(true); if (a) this.macro.unshift(() => this.quiet()); return a; } // everything outstanding, delivered
  upgOr() { return this.w.led.contexts.size ? null : this.upg(); }
  // One spend is in flight while its allowance changes or runs out.
  m_inflight() {
    const p = this.two(); if (!p) return null; const [f, s] = p, r = this.r, amt = FEE * BigInt(r.range(2, 9)) + r.pick([0n, 1n, FEE - 1n]) + this.wideAmt(f); let t1 = null, id;
    return [
      () => { if (r.p(0.75)) t1 = this.at + r.pick([50n, 10n * S, 600n * S]); return this.mkApprove(f, s, amt + FEE + r.pick([0n, 0n, 1n, FEE, 4n * FEE]), t1); },
      () => this.mkSend(f, s, amt),
      () => { id = [...this.w.pend.keys()].pop(); const k = r.int(5); return k === 0 ? this.mkApprove(f, s, r.pick([0n, FEE, U64, U128]), r.p(0.4) ? null : this.at + r.pick([1n, 20n * S, DAY])) : k === 1 ? this.mkTfrom(f, s, r.pick([0n, 1n, FEE])) : k === 2 ? this.mk('icrc1_transfer', f[0], { fs: f[1], to: this.acc(), amt: String(this.amount(key(f))), fee: null, memo: null, cat: null }) : null; },
      () => { if (!id || !this.w.net.queue.has(id)) return null; if (t1 !== null && r.p(0.7)) this.goto(t1 + BigInt(r.pick([-1, 0, 0, 1]))); const item = this.w.net.queue.get(id); if (item.kind === 'response' || (item.to === CMC && this.w.cmcCan)) return { t: 'dlv', id, at: String(this.at) }; return { t: 'dlv', id, at: String(this.at), o: item.to === CMC && r.p(0.4) ? { k: 'refunded', amt: String(r.pick([amt, 2n * FEE, 2n * FEE + 1n, FEE + 1n])), msg: 'inflight' } : { k: 'reject', code: r.pick([1, 2, 3, 4, 5, 7]), msg: 'inflight' } }; },
      () => ({ t: 'q', m: 'allowance', at: String(this.at), by: s[0], f, s }),
      () => this.mkTfrom(f, s, r.pick([0n, 1n, amt - FEE])),
    ];
  }
  // A request with created_at_time is repeated while in flight, after its end, after an upgrade,
  // and after the balance or allowance it used is gone.
  // Two accounts that look alike (subaccounts or principals that differ little), used side by side.
  m_alike() {
    const r = this.r, rich = this.rich(80n * FEE), u = r.p(0.6) ? rich[0] : r.pick(this.p.users.filter((x) => x !== MGMT)); if (this.w.M.b(key(rich)) < 80n * FEE) return null;
    const x = r.hex(30), z = '00'.repeat(30);
    const [s1, s2] = r.pick([['ff' + z + '00', 'ff' + z + 'ff'], ['ff'.repeat(32), 'ff'.repeat(31) + '00'], ['00' + x + '00', '00' + x + '01'], ['01' + x + 'aa', '00' + x + 'aa'], [null, z + '0001'], [null, '01' + z + '00'], [null, '00'.repeat(15) + '01' + '00'.repeat(16)], ['80' + x + 'ff', '00' + x + 'ff'], [z + '0001', '01' + z + '00'], ['00'.repeat(16) + x.slice(0, 32), 'ff'.repeat(16) + x.slice(0, 32)], [x.slice(0, 32) + '00'.repeat(16), x.slice(0, 32) + '01'.repeat(16)]]);
    let a = [u, s1], b = [u, s2];
    if (r.p(0.2)) { const h = r.hex(8); a = [h + '0101', s1]; b = [r.p(0.5) ? h + '0102' : h + '01', s1]; }
    if (r.p(0.5)) [a, b] = [b, a];
    const o = this.p.users.filter((y) => y !== a[0] && y !== b[0]); if (!o.length) return null; const sp = [r.pick(o), r.p(0.5) ? null : this.sub()];
    const send = (to, n) => () => this.mk('icrc1_transfer', rich[0], { fs: rich[1], to, amt: String(n), fee: null, memo: null, cat: null });
    const look = (y) => () => r.p(0.3) ? { t: 'q', m: 'balance', at: String(this.at), by: ANON, acc: y } : null;
    const steps = [send(a, r.pick([1n, 20n * FEE, 20n * FEE])), look(b), send(b, 15n * FEE), look(a), () => this.mkApprove(a, sp, 9n * FEE, null), () => this.mkTfrom(b, sp, FEE), () => r.p(0.4) ? this.mkApprove(b, sp, 5n * FEE, null) : null, () => r.p(0.4) ? this.mkSend(b, sp, 2n * FEE) : null, () => this.mkTfrom(a, sp, FEE), () => this.mk('icrc1_transfer', b[0], { fs: b[1], to: a, amt: String(FEE), fee: null, memo: null, cat: this.cat() })];
    if (r.p(0.5)) { const c = [sp[0], s1], d = [sp[0], s2]; if (key(c) !== key(d) && c[0] !== a[0]) steps.push(() => this.mkApprove(a, c, 4n * FEE, null), () => this.mkTfrom(a, d, FEE), () => this.mkTfrom(a, c, FEE)); }
    return steps;
  }
  // Many calls outstanding at the same time, answered in some order.
  m_storm() {
    const r = this.r, n = r.pick([24, 36, 36, 70, 70, 140]), need = BigInt(n + 8) * 5n * FEE, f = this.rich(need); if (this.bulks > 1 || this.w.M.b(key(f)) < need || this.w.cmcCan) return null;
    const o = this.p.users.filter((u) => u !== f[0] && u !== MGMT), sp = o.length && r.p(0.4) ? [r.pick(o), this.sub()] : null;
    const send = (c) => ({ t: 'bulk', k: 'send', n: 'r' + this.n++, at: String(this.at), by: f[0], fs: f[1], sp, way: r.pick(['mixed', 'withdraw', 'create']), to: '00000000010000010101', amt: String(3n * FEE), cat: r.p(0.4), count: c, dt: r.pick([0, 1, 1]) });
    const answer = (c) => ({ t: 'bulk', k: 'answer', at: String(this.at), order: r.pick(['old', 'new', 'mid']), every: r.pick([0, 2, 3, 5]), count: c, dt: 1 });
    return [() => { this.bulks++; return sp ? this.mkApprove(f, sp, need, r.p(0.5) ? null : this.at + 3600n * S) : null; }, () => send(n), () => this.mk('withdraw', f[0], { fs: f[1], to: this.canister(), amt: String(2n * FEE), cat: null }), () => answer(r.pick([n >> 1, n - 3, n + 9])), () => r.p(0.3) ? send(5) : null, () => answer(r.pick([n, 3]))];
  }
  // A spend of an allowance is in flight while the allowance is replaced by one that runs out,
  // behind more expired approvals than housekeeping removes on the way.
  m_pile() {
    const p = this.two(); if (!p || this.bulks > 2) return null; const [f, s] = p, r = this.r, count = r.pick([101, 205, 230, 330]), need = BigInt(count + 60) * FEE;
    if (this.w.M.b(key(f)) < need) return null; let id, t; const amt = FEE * BigInt(r.range(3, 9));
    return [() => this.mkApprove(f, s, amt + FEE + r.pick([0n, FEE]), r.p(0.6) ? null : this.at + 7200n * S), () => this.mkSend(f, s, amt),
      () => { this.bulks++; id = [...this.w.pend.keys()].pop(); t = this.at + BigInt(count + 5); return { t: 'bulk', k: 'approve', n: 'r' + this.n++, at: String(this.at), by: f[0], fs: f[1], sp: s[0], amt: String(FEE), exp: String(t + BigInt(count)), count, dt: r.pick([0, 1]) }; },
      () => { t = this.w.net.now + BigInt(2 * count + 50); return this.mkApprove(f, s, r.pick([1n, 7n * FEE]), t); },
      () => { if (!id || !this.w.net.queue.has(id)) return null; this.goto(t + BigInt(r.pick([-1, 0, 1]))); return { t: 'dlv', id, at: String(this.at), o: { k: 'reject', code: r.pick([1, 2, 3, 4, 5]), msg: 'pile' } }; },
      () => ({ t: 'q', m: 'allowance', at: String(this.at), by: s[0], f, s }),
      () => this.mkTfrom(f, s, r.pick([0n, amt - FEE])), () => ({ t: 'q', m: 'list', at: String(this.at), by: f[0], from: [f[0], null], prev: null, take: null })];
  }
  // The whole supply of 2^128 - 1 (or little less) in one account: sums with the fee overflow.
  m_peak() {
    const r = this.r, f = this.rich(U128 - 2n * FEE); if (this.w.M.b(key(f)) < U128 - 2n * FEE) return null; const b = () => this.w.M.b(key(f));
    const go = (v) => () => { let amt = v(); amt = String(amt < 0n ? 0n : amt); const w = r.int(4); return w < 2 ? this.mk('icrc1_transfer', f[0], { fs: f[1], to: r.p(0.2) ? f : this.acc(), amt, fee: r.p(0.3) ? String(FEE) : null, memo: null, cat: null }) : w === 2 ? this.mk('withdraw', f[0], { fs: f[1], to: this.canister(), amt, cat: null }) : this.mk('create_canister', f[0], { fs: f[1], amt, cat: null, args: undefined }); };
    return [go(() => r.pick([U128, U128, U128 - 1n])), go(() => r.pick([U128 - FEE + 1n, U128, b()])), go(() => b() - FEE + 1n), go(() => r.p(0.5) ? b() - FEE : U128 - FEE - 1n), () => this.dlv(false), go(() => r.pick([U128, b() - FEE]))];
  }
  // A request, then more requests than any bounded memory of them might hold, then the request again.
  m_crowd() {
    const r = this.r, f = this.rich(700n * FEE); if (this.bulks > 2 || this.w.M.b(key(f)) < 700n * FEE) return null;
    let orig; const again = () => orig && { ...structuredClone(orig), n: 'r' + this.n++, at: String(this.at), f: undefined };
    return [() => orig = r.p(0.5) ? this.mkSend(f, null, 3n * FEE, String(this.at)) : this.mk('icrc1_transfer', f[0], { fs: f[1], to: this.acc(), amt: '7', fee: null, memo: null, cat: String(this.at) }),
      () => { this.bulks++; return { t: 'bulk', k: 'xfer', n: 'r' + this.n++, at: String(this.at), by: f[0], fs: f[1], to: this.acc(), amt: '5', cat: true, count: r.pick([110, 140, 270, 430]), dt: 1 }; },
      again, () => this.mk('icrc1_transfer', f[0], { fs: f[1], to: this.acc(), amt: '5', fee: null, memo: null, cat: String(this.at) }), again];
  }
  m_again() {
    const r = this.r, f = this.rich(4n * FEE), b = this.w.M.b(key(f)); if (b < 4n * FEE) return null;
    const amt = r.pick([b - FEE, b - 2n * FEE, b / 2n + FEE, 2n * FEE]); let orig;
    const again = () => orig && { ...structuredClone(orig), n: 'r' + this.n++, at: String(this.at), f: undefined };
    const use = r.p(0.4) ? this.two() : null;
    const go = () => orig = use ? this.mkSend(use[0], use[1], 5n * FEE, String(this.at)) : r.p(0.6) ? this.mkSend(f, null, amt, String(this.at)) : this.mk('icrc1_transfer', f[0], { fs: f[1], to: this.acc(), amt: String(amt), fee: null, memo: null, cat: String(this.at) });
    const d = () => this.dlv(false);
    if (r.p(0.2)) { // an approval with an expected allowance or an expiry, repeated after what it refers to has changed
      const q = this.two(); if (!q) return null; const [o, s] = q; let x;
      const ag = () => x && { ...structuredClone(x), n: 'r' + this.n++, at: String(this.at), f: undefined };
      return [() => r.p(0.5) ? this.mkApprove(o, s, 3n * FEE, r.p(0.3) ? this.at + 100n * S : null) : null, () => x = this.mk('icrc2_approve', o[0], { fs: o[1], sp: s, amt: String(7n * FEE), xa: r.p(0.7) ? String(this.w.M.eff(o, s, this.at).amt) : null, exp: r.p(0.6) ? String(this.at + r.pick([5n, 10n * S])) : null, fee: null, memo: null, cat: String(this.at) }), ag, () => r.p(0.5) ? this.mkTfrom(o, s, FEE) : this.mkApprove(o, s, FEE, null), ag, () => this.upgOr(), () => { this.goto(this.at + r.pick([5n, 10n * S])); return ag(); }];
    }
    return [() => use ? this.mkApprove(use[0], use[1], 6n * FEE, r.p(0.5) ? null : this.at + 20n * S) : null, go, () => r.p(0.6) ? again() : null, () => { if (orig && r.p(0.12)) this.goto(BigInt(orig.a.cat ?? 0) + WINDOW + BigInt(r.pick([-1, 0, 1])) * DRIFT + BigInt(r.pick([-1, 0, 1]))); return null; }, d, again, () => r.p(0.4) ? this.quiet() : null, () => this.upgOr(), again, () => use && r.p(0.5) ? this.mkApprove(use[0], use[1], 0n, null) : null, again, () => { this.goto(BigInt(orig?.a.cat ?? 0) + WINDOW + BigInt(r.pick([-1, 0, 1])) * DRIFT + BigInt(r.pick([-1, 0, 1]))); return r.p(0.3) ? again() : null; }];
  }
  // Requests that are alike in everything but one field, all of one created_at_time and all
  // executable: none is a repeat of another.
  m_twins() {
    const p = this.two(); if (!p) return null; const r = this.r, [f, s] = p, w = this.w;
    const others = this.p.users.filter((u) => u !== f[0] && u !== MGMT);
    const s2 = r.p(0.5) ? [r.pick(others), s[1]] : [s[0], s[1] === null ? this.p.subs.find((x) => x !== null && x !== Z) ?? 'ab'.repeat(32) : null];
    if (key(s2) === key(s)) s2[1] = 'ab'.repeat(32);
    const f2 = this.rich(30n * FEE), cat = String(this.at), to = this.acc(), to2 = this.acc(), can = this.canister(), amt = String(FEE * BigInt(r.range(2, 4)));
    const args = this.cmcArgs(), k = r.pick(['tfrom', 'tfrom', 'wfrom', 'cfrom', 'transfer', 'transfer', 'approve', 'withdraw', 'create']);
    const memo = r.p(0.4) ? null : r.hex(r.p(0.35) ? r.pick([31, 32, 32]) : r.range(1, 32)), xmemo = () => r.pick([null, '', '00', '0000', (memo ?? '').slice(0, 62) + '01', (memo ?? '').slice(0, -2) + 'a7', 'a7' + (memo ?? '').slice(2)]);
    const fee = r.p(0.5) ? null : String(FEE), exp = String(this.at + 10n * DAY);
    const put = (x) => { const o = x.from ?? f, sp = x.sp ?? s, c = cat;
      const a = { amt: x.amt ?? amt, cat: c };
      switch (k) {
        case 'transfer': return this.mk('icrc1_transfer', o[0], { fs: o[1], to: x.to ?? to, amt: a.amt, fee: 'fee' in x ? x.fee : fee, memo: 'memo' in x ? x.memo : memo, cat: c });
        case 'tfrom': return this.mk('icrc2_transfer_from', sp[0], { ss: sp[1], from: o, to: x.to ?? to, amt: a.amt, fee: 'fee' in x ? x.fee : fee, memo: 'memo' in x ? x.memo : memo, cat: c });
        case 'approve': return this.mk('icrc2_approve', o[0], { fs: o[1], sp, amt: a.amt, xa: x.xa ?? null, exp: 'exp' in x ? x.exp : exp, fee: 'fee' in x ? x.fee : fee, memo: 'memo' in x ? x.memo : memo, cat: c });
        case 'withdraw': return this.mk('withdraw', o[0], { fs: o[1], to: x.can ?? can, amt: a.amt, cat: c });
        case 'wfrom': return this.mk('withdraw_from', sp[0], { ss: sp[1], from: o, to: x.can ?? can, amt: a.amt, cat: c });
        case 'create': return this.mk('create_canister', o[0], { fs: o[1], amt: a.amt, cat: c, args: 'args' in x ? x.args : args });
        case 'cfrom': return this.mk('create_canister_from', sp[0], { ss: sp[1], from: o, amt: a.amt, cat: c, args: 'args' in x ? x.args : args });
      } };
    const vary = () => { const fields = { transfer: ['to', 'amt', 'memo', 'fee', 'from'], tfrom: ['sp', 'sp', 'to', 'amt', 'memo', 'fee', 'from'], approve: ['sp', 'amt', 'exp', 'memo', 'fee', 'from'], withdraw: ['can', 'amt', 'from'], wfrom: ['sp', 'sp', 'can', 'amt', 'from'], create: ['amt', 'from', 'args'], cfrom: ['sp', 'sp', 'amt', 'from', 'args'] }[k];
      switch (r.pick(fields)) { case 'to': return { to: to2 }; case 'amt': return { amt: String(BigInt(amt) + BigInt(r.pick([1, -1, 256]))) }; case 'memo': return { memo: xmemo() }; case 'fee': return { fee: fee === null ? String(FEE) : null }; case 'from': return { from: r.p(0.5) ? f2 : [f[0], f[1] === null ? Z : f[1] === Z ? null : f[1]] }; case 'sp': return { sp: s2 }; case 'can': return { can: this.canister() }; case 'exp': return { exp: r.p(0.5) ? null : String(BigInt(exp) + 1n) }; case 'args': return { args: this.cmcArgs() }; } };
    const big = 40n * FEE, needs = /from/.test(k);
    const steps = needs ? [() => this.mkApprove(f, s, big, null), () => this.mkApprove(f, s2, big, null), () => r.p(0.3) && f2[0] !== s[0] ? this.mkApprove(f2, s, big, null) : null] : [];
    const orig = [];
    const go = (x) => () => { const a = put(x); orig.push(a); return a; };
    const rep = () => { if (!orig.length) return null; const a = structuredClone(r.pick(orig)); a.n = 'r' + this.n++; a.at = String(this.at); return a; };
    const n = r.range(1, 4); steps.push(go({})); for (let i = 0; i < n; i++) steps.push(go(vary()));
    steps.push(() => r.p(0.4) ? this.dlv(false) : null, rep, () => r.p(0.3) ? this.upgOr() : null, rep, () => { this.goto(BigInt(cat) + WINDOW + DRIFT + BigInt(r.pick([-1, 0, 1]))); return r.p(0.5) ? rep() : null; }, rep);
    return steps;
  }
  // A request at the edge of the window: executed, and repeated around the end of its window.
  m_edge() {
    const r = this.r, f = this.rich(4n * FEE), base = this.at; let orig;
    const cat = base + r.pick([0n, 0n, DRIFT, -WINDOW, -DRIFT, -WINDOW - DRIFT, -DAY / 2n]); if (cat < 0n) return null;
    const again = () => orig && { ...structuredClone(orig), n: 'r' + this.n++, at: String(this.at), f: undefined };
    const k = r.int(3), send = () => k === 0 ? this.mk('icrc1_transfer', f[0], { fs: f[1], to: this.acc(), amt: '1', fee: null, memo: null, cat: String(cat) }) : k === 1 ? this.mkApprove(f, [this.p.users.find((u) => u !== f[0]) ?? '0101', null], FEE, null) : this.mkSend(f, null, 2n * FEE, String(cat));
    const tick = () => this.mk('icrc1_transfer', f[0], { fs: f[1], to: this.acc(), amt: '2', fee: null, memo: null, cat: null });
    const end = cat + WINDOW + DRIFT;
    return [() => { orig = send(); if (orig.a.cat) orig.a.cat = String(cat > U64 ? U64 : cat); return orig; }, () => r.p(0.5) ? this.dlv(false) : null, () => { this.goto(end - 1n); return r.p(0.5) ? tick() : again(); }, () => { this.goto(end); return r.p(0.5) ? tick() : again(); }, again, () => { this.goto(end + 1n); return r.p(0.5) ? tick() : again(); }, again];
  }
  upg() {
    const r = this.r, a = { t: 'upg', at: String(this.at) };
    a.a = r.p(this.p.pr.upgArgs) ? r.weighted([['empty', 0.12], [{ none: 1 }, 0.1], ['init', 0.12], [{ bare: 1, max: '77' }, 0.08], [this.upgArgs(), 0.6]]) : null;
    if (r.p(0.12)) a.f = { p: r.f(), eff: r.p(0.7) };
    if (r.p(0.4)) a.first = r.pick(['list', 'tip', 'list']);
    if (this.w.onBase) a.w = 'base';
    return a;
  }
  upgArgs() { const r = this.r, o = {}; if (r.p(0.6)) o.max = r.p(this.p.pr.maxBlocks) ? r.pick(['0', '1', '2', '5', String(U64)]) : r.pick(['50', '100', '500', '1000']); if (r.p(0.5)) o.index = r.p(0.35) ? 'unset' : r.p(0.85) ? r.hex(8) + '0101' : r.pick([MGMT, ANON, r.hex(29), LEDGER]); if (r.p(0.1)) o.bare = 1; return o; }
  query() {
    const r = this.r, w = this.w, m = r.pick(this.p.pr.queries), a = { t: 'q', m, at: String(this.at), by: r.pick(this.p.users) }, n = BigInt(w.log.length);
    const num = () => String((() => { const v = r.pick([0n, 1n, n, n - 1n, n + 1n, n / 2n, w.conf.max, w.conf.max + 1n, 2n, r.big(n + 2n), U64, U64 + 1n, U64 - 1n, U128, 1n << 200n, 100n, 128n, 129n]); return v < 0n ? 0n : v; })());
    switch (m) {
      case 'blocks': { a.r = []; const c = r.p(0.05) ? 0 : r.p(0.06) ? r.pick([17, 33, 65, 101, 130]) : r.range(1, 5); for (let i = 0; i < c; i++) a.r.push(r.p(0.5) ? [String(r.big(n + 1n)), String(r.range(0, 6))] : [num(), num()]); break; }
      case 'list': { const o = r.pick(this.p.users); const f = [...w.pairs.values()]; const pr = f.length ? r.pick(f) : null;
        a.from = r.p(0.1) ? null : pr && r.p(0.7) ? pr[0] : [o, this.sub()];
        if (a.from && r.p(0.3)) a.from = [a.from[0], r.pick([null, Z, 'ff'.repeat(32), this.sub()])];
        a.prev = r.p(0.45) && pr ? (r.p(0.7) ? pr[1] : [pr[1][0], r.pick([null, Z, 'ff'.repeat(32), this.sub()])]) : r.p(0.1) ? this.acc() : null;
        a.take = r.p(0.4) ? null : r.pick(['0', '1', '2', '3', '10', '499', '500', '501', String(U64), String(1n << 70n)]); break; }
      case 'pages': a.from = r.p(0.1) ? null : [this.rich(0n)[0], null]; { const f = [...w.pairs.values()]; if (f.length && r.p(0.8)) a.from = [r.pick(f)[0][0], null]; } a.take = r.pick(['1', '2', '3', '7', '100', null, '500']); break;
      case 'balance': a.acc = this.anyTarget(); break;
      case 'allowance': { const p = r.p(0.8) ? this.pairFor() : null; a.f = p ? p[0] : this.acc(); a.s = p ? p[1] : this.anyTarget(); break; }
      case 'http': a.url = r.pick(['/metrics', '/logs', '/', '/metrics?x=1', '/nothing', '/dashboard', '/metricsx', '']); break;
    }
    return a;
  }
  bulk() {
    const r = this.r; if (this.bulks++ > 3) return null;
    const f = this.rich(300n * FEE); const k = r.weighted([['approve', 0.7], ['xfer', 0.3]]);
    const count = k === 'approve' ? r.pick([99, 100, 101, 130, 205, 230, 340, ...(this.p.prop === 'C21' ? [505, 520] : [])]) : r.pick([40, 130, 140]);
    if (this.w.M.b(key(f)) < BigInt(count + 2) * 2n * FEE) return null;
    const o = this.p.users.filter((u) => u !== f[0]); if (!o.length) return null;
    if (k === 'approve') return { t: 'bulk', k, n: 'r' + this.n++, at: String(this.at), by: f[0], fs: f[1], sp: r.pick(o), amt: String(FEE * 3n), exp: r.p(0.8) ? String(this.at + BigInt(count * 2) + r.pick([1n, 1000n, S, 100n * S])) : null, count, dt: r.p(0.9) ? 1 : 0 };
    return { t: 'bulk', k, n: 'r' + this.n++, at: String(this.at), by: f[0], fs: f[1], to: this.acc(), amt: '5', cat: r.p(0.5), count, dt: 1 };
  }
  // No 64-bit argument may exceed its type (plans reach the end of time).
  next() {
    const a = this.next1();
    if (a && a.a && typeof a.a === 'object') for (const k of ['cat', 'exp']) if (a.a[k] !== null && a.a[k] !== undefined && BigInt(a.a[k]) > U64) a.a[k] = String(U64);
    return a;
  }
  next1() {
    const r = this.r, w = this.w, p = this.p;
    if (this.fin) return this.fin.length ? this.finNext() : null;
    this.at = this.advance();
    if (w.onBase && this.count >= p.baseLen) {
      if (w.net.queue.size) return this.dlv(true);
      this.count = 0; return { t: 'upg', at: String(this.at), a: r.p(0.8) ? null : this.upgArgs(), ...(r.p(0.3) ? { first: r.pick(['list', 'tip']) } : {}) };
    }
    if (!w.onBase && this.count >= p.len) { this.fin = ['drain']; return this.finNext(); }
    this.count++;
    if (p.peak && this.count === 1 && !w.onBase) this.macro = this.m_peak() ?? [];
    if (this.macro.length ? r.p(p.peak && this.count < 6 ? 1 : 0.75) : r.p(p.pr.macro)) {
      if (!this.macro.length) this.macro = this['m_' + r.pick(p.pr.macros)]() ?? [];
      if (this.macro.length) {
        this.at = this.cap(w.net.now + r.pick([0n, 1n, 1n, BigInt(r.range(1, 1000)), r.big(S)]));
        const a = this.macro.shift()();
        if (a) { if (a.t === 'req') this.remember(a); return a; }
      }
    }
    for (let tries = 0; tries < 20; tries++) {
      let k = r.weighted(Object.entries(p.w)), a = null;
      if (k === 'dlv') a = this.dlv(false);
      else if (k === 'upg') { if (w.led.contexts.size) { if (r.p(0.7)) a = this.dlv(false); } else a = this.upg(); } else if (k === 'q') a = this.query();
      else if (k === 'tick') a = { t: 'tick', at: String(this.at) };
      else if (k === 'bulk') a = this.bulk();
      else if (k === 'retry') a = this.retry();
      else a = this.req(k);
      if (!a) continue;
      if (a.t === 'req' && !a.c) this.remember(a);
      return a;
    }
    return { t: 'tick', at: String(this.at) };
  }
  // Faults have stopped: everything must work again, at the first attempt.
  finNext() {
    const r = this.r, w = this.w;
    this.at = this.cap(w.net.now + BigInt(r.range(1, 1000)));
    const at = String(this.at);
    for (;;) {
      const s = this.fin.shift(); if (!s) return null;
      const u = this.p.users.find((x) => x !== ANON && x !== DEPOSITOR) ?? this.p.users[0], v = '00000000010000660101', id = () => 'z' + this.n++;
      switch (s) {
        case 'drain': if (w.net.queue.size) { this.fin.unshift('drain'); return this.dlv(true); } this.fin.push('deposit', 'approve', 'transfer', 'tfrom', 'withdraw', 'drain2', 'wfrom', 'create', 'cfrom', 'drain2', 'upg', 'deposit', 'end'); break;
        case 'drain2': if (w.net.queue.size) { this.fin.unshift('drain2'); return this.dlv(true); } break;
        case 'deposit': { if (w.M.supply + 5000n * FEE > U128 || w.impossible(5000n * FEE)) { this.fin = w.net.queue.size ? ['drain2', 'end'] : ['end']; break; } return { t: 'req', n: id(), at, m: 'deposit', by: v, cyc: String(4000n * FEE), a: { to: [u, null], memo: null } }; }
        case 'approve': return { t: 'req', n: id(), at, m: 'icrc2_approve', by: u, a: { fs: null, sp: [v, null], amt: String(100n * FEE), xa: null, exp: null, fee: null, memo: null, cat: at } };
        case 'transfer': return { t: 'req', n: id(), at, m: 'icrc1_transfer', by: u, a: { fs: null, to: [v, null], amt: '12345', fee: String(FEE), memo: '01', cat: at } };
        case 'tfrom': return { t: 'req', n: id(), at, m: 'icrc2_transfer_from', by: v, a: { ss: null, from: [u, null], to: [v, Z], amt: '77', fee: null, memo: null, cat: null } };
        case 'withdraw': return { t: 'req', n: id(), at, m: 'withdraw', by: u, a: { fs: null, to: '00000000010000010101', amt: String(2n * FEE), cat: at } };
        case 'wfrom': return { t: 'req', n: id(), at, m: 'withdraw_from', by: v, a: { ss: null, from: [u, null], to: '00000000010000010101', amt: String(3n * FEE), cat: null } };
        case 'create': return { t: 'req', n: id(), at, m: 'create_canister', by: u, a: { fs: null, amt: String(1500n * FEE), cat: at } };
        case 'cfrom': return { t: 'req', n: id(), at, m: 'create_canister_from', by: v, a: { ss: null, from: [u, null], amt: String(5n * FEE), cat: null } };
        case 'upg': return { t: 'upg', at, a: null };
        case 'end': return { t: 'end', at };
      }
    }
  }
}
