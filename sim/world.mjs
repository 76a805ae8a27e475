// The simulated world: the real ledger (and, in some runs, the real depositor and
// fake-cmc canisters) on the simulated platform, next to two independent oracles:
//   M  - a request-driven reference model (what each request/response must do),
//   R  - a block-driven model (what the appended blocks say happened).
// Every action is a plain JSON object; executing a list of actions is a pure function
// of that list and the canister code.
import { Net, hex, unhex, SimError } from './ic.mjs';
import { T, encode, decode, cbor, treeRoot, treeLeaves, hashValue, leb, sha256 } from './candid.mjs';
import * as Ty from './types.mjs';

export const FEE = 100_000_000n, U128 = (1n << 128n) - 1n, U64 = (1n << 64n) - 1n;
export const WINDOW = 86_400_000_000_000n, DRIFT = 60_000_000_000n;
export const LEDGER = '00000000020000020101', CMC = '00000000000000040101', MGMT = '', DEPOSITOR = '00000000030000050101', ANON = '04';
export const Z = '00'.repeat(32);
const PENALIZE = 'ff'.repeat(32), CREATE = 'fe'.repeat(32), REFUND = 'fd'.repeat(32);
const REJ = { 1: 'SysFatal', 2: 'SysTransient', 3: 'DestinationInvalid', 4: 'CanisterReject', 5: 'CanisterError', 6: 'Unknown' };
const MAX_SOFT = 60;

// An allowance's expiry as answered: 0 for none, -1 for an expiry that is present but zero.
const expOf = (v) => v.expires_at === undefined || v.expires_at === null ? 0n : v.expires_at === 0n ? -1n : v.expires_at;
export const key = (a) => a[0] + ':' + (a[1] ?? Z);
export const unkey = (k) => { const [o, s] = k.split(':'); return [o, s]; };
const pkey = (f, s) => key(f) + '|' + key(s);
const min = (a, b) => a < b ? a : b;
const big = (s) => s === null || s === undefined ? null : BigInt(s);
const selfAuth = (p) => p.length === 58 && p.slice(56) === '02';
export const tooOld = (cat, now) => cat !== null && min(min(cat + WINDOW, U64) + DRIFT, U64) < now;
export const inFuture = (cat, now) => cat !== null && cat > min(now + DRIFT, U64);
const canon = (o) => Array.isArray(o) ? '[' + o.map(canon).join(',') + ']' : o && typeof o === 'object' ? '{' + Object.keys(o).filter((k) => o[k] !== undefined && o[k] !== null).sort().map((k) => k + ':' + canon(o[k])).join(',') + '}' : String(o);
const vj = (v) => { switch (v.tag) { case 'Nat': case 'Nat64': return 'n' + v.val; case 'Int': return 'i' + v.val; case 'Blob': return 'b' + hex(v.val); case 'Text': return 't' + v.val; case 'Array': return v.val.map(vj); case 'Map': { const o = {}; for (const e of v.val) o[e['0']] = vj(e['1']); return o; } default: return '?'; } };
const accV = (a) => a[1] === null ? ['b' + a[0]] : ['b' + a[0], 'b' + a[1]];
const nV = (n) => n === null || n === undefined ? undefined : 'n' + n;
const bV = (h) => h === null || h === undefined ? undefined : 'b' + h;
const normTx = (tx) => { const t = { ...tx }; for (const k of ['from', 'to', 'spender']) if (Array.isArray(t[k])) t[k] = [t[k][0], t[k][1] ?? 'b' + Z]; return canon(t); };
const cmpP = (a, b) => a.length - b.length || (a < b ? -1 : a > b ? 1 : 0);
const cmpAcc = (a, b) => cmpP(a[0], b[0]) || ((a[1] ?? Z) < (b[1] ?? Z) ? -1 : (a[1] ?? Z) > (b[1] ?? Z) ? 1 : 0);
export const withdrawMemo = (to) => { const n = to.length / 2; return '81' + (n < 24 ? (0x40 + n).toString(16).padStart(2, '0') : '58' + n.toString(16).padStart(2, '0')) + to; };
const txt = (x) => JSON.stringify(x, (k, v) => typeof v === 'bigint' ? v.toString() : v instanceof Uint8Array ? hex(v) : v);

// The textual form of a principal: CRC-32 and bytes in base 32, in groups of five.
export function principalText(h) {
  const b = unhex(h); let c = 0xffffffff;
  for (const x of b) { c ^= x; for (let i = 0; i < 8; i++) c = (c >>> 1) ^ (c & 1 ? 0xedb88320 : 0); }
  c = ~c >>> 0;
  let o = '', acc = 0, n = 0;
  for (const x of [c >>> 24, (c >>> 16) & 255, (c >>> 8) & 255, c & 255, ...b]) { acc = (acc << 8) | x; n += 8; while (n >= 5) { o += 'abcdefghijklmnopqrstuvwxyz234567'[(acc >>> (n - 5)) & 31]; n -= 5; } acc &= (1 << n) - 1; }
  if (n) o += 'abcdefghijklmnopqrstuvwxyz234567'[(acc << (5 - n)) & 31];
  return o.match(/.{1,5}/g).join('-');
}

class Book { // balances, allowances, supply
  constructor() { this.bal = new Map(); this.allow = new Map(); this.supply = 0n; }
  b(k) { return this.bal.get(k) ?? 0n; }
  add(k, n) { this.bal.set(k, this.b(k) + n); }
  eff(f, s, now) { const e = this.allow.get(pkey(f, s)); return e && (e.exp === 0n || e.exp > now) ? e : { amt: 0n, exp: 0n }; }
  set(f, s, amt, exp) { const k = pkey(f, s); if (amt === 0n) this.allow.delete(k); else this.allow.set(k, { amt, exp }); }
  use(f, s, x) { const k = pkey(f, s), e = this.allow.get(k); if (!e) return false; const r = e.amt - x; if (r === 0n) this.allow.delete(k); else this.allow.set(k, { amt: r, exp: e.exp }); return r >= 0n; }
  clone() { const c = new Book(); c.bal = new Map(this.bal); c.allow = new Map(this.allow); c.supply = this.supply; return c; }
}

export class World {
  constructor(mods, cfg, opts = {}) {
    this.mods = mods; this.cfg0 = cfg; this.opts = opts;
    this.net = new Net(); this.net.debug = !!opts.debug; this.net.now = BigInt(cfg.t0);
    this.M = new Book(); this.R = new Book();
    this.log = [];            // {c: canonical block without phash, h: hex hash | null, ts}
    this.dedup = new Map();   // tx key -> {idx, cat, cid, create, upg}
    this.dedupAlt = new Map();// normalised key -> Set(tx key)
    this.cycles = 0n; this.conf = { max: BigInt(cfg.init.max), index: cfg.init.index ?? null };
    this.pend = new Map();    // call id -> op
    this.reqs = new Map();    // request n -> {out, cnt, ...}
    this.known = new Map(); this.byOwner = new Map();   // account key -> account (for observation)
    this.pairs = new Map();   // pair key -> [from, spender]
    this.received = new Map();// cycles delivered per principal
    this.deps = new Map();    // depositor request n -> state
    this.cmcReqs = new Map(); this.cmc = { failNext: null, last: null, cycles: 0n };
    this.step = 0; this.viol = []; this.soft = 0; this.softTags = {}; this.msgs = 0; this.upgrades = 0; this.onBase = cfg.start === 'base';
    this.ev = sha256(new Uint8Array(0)); this.sig = []; this.rndObs = 0x9e3779b9;
    this.stats = { steps: 0, faults: {}, methods: {}, outcomes: {}, probes: {}, msgs: 0, queries: 0, blocks: 0 };
    this.aborted = null; this.lastBTs = 0n; this.prevGauges = null; this.baseSeen = this.onBase;
  }
  count(o, k, n = 1) { this.stats[o][k] = (this.stats[o][k] ?? 0) + n; }
  probe(k) { this.count('probes', k); }
  expect(ok, tags, msg) {
    if (ok) return true;
    if (this.onBase) { this.dirty = true; return false; }
    this.viol.push({ tags: [...new Set(tags)], msg, step: this.step }); this.dirty = true;
    return false;
  }
  know(a) { const k = key(a); if (!this.known.has(k)) { this.known.set(k, [a[0], a[1] ?? Z]); const o = this.byOwner.get(a[0]); if (o) o.push(k); else this.byOwner.set(a[0], [k]); } return k; }
  knowPair(f, s) { const k = pkey(f, s); if (!this.pairs.has(k)) this.pairs.set(k, [[f[0], f[1] ?? Z], [s[0], s[1] ?? Z]]); return k; }
  note(s) { this.ev = sha256(this.ev, Buffer.from(s)); if (this.opts.trace) this.opts.trace(s); }
  inWindow(cat) { return !tooOld(cat, this.net.now); }

  // ---- observation ---------------------------------------------------------------
  q(m, types, vals, by = ANON) {
    this.stats.queries++;
    const c = this.led.query(m, unhex(by), encode(types, vals));
    if (c.trap !== null && c.trap !== undefined) return { trap: c.trap };
    if (!c.reply) return { trap: c.rejected ?? 'no reply' };
    try { return { v: decode(c.reply)[0], raw: c.reply }; } catch (e) { return { trap: 'undecodable reply: ' + e.message }; }
  }
  ask(m, types, vals, by, tags = []) {
    const r = this.q(m, types, vals, by);
    this.expect(!r.trap, ['C32', ...tags], `query ${m} failed: ${r.trap}`);
    return r.v;
  }
  balOf(k) { return this.ask('icrc1_balance_of', [Ty.Account], [Ty.acc(unkey(k))]); }
  allowOf(pk) { const [f, s] = this.pairs.get(pk); const v = this.ask('icrc2_allowance', [Ty.AllowanceArgs], [{ account: Ty.acc(f), spender: Ty.acc(s) }]); return v && { amt: v.allowance, exp: expOf(v) }; }
  rawBlocks(start, length) { return this.ask('icrc3_get_blocks', [Ty.GetBlocks], [[{ start: BigInt(start), length: BigInt(length) }]], ANON, ['C26']); }
  // All blocks from index `from` on; null contents if the configured maximum is 0.
  fetch(from, count = Infinity) {
    const out = []; let len = null;
    for (let guard = 0; guard < 10000; guard++) {
      const r = this.rawBlocks(from + out.length, Math.min(1_000_000, count - out.length)); if (!r) return null;
      len = Number(r.log_length);
      for (const b of r.blocks) { if (Number(b.id) !== from + out.length) { this.expect(false, ['C22', 'C26'], `get_blocks(${from + out.length}) returned block id ${b.id}`); return null; } out.push(b.block); }
      if (from + out.length >= len || out.length >= count || r.blocks.length === 0) break;
    }
    return { len, blocks: out };
  }
  gauges() {
    const v = this.ask('http_request', [Ty.Http], [{ url: '/metrics', method: 'GET', body: new Uint8Array(0), headers: [] }]);
    if (!v) return null;
    if (!this.expect(v.status_code === 200, ['C32'], `/metrics status ${v.status_code}`)) return null;
    const g = {};
    for (const l of Buffer.from(v.body).toString().split('\n')) { const m = /^(cycles_ledger_\w+) (\S+)/.exec(l); if (m) g[m[1].slice(14)] = Number(m[2]); const b = /^cycle_balance\{canister="cycles-ledger"\} (\S+)/.exec(l); if (b) g.labelled_balance = Number(b[1]); }
    return g;
  }
  checkTip(tags) {
    const tc = this.ask('icrc3_get_tip_certificate', [], [], ANON, ['C25']);
    if (tc === undefined) return;
    if (!this.expect(tc !== null, ['C25'], 'no tip certificate in a query')) return;
    let tree, root;
    try { tree = cbor(tc.hash_tree); root = hex(treeRoot(tree)); } catch (e) { this.expect(false, ['C25'], 'undecodable hash tree: ' + e.message); return; }
    const certified = hex(this.led.certified);
    this.expect(hex(tc.certificate) === hex(this.net.certificate(this.led)), ['C25'], 'certificate is not the platform certificate');
    const L = treeLeaves(tree), n = this.log.length;
    if (n === 0) { this.expect(certified === '' || certified === root, ['C25', ...tags], 'certified data without blocks'); return; }
    this.expect(root === certified, ['C25', ...tags], `tip hash tree root ${root} is not the certified data ${certified || '(none)'}`);
    const idx = L.last_block_index, h = L.last_block_hash;
    this.expect(idx && hex(idx) === hex(leb(BigInt(n - 1))), ['C25', ...tags], `tip certificate: last_block_index ${idx ? hex(idx) : 'missing'}, expected leb128(${n - 1})`);
    const last = this.log[n - 1];
    if (last.h === null && h) last.h = hex(h);
    this.expect(h && hex(h) === last.h, ['C25', ...tags], `tip certificate: last_block_hash ${h ? hex(h) : 'missing'} is not the hash of block ${n - 1} (${last.h})`);
  }
  // Reads newly appended blocks, compares them with the expected ones, replays them in R.
  readNew(exp, tags, now) {
    const prev = this.log.length;
    const f = this.fetch(prev);
    if (!f) return;
    if (f.len < prev) { this.expect(false, ['C22', ...tags], `log length went from ${prev} to ${f.len}`); this.relog(); return; }
    const n = f.len - prev;
    if (exp !== null) this.expect(n === exp.length, ['C23', 'C24', ...tags], `${n} blocks appended, expected ${exp.length}`);
    if (this.conf.max === 0n) { // contents not observable now
      for (let i = 0; i < n; i++) { const e = exp?.[i]; this.log.push({ c: e ? canon({ ...e, ts: 'n' + now }) : null, h: null, ts: now }); if (e) this.replay(e); }
      this.stats.blocks += n; return;
    }
    for (let i = 0; i < f.blocks.length; i++) this.oneBlock(f.blocks[i], exp?.[i] ?? null, tags, now);
    this.stats.blocks += f.blocks.length;
    this.expect(f.blocks.length === n, ['C26'], `get_blocks returned ${f.blocks.length} of ${n} new blocks`);
  }
  oneBlock(v, e, tags, now) {
    const idx = this.log.length;
    const h = hex(hashValue(v)), b = vj(v), prevH = idx ? this.log[idx - 1].h : undefined;
    const ph = b.phash; delete b.phash;
    if (idx === 0) this.expect(ph === undefined, ['C22', ...tags.filter((t) => t === 'C27' || t === 'C28')], 'first block has a parent hash');
    else if (prevH !== null) this.expect(ph === 'b' + prevH, ['C22', ...tags.filter((t) => ['C27', 'C28', 'C05'].includes(t))], `block ${idx}: phash ${ph} is not the hash of block ${idx - 1} (${prevH})`);
    const ts = typeof b.ts === 'string' ? BigInt(b.ts.slice(1)) : -1n;
    this.expect(ts === now, ['C22', 'C24', ...tags.filter((t) => t === 'C09' || t === 'C11')], `block ${idx}: timestamp ${ts}, ledger time ${now}`);
    this.expect(ts >= this.lastBTs, ['C22'], `block ${idx}: timestamp ${ts} before ${this.lastBTs}`);
    this.lastBTs = ts;
    const keys = Object.keys(b).filter((k) => !['tx', 'ts', 'fee'].includes(k));
    this.expect(keys.length === 0 && b.tx && typeof b.tx.op === 'string', ['C24'], `block ${idx}: unexpected shape ${canon(b)}`);
    const c = canon(b);
    if (e) { const x = canon({ ...e, ts: 'n' + ts }); this.expect(c === x, ['C24', ...tags], `block ${idx} is ${c}, expected ${x}`); }
    this.log.push({ c, h, ts });
    if (!b.tx) return;
    if (!this.replay(b)) this.expect(false, ['C23', ...tags], `block ${idx} cannot be replayed: ${c}`);
    if (b.tx.ts !== undefined) this.addDedup(b.tx, idx);
  }
  addDedup(tx, idx) {
    const k = canon(tx); if (this.dedup.has(k) && this.dedup.get(k).idx === idx) return;
    const a = normTx(tx);
    this.dedup.set(k, { idx, cat: BigInt(tx.ts.slice(1)), cid: null, upg: this.upgrades, base: this.onBase, create: tx.op === 'tburn' && tx.memo === 'b' + CREATE });
    if (!this.dedupAlt.has(a)) this.dedupAlt.set(a, new Set());
    this.dedupAlt.get(a).add(k);
  }
  // Applies one block to the block-driven model, from the block alone.
  replay(b) {
    const R = this.R, tx = b.tx, n = (s) => s === undefined ? 0n : BigInt(s.slice(1));
    const A = (x) => [x[0].slice(1), x[1] ? x[1].slice(1) : null];
    const fee = tx.fee !== undefined ? n(tx.fee) : n(b.fee), amt = n(tx.amt);
    let ok = true;
    const use = (f, x) => { if (tx.spender) { const s = A(tx.spender); this.know(s); if (key(s) !== key(f)) { this.knowPair(f, s); if (!R.use(f, s, x)) ok = false; } } };
    try {
      switch (tx.op) {
        case 'tmint': { const t = A(tx.to); this.know(t); R.add(key(t), amt); R.supply += amt; break; }
        case 'tburn': { const f = A(tx.from); this.know(f); const x = amt + n(b.fee); use(f, x); R.add(key(f), -x); R.supply -= x; if (R.b(key(f)) < 0n) ok = false; break; }
        case 'txfer': { const f = A(tx.from), t = A(tx.to); this.know(f); this.know(t); use(f, amt + fee); R.add(key(f), -(amt + fee)); if (R.b(key(f)) < 0n) ok = false; R.add(key(t), amt); R.supply -= fee; break; }
        case 'tapprove': { const f = A(tx.from), s = A(tx.spender); this.know(f); this.knowPair(f, s); R.add(key(f), -fee); R.supply -= fee; if (R.b(key(f)) < 0n) ok = false; R.set(f, s, amt, n(tx.expires_at)); break; }
        default: ok = false;
      }
    } catch (e) { return false; }
    return ok;
  }
  relog() { // resynchronise the log from observation
    const f = this.fetch(0); if (!f) return;
    this.log = f.blocks.map((v) => { const b = vj(v); delete b.phash; return { c: canon(b), h: hex(hashValue(v)), ts: BigInt((b.ts ?? 'n0').slice(1)) }; });
    while (this.log.length < f.len) this.log.push({ c: null, h: null, ts: 0n });
  }
  // Compares observed state of the given accounts/pairs with both models.
  compare(accs, pairs, tags, who, used) {
    const now = this.net.now;
    const s = this.ask('icrc1_total_supply', [], []);
    if (s !== undefined) {
      this.expect(s === this.M.supply, ['C01', 'C32', ...tags], `total supply is ${s}, expected ${this.M.supply}`);
      this.expect(s === this.R.supply, ['C23', 'C01'], `total supply is ${s}, the blocks imply ${this.R.supply}`);
      this.obsSupply = s;
      this.expect(this.led.cycles >= s, ['C02'], `ledger holds ${this.led.cycles} cycles but total supply is ${s}`);
    }
    this.expect(this.led.cycles === this.cycles, [...tags, ...(this.led.cycles < this.cycles ? ['C02'] : [])], `ledger holds ${this.led.cycles} cycles, expected ${this.cycles}`);
    for (const k of accs) {
      const o = this.balOf(k); if (o === undefined) continue;
      const m = this.M.b(k), r = this.R.b(k);
      if (o !== m) {
        const t = ['C32', ...tags];
        if (o < m && who && !who.includes(k)) t.push('C16');
        this.expect(false, t, `balance of ${k} is ${o}, expected ${m}`);
      }
      this.expect(o === r, ['C23'], `balance of ${k} is ${o}, the blocks imply ${r}`);
    }
    for (const p of pairs) {
      if (!this.pairs.has(p)) continue;
      const o = this.allowOf(p); if (!o) continue;
      const [f, sp] = this.pairs.get(p); const m = this.M.eff(f, sp, now), r = this.R.eff(f, sp, now), raw = this.M.allow.get(p);
      if (raw && raw.exp !== 0n && raw.exp <= now) this.probe(raw.exp === now ? 'allowance-at-its-expiry' : 'expired-allowance-observed');
      if (o.amt !== m.amt || o.exp !== m.exp) {
        const t = ['C17', 'C32', ...tags];
        if (raw && raw.exp !== 0n) t.push('C18');
        if (raw && o.amt === 0n && m.amt > 0n) t.push('C30');
        if (used === p && o.amt > m.amt) t.push('C16');
        this.expect(false, t, `allowance ${p} is ${o.amt} (expires ${o.exp}) at ${now}, expected ${m.amt} (expires ${m.exp})`);
      }
      this.expect(o.amt === r.amt && o.exp === r.exp, ['C23', ...(raw && raw.exp !== 0n ? ['C18'] : [])], `allowance ${p} is ${o.amt} (expires ${o.exp}) at ${now}, the blocks imply ${r.amt} (expires ${r.exp})`);
    }
  }
  // Full audit of everything observable.
  sweep(tags, deep) {
    this.compare([...this.known.keys()], [...this.pairs.keys()], tags, null);
    let sum = 0n;
    for (const k of this.known.keys()) { const o = this.balOf(k); if (o !== undefined) sum += o; }
    if (this.obsSupply !== undefined) this.expect(sum === this.obsSupply, ['C01', ...tags], `sum of balances ${sum} but total supply ${this.obsSupply}`);
    this.checkTip(tags);
    const g = this.gauges();
    if (g) {
      const now = this.net.now;
      const live = [...this.M.allow.values()].filter((e) => e.exp === 0n || e.exp > now), all = this.M.allow.size;
      const inw = [...this.dedup.values()].filter((d) => this.inWindow(d.cat)).length;
      const nz = [...this.M.bal.values()].filter((x) => x > 0n).length;
      this.expect(g.number_of_blocks === this.log.length, ['C32', 'C22', ...tags], `metrics: ${g.number_of_blocks} blocks, expected ${this.log.length}`);
      this.expect(g.number_of_balances >= nz && g.number_of_balances <= this.known.size, ['C32', 'C01', 'C30', ...tags], `metrics: ${g.number_of_balances} balances, expected ${nz}..${this.known.size}`);
      this.expect(g.number_of_approvals >= live.length && g.number_of_approvals <= all, ['C32', 'C30', ...tags], `metrics: ${g.number_of_approvals} approvals, expected ${live.length}..${all}`);
      const le = live.filter((e) => e.exp > 0n).length, ae = [...this.M.allow.values()].filter((e) => e.exp > 0n).length;
      this.expect(g.number_of_approval_expiration_entries >= le && g.number_of_approval_expiration_entries <= ae, ['C32', 'C30', ...tags], `metrics: ${g.number_of_approval_expiration_entries} expiration entries, expected ${le}..${ae}`);
      this.expect(g.number_of_approvals - g.number_of_approval_expiration_entries === all - ae, ['C30', 'C32', ...tags], `metrics: ${g.number_of_approvals} approvals with ${g.number_of_approval_expiration_entries} expiration entries, but ${all - ae} approvals never expire`);
      for (const n of ['number_of_transaction_hashes', 'number_of_transaction_timestamps']) this.expect(g[n] >= inw && g[n] <= this.dedup.size, ['C32', 'C30', 'C13', ...tags], `metrics: ${n} ${g[n]}, expected ${inw}..${this.dedup.size}`);
      this.expect(this.obsSupply === undefined || g.total_supply === Number(this.obsSupply), ['C32', ...tags], `metrics: total supply ${g.total_supply}, expected ${this.obsSupply}`);
      this.expect(Math.abs(g.cycle_balance - Number(this.led.cycles)) <= 1, ['C32'], `metrics: cycle balance ${g.cycle_balance}, actual ${this.led.cycles}`);
      this.expect(g.labelled_balance === g.cycle_balance, ['C32'], `metrics: cycle_balance{canister="cycles-ledger"} ${g.labelled_balance} but cycles_ledger_cycle_balance ${g.cycle_balance}`);
      this.expect(g.stable_memory_pages === Number(this.led.stable.pages) && g.stable_memory_bytes === 65536 * g.stable_memory_pages, ['C32'], `metrics: stable memory of ${g.stable_memory_pages} pages, ${g.stable_memory_bytes} bytes, actual ${this.led.stable.pages} pages`);
      this.gaugesNow = g;
    }
    this.checkConfig(tags);
    if (deep) {
      this.checkWholeLog(tags);
      for (const o of new Set([...this.pairs.values()].map(([f]) => f[0]))) this.listing({ from: [o, null], prev: null, take: null }, o, tags);
    }
    this.led.endQueries();
  }
  checkConfig(tags) {
    const md = this.ask('icrc1_metadata', [], [], ANON, ['C29']); if (!md) return;
    const get = (k) => md.find((e) => e['0'] === k)?.['1'];
    const want = { 'icrc1:decimals': 'n12', 'icrc1:name': 'tTrillion Cycles', 'icrc1:symbol': 'tTCYCLES', 'icrc1:fee': 'n' + FEE, 'icrc1:max_memo_length': 'n32' };
    for (const k in want) { const v = get(k); this.expect(v && vj(v) === want[k], ['C32'], `metadata ${k} is ${v ? vj(v) : 'missing'}`); }
    const mx = get('dfn:max_blocks_per_request');
    this.expect(mx && mx.val === this.conf.max, ['C29', 'C32', ...tags], `metadata max_blocks_per_request is ${mx?.val}, configured ${this.conf.max}`);
    const ix = get('icrc106:index_principal'), ixb = get('dfn:index_id');
    this.expect(this.conf.index !== null ? ix && vj(ix) === 't' + principalText(this.conf.index) && ixb && vj(ixb) === 'b' + this.conf.index : !ix && !ixb, ['C29', 'C32', ...tags], `metadata index is ${ix ? vj(ix) : 'unset'}, ${ixb ? vj(ixb) : 'unset'}, configured ${this.conf.index}`);
    const r = this.ask('icrc106_get_index_principal', [], [], ANON, ['C29']);
    if (r) this.expect(this.conf.index !== null ? r.tag === 'Ok' && r.val.principal === this.conf.index : r.tag === 'Err' && r.val.tag === 'IndexPrincipalNotSet', ['C29', 'C32', ...tags], `icrc106 index is ${txt(r)}, configured ${this.conf.index}`);
  }
  checkWholeLog(tags) {
    if (this.conf.max === 0n) return;
    const L = this.log.length;
    if (L < 5000) return this.checkLogPart(0, L, tags);
    // a long log: its two ends and a window that moves
    this.checkLogPart(0, 300, tags); this.checkLogPart(this.rndObs % (L - 1500), 500, tags); this.checkLogPart(L - 1000, 1000, tags);
  }
  checkLogPart(from, count, tags) {
    const L = this.log.length, f = this.fetch(from, from + count >= L ? Infinity : count); if (!f) return;
    const want = from + count >= L ? f.len - from : count;
    this.expect(f.len === L && f.blocks.length === want, ['C22', 'C26', ...tags], `log has ${f.len} blocks (${f.blocks.length} returned from ${from}), expected ${L}`);
    let prev = from > 0 ? this.log[from - 1].h : null;
    for (let k = 0; k < f.blocks.length && from + k < L; k++) {
      const i = from + k, v = f.blocks[k], h = hex(hashValue(v)), e = this.log[i];
      const b = vj(v);
      if (i > 0 && prev !== null) this.expect(b.phash === 'b' + prev, ['C22', ...tags], `block ${i} does not link to block ${i - 1}`);
      prev = h;
      if (e.h === null) { delete b.phash; if (e.c !== null) this.expect(canon(b) === e.c, ['C24', 'C22'], `block ${i} is ${canon(b)}, expected ${e.c}`); e.h = h; e.c = canon(b); continue; }
      if (!this.expect(h === e.h, ['C22', ...tags], `block ${i} changed: hash ${h}, was ${e.h}`)) break;
    }
  }
  listing(a, by, tags) {
    const from = a.from ?? [by, null];
    const arg = { from_account: a.from ? Ty.acc(a.from) : null, prev_spender: a.prev ? Ty.acc(a.prev) : null, take: big(a.take) };
    const r = this.ask('icrc103_get_allowances', [Ty.GetAllowances], [arg], by, ['C21']); if (!r) return null;
    if (!this.expect(r.tag === 'Ok', ['C21'], `icrc103_get_allowances failed: ${txt(r)}`)) return null;
    const now = this.net.now; let exp = [];
    for (const [k, e] of this.M.allow) {
      if (e.exp !== 0n && e.exp <= now) continue;
      const [f, s] = k.split('|').map(unkey);
      if (f[0] !== from[0]) continue;
      const c = cmpAcc(f, from); if (c < 0) continue;
      if (c === 0 && a.prev && cmpAcc(s, a.prev) <= 0) continue;
      exp.push([f, s, e]);
    }
    exp.sort((x, y) => cmpAcc(x[0], y[0]) || cmpAcc(x[1], y[1]));
    const lim = a.take === null || a.take === undefined ? 500 : Number(min(BigInt(a.take), 500n));
    exp = exp.slice(0, lim);
    const got = r.val.map((x) => [[x.from_account.owner.principal, x.from_account.subaccount ? hex(x.from_account.subaccount) : Z], [x.to_spender.owner.principal, x.to_spender.subaccount ? hex(x.to_spender.subaccount) : Z], { amt: x.allowance, exp: expOf(x) }]);
    const A = txt(got), B = txt(exp.map(([f, s, e]) => [f, s, { amt: e.amt, exp: e.exp }]));
    // an expired allowance listed, or one with another expiry than it has, is about expiry too
    const timed = got.some(([f, s, x]) => { const e = this.M.allow.get(pkey(f, s)); return e && (e.exp !== x.exp || (e.exp !== 0n && e.exp <= now)); });
    this.expect(A === B, ['C21', 'C32', ...(timed ? ['C18'] : []), ...(tags ?? [])], `icrc103_get_allowances(${txt(a)}) at ${now} lists ${A.slice(0, 600)} expected ${B.slice(0, 600)}`);
    if (got.length) this.probe('listing-nonempty');
    return got;
  }
  resync() {
    this.dirty = false;
    for (const k of this.known.keys()) { const o = this.balOf(k); if (o !== undefined) { this.M.bal.set(k, o); this.R.bal.set(k, o); } }
    for (const [p, [f, s]] of this.pairs) { const o = this.allowOf(p); if (o) for (const X of [this.M, this.R]) { const e = X.allow.get(p); if (o.amt > 0n || !e || e.exp === 0n || e.exp > this.net.now) X.set(f, s, o.amt, o.exp); } }
    const s = this.ask('icrc1_total_supply', [], []); if (s !== undefined) { this.M.supply = s; this.R.supply = s; }
    this.cycles = this.led.cycles;
    const r = this.rawBlocks(0, 0); if (r && Number(r.log_length) !== this.log.length) this.relog();
    if (this.log.length && this.conf.max > 0n) { const l = this.fetch(this.log.length - 1); if (l && l.blocks.length) this.log[this.log.length - 1].h = hex(hashValue(l.blocks[0])); }
    const md = this.q('icrc1_metadata', [], []).v; const mx = md?.find((e) => e['0'] === 'dfn:max_blocks_per_request')?.['1']; if (mx) this.conf.max = mx.val;
    const ix = md?.find((e) => e['0'] === 'dfn:index_id')?.['1']; if (md) this.conf.index = ix ? hex(ix.val) : null;
    this.led.endQueries();
  }
  // End of one action: audit on trouble, count, resynchronise.
  finish() {
    if (this.dirty && this.led) {
      if (!this.onBase) { const n = this.viol.length; this.sweep([], false); if (this.viol.length > n + 30) this.viol.length = n + 30; }
      this.resync();
    }
    if (this.led) this.led.endQueries();
    this.soft += this.viol.length;
    for (const v of this.viol) for (const t of v.tags) this.softTags[t] = (this.softTags[t] ?? 0) + 1;
    if (this.soft > MAX_SOFT) this.aborted = 'too many violations of other properties';
  }
  siblings(accs) { // other accounts of the same owners: nothing else may move them
    const out = [];
    for (const k of accs) { const l = this.byOwner.get(k.slice(0, k.indexOf(':'))) ?? []; for (let i = 0; i < l.length && i < 4; i++) out.push(l[(this.msgs + i) % l.length]); }
    return out;
  }
  sampleAccounts() { // deterministic rotating sample of one known account and pair
    const ks = [...this.known.keys()], ps = [...this.pairs.keys()];
    this.rndObs = (Math.imul(this.rndObs, 1664525) + 1013904223) >>> 0;
    return [ks.length ? [ks[this.rndObs % ks.length]] : [], ps.length ? [ps[(this.rndObs >>> 8) % ps.length]] : []];
  }
  after(accs, pairs, exp, tags, who, now, used) {
    this.readNew(exp, tags, now);
    this.checkTip(tags);
    if (!this.light) { const [sa, sp] = this.sampleAccounts(); accs = new Set([...accs, ...sa, ...this.siblings(accs)]); pairs = new Set([...pairs, ...sp]); }
    this.compare(accs, pairs, tags, who, used);
  }

  // ---- installation and upgrades ----------------------------------------------------
  start() {
    const c = this.cfg0, bal = c.init.balances ?? [];
    const now = this.net.now; let sum = 0n, over = false;
    for (const [, n] of bal) { sum += BigInt(n); }
    if (sum > U128) over = true;
    let funds = sum + BigInt(c.extra ?? '0'); if (!over && funds > U128) funds = U128;
    const { can, c: x } = this.net.install('ledger', unhex(LEDGER), this.mods[c.start === 'base' ? 'base' : 'led'], c.badInit ? Ty.encodeUpgrade({ bare: 1, none: 1 }) : Ty.encodeInit(c.init), funds, c.fault ?? undefined);
    this.stats.msgs++; this.note('init ' + x.trap);
    if (c.badInit) { this.expect(x.trap !== null, ['C29'], 'installing with Upgrade arguments succeeded'); this.aborted = 'bad init'; this.count('outcomes', 'init:refused'); return; }
    if (over) { this.expect(x.trap !== null, ['C29', 'C01'], 'initial balances exceeding 128 bits were accepted'); this.aborted = 'bad init'; return; }
    if (x.injected) { this.count('faults', 'trap:init'); this.aborted = 'init trapped'; return; }
    if (!this.expect(x.trap === null, ['C29', 'C31'], 'initialisation trapped: ' + x.trap)) { this.aborted = 'init failed'; return; }
    this.led = can; this.cycles = funds;
    const exp = [];
    for (const [a, n] of bal) {
      this.know(a); this.M.add(key(a), BigInt(n)); this.M.supply += BigInt(n);
      exp.push({ tx: { op: 'tmint', to: accV(a), amt: nV(n), fee: nV(FEE) }, fee: 'n0' });
    }
    this.count('outcomes', 'init:ok');
    this.readNew(exp, ['C29'], now); this.sweep(['C29'], true);
    if (c.dep) {
      const d = this.net.install('depositor', unhex(DEPOSITOR), this.mods.dep, encode([Ty.DepInit], [{ ledger_id: unhex(LEDGER) }]), 1n << 120n);
      if (!this.expect(d.c.trap === null, ['C33'], 'depositor initialisation trapped: ' + d.c.trap)) this.aborted = 'dep'; this.dep = d.can;
    }
    if (c.cmc) {
      const d = this.net.install('fake-cmc', unhex(CMC), this.mods.cmc, encode([], []), 0n);
      if (!this.expect(d.c.trap === null, ['C34'], 'fake-cmc initialisation trapped: ' + d.c.trap)) this.aborted = 'cmc'; this.cmcCan = d.can;
    }
    this.finish();
  }
  upgrade(a) {
    if (this.led.contexts.size || this.led.callbacks.size) { this.probe('upgrade-skipped-pending'); return; }
    const toCur = this.onBase && a.w !== 'base';
    // audit before, so that what is wrong afterwards is due to the upgrade
    if (!this.onBase) { this.sweep([], false); } else { this.resync(); }
    const g0 = this.gauges(); this.led.endQueries();
    if (this.viol.length) { return; }
    const mod = this.mods[toCur || !this.onBase ? 'led' : 'base'];
    const bad = a.a === 'init';
    const oldConf = { ...this.conf };
    const x = this.net.upgrade(this.led, mod, Ty.encodeUpgrade(a.a), a.f ?? undefined);
    this.stats.msgs++; this.note('upg ' + x.trap);
    if (x.trap !== null) {
      if (x.injected) { this.count('faults', 'trap:upgrade'); this.probe('upgrade-trapped'); } else this.expect(bad, ['C27', 'C29', ...(toCur ? ['C28'] : []), 'C31'], 'upgrade failed: ' + x.trap);
      this.count('outcomes', 'upgrade:failed');
    } else {
      this.expect(!bad, ['C29'], 'upgrade with Init arguments succeeded');
      this.upgrades++; this.count('outcomes', toCur ? 'upgrade:from-base' : 'upgrade:ok'); this.count('faults', 'restart');
      if (toCur) this.onBase = false;
      if (a.a && typeof a.a === 'object' && !a.a.none) {
        if (a.a.max !== undefined && a.a.max !== null) this.conf.max = BigInt(a.a.max);
        if (a.a.index !== undefined && a.a.index !== null) this.conf.index = a.a.index === 'unset' ? null : a.a.index;
      }
    }
    const tags = x.trap !== null ? ['C27', 'C29', 'C05'] : toCur ? ['C28'] : ['C27'];
    const t2 = [...tags, ...(canon(oldConf) !== canon(this.conf) || bad ? ['C29'] : [])];
    if (a.first) { this.note('first ' + a.first); if (a.first === 'list') { for (const [f] of this.pairs.values()) { this.listing({ from: [f[0], null], prev: null, take: null }, f[0], tags); break; } } else if (a.first === 'tip') this.checkTip(t2); }
    const before = this.viol.length;
    this.readNew([], t2, this.net.now);
    this.checkConfig(['C29', ...tags]);
    this.sweep(t2, true);
    const g1 = this.gaugesNow;
    if (g0 && g1 && !this.onBase) for (const n of ['number_of_blocks', 'number_of_balances', 'number_of_approvals', 'number_of_approval_expiration_entries', 'number_of_transaction_hashes', 'number_of_transaction_timestamps']) this.expect(g0[n] === g1[n], t2, `upgrade changed ${n} from ${g0[n]} to ${g1[n]}`);
    this.sig.push('U' + (x.trap === null ? '+' : '-'));
  }

  // ---- requests ------------------------------------------------------------------
  // True error conditions of a request in the current state, with what to check.
  conditions(m, a, by, cyc) {
    const now = this.net.now, M = this.M, traps = [], errs = [];
    const err = (name, tag, check, tags) => errs.push({ name, tag, check, tags });
    const from = m === 'icrc2_transfer_from' || m === 'withdraw_from' || m === 'create_canister_from' ? a.from : [by, a.fs ?? null];
    const spender = m === 'icrc2_transfer_from' || m === 'withdraw_from' || m === 'create_canister_from' ? [by, a.ss ?? null] : null;
    const amt = m === 'deposit' ? null : BigInt(a.amt), fee = big(a.fee), cat = big(a.cat), memo = a.memo ?? null;
    const op = { m, a, by, from, spender, amt, now, cat, tags: [] };
    const eqN = (f, v) => (d) => d && d[f] === v;
    const memoBad = memo !== null && memo.length / 2 > 32;
    if (m === 'deposit') {
      op.to = a.to; op.tags = ['C04'];
      if (cyc <= FEE) traps.push({ name: 'too-little', tags: ['C04'] });
      if (memoBad) traps.push({ name: 'memo', tags: ['C04'] });
      if (cyc > FEE && M.supply + cyc - FEE > U128) traps.push({ name: 'overflow', tags: ['C04', 'C01'] });
      op.tx = { op: 'tmint', to: accV(a.to), amt: nV(cyc - FEE), fee: nV(FEE), memo: bV(memo) };
      return { op, traps, errs };
    }
    let memoHex = memo;
    if (m === 'icrc1_transfer' || m === 'icrc2_transfer_from') {
      op.kind = 'transfer'; op.tags = ['C03', ...(spender ? ['C17'] : [])]; op.to = a.to;
      op.tx = { op: 'txfer', from: accV(from), to: accV(a.to), spender: spender ? accV(spender) : undefined, amt: nV(amt), fee: nV(fee), memo: bV(memo), ts: nV(cat) };
      if (amt <= U128 && [from, a.to, spender].some((x) => x && x[0] === MGMT)) err('denied', 'GenericError', eqN('error_code', 100001n), ['C16', 'C03']);
    } else if (m === 'icrc2_approve') {
      op.kind = 'approve'; op.tags = ['C19']; op.sp = a.sp;
      const capped = min(amt, U128);
      op.amt = capped;
      op.tx = { op: 'tapprove', from: accV(from), spender: accV(a.sp), amt: nV(capped), fee: nV(fee), expected_allowance: nV(big(a.xa)), expires_at: nV(big(a.exp)), memo: bV(memo), ts: nV(cat) };
      if (from[0] === a.sp[0]) traps.push({ name: 'self', tags: ['C19', 'C16'] });
      if ([from, a.sp].some((x) => x[0] === MGMT)) err('denied', 'GenericError', eqN('error_code', 100001n), ['C16', 'C19']);
      const cur = M.eff(from, a.sp, now).amt;
      if (a.xa !== null && a.xa !== undefined && BigInt(a.xa) !== cur) err('changed', 'AllowanceChanged', eqN('current_allowance', cur), ['C19']);
      if (a.exp !== null && a.exp !== undefined && BigInt(a.exp) <= now) err('expired', 'Expired', eqN('ledger_time', now), ['C18', 'C19']);
    } else if (m.startsWith('withdraw')) {
      op.kind = 'withdraw'; op.tags = ['C08', ...(spender ? ['C17'] : [])]; op.to = a.to; memoHex = withdrawMemo(a.to);
      op.tx = { op: 'tburn', from: accV(from), spender: spender ? accV(spender) : undefined, amt: nV(amt), memo: bV(memoHex), ts: nV(cat) };
      if (selfAuth(a.to)) err('receiver', 'InvalidReceiver', (d) => d?.receiver?.principal === a.to, ['C08']);
      if (amt === 0n) err('zero', 'GenericError', eqN('error_code', 100002n), ['C08']);
    } else {
      op.kind = 'create'; op.tags = ['C10', ...(spender ? ['C17'] : [])];
      op.tx = { op: 'tburn', from: accV(from), spender: spender ? accV(spender) : undefined, amt: nV(amt), memo: bV(CREATE), ts: nV(cat) };
    }
    if (fee !== null && fee !== FEE) err('badfee', 'BadFee', eqN('expected_fee', FEE), op.tags);
    const bal = M.b(key(from)), need = op.kind === 'approve' ? FEE : amt + FEE;
    if (bal < need) err('funds', 'InsufficientFunds', eqN('balance', bal), [...op.tags, ...(this.pend.size ? ['C12'] : [])]);
    if (spender && key(spender) !== key(from)) {
      const e = M.eff(from, spender, now), raw = M.allow.get(pkey(from, spender));
      const expired = raw && raw.exp !== 0n && raw.exp <= now;
      if (e.amt < need) {
        const t = ['C16', 'C17', ...(expired ? ['C18'] : [])];
        err('allowance', 'InsufficientAllowance', eqN('allowance', e.amt), t);
        if (expired) err('allowance-expired', 'GenericError', eqN('error_code', 100003n), t);
      }
      op.old = e.exp; op.usesAllowance = true;
    }
    if (tooOld(cat, now)) err('tooold', 'TooOld', () => true, ['C15']);
    if (inFuture(cat, now)) err('future', 'CreatedInFuture', eqN('ledger_time', now), ['C15']);
    if (memoBad) traps.push({ name: 'memo', tags: op.tags });
    if (cat !== null) {
      const k = canon(op.tx), d = this.dedup.get(k); op.key = k;
      const up = d ? [...(d.upg < this.upgrades ? ['C27'] : []), ...(d.base && !this.onBase ? ['C28'] : [])] : [];
      const chk = (x) => (v) => v && v.duplicate_of === BigInt(x.idx) && (op.kind !== 'create' || (v.canister_id?.principal ?? null) === x.cid);
      if (d) { err('dup', 'Duplicate', chk(d), ['C13', ...up]); op.dup = d; op.dupTags = up; }
      else for (const k2 of this.dedupAlt.get(normTx(op.tx)) ?? []) { const d2 = this.dedup.get(k2); errs.push({ name: 'dup-alias', soft: true, tag: 'Duplicate', check: chk(d2), tags: [] }); }
    }
    return { op, traps, errs };
  }
  kindTags(tag, op) {
    const raw = op.spender || op.sp ? this.M.allow.get(pkey(op.from, op.spender ?? op.sp)) : null, t = [];
    if (raw && raw.exp !== 0n && ['InsufficientAllowance', 'AllowanceChanged', 'GenericError'].includes(tag)) t.push('C18');
    return [...t, ...({ Duplicate: ['C13', 'C14'], TooOld: ['C15'], CreatedInFuture: ['C15'], InsufficientAllowance: ['C17', 'C16'], AllowanceChanged: ['C19', 'C17'], Expired: ['C18', 'C19'], InvalidReceiver: ['C08'] }[tag] ?? [])];
  }
  request(a) {
    const m = a.m;
    this.count('methods', m);
    if (a.c === 'dep') return this.depRequest(a);
    if (a.c === 'cmc') return this.cmcRequest(a);
    if (m === 'deposit' && this.impossible(BigInt(a.cyc))) { this.probe('skipped-impossible-cycles'); return; }
    const rec = { n: a.n, a, out: null, cnt: 0 }; this.reqs.set(a.n, rec);
    this.runOnLedger(rec, m, a.a, a.by, BigInt(a.cyc ?? '0'), Ty.encodeRequest(m, a.a), this.opts4(a), (out) => { rec.out = out; rec.cnt++; });
  }
  // A platform cycle balance has 128 bits; such an amount of cycles cannot exist.
  impossible(cyc) { let t = this.led.cycles + cyc; for (const o of this.pend.values()) t += o.callAmt ?? 0n; return t > U128 && this.M.supply + cyc - FEE <= U128; }
  opts4(a) { return { fault: a.f ? { ...a.f } : null, performFail: a.pf || 0, lowLiquid: a.ll !== undefined && a.ll !== null ? BigInt(a.ll) : null, growFail: !!a.gf }; }
  faultStats(c, where, opts) {
    if (c.injected) this.count('faults', `trap:${where}:${c.injected.call}`);
    if (c.growFailed) this.count('faults', 'stable-grow-failed');
    if (c.performFails) this.count('faults', 'call-perform-failed', c.performFails);
    if (c.lowLiquidSeen) this.count('faults', 'low-liquid-cycles');
  }
  // Executes one request on the ledger and judges it.  `respond` gets the final response.
  runOnLedger(rec, m, a, by, cyc, bytes, opts, respond) {
    const now = this.net.now;
    const { op, traps, errs } = this.conditions(m, a, by, cyc);
    op.n = rec.n; op.rec = rec; rec.op = op;
    for (const x of [op.from, op.to, op.spender, op.sp]) if (Array.isArray(x) && x[0] !== undefined) this.know(x);
    const pair = op.spender && key(op.spender) !== key(op.from) ? [op.from, op.spender] : op.sp ? [op.from, op.sp] : null;
    const pairs = pair ? [this.knowPair(...pair)] : [];
    const accs = m === 'deposit' ? [key(a.to)] : [key(op.from), ...(op.kind === 'transfer' ? [key(a.to)] : [])];
    const pre = this.preGauges();
    let out = null;
    const c = this.net.deliverCall(this.led, rec.n, { method: m, caller: unhex(by), arg: bytes, cycles: cyc, opts }, (o) => { out = o; respond(o); });
    this.msgs++; this.stats.msgs++; this.faultStats(c, 'request', opts);
    this.cycles += 0n;
    const inflight = this.pend.size > 0 ? ['C12'] : [];
    const result = out === null ? 'pending' : out.reject ? 'reject' : 'reply';
    this.note(`req ${rec.n} ${m} ${result} ${out ? (out.reject ? out.reject.msg : hex(out.reply)) : ''} t${c.trap} p${c.points}`);
    const calls = c.trap === null ? c.calls : [];
    // 1. trapped
    if (c.trap !== null) {
      const inj = c.injected || c.growFailed;
      let label = inj ? 'injected' : 'refused';
      this.expect(out && out.reject && out.refund === cyc, ['C31', 'C05', 'C04'], `trapped ${m}: response ${txt(out)}, attached ${cyc}`);
      if (!inj) {
        if (traps.length === 0) this.expect(false, ['C31', ...op.tags, ...(op.dup && !tooOld(op.cat, now) ? ['C14'] : []), ...inflight, ...(errs.length ? ['C07', ...errs.flatMap((e) => e.tags)] : ['C07']), ...(this.onBaseTags())], `${m} trapped (${c.trap}) on ${txt(a)} by ${by}, cycles ${cyc}`);
      }
      this.after(accs, pairs, [], inj ? ['C05'] : ['C06', 'C05', ...(m === 'deposit' ? ['C04'] : [])], [], now);
      if (inj) { this.sweep(['C05'], true); this.probe('trap-in-request'); }
      this.done(rec, op, m, label); return;
    }
    // 2. deposit and synchronous results
    if (m === 'deposit') return this.judgeDeposit(rec, op, traps, cyc, out, accs, now, inflight, pre);
    let res = null;
    if (out) {
      if (out.reject) { this.expect(false, ['C31', ...op.tags], `${m} was rejected without trapping: ${out.reject.msg}`); this.after(accs, pairs, null, op.tags, accs, now); return this.done(rec, op, m, 'rejected'); }
      try { res = decode(out.reply)[0]; } catch (e) { this.expect(false, ['C31', ...op.tags], `${m}: undecodable reply`); this.after(accs, pairs, null, op.tags, accs, now); return this.done(rec, op, m, 'undecodable'); }
    }
    const hard = errs.filter((e) => !e.soft);
    const sendFailed = (op.kind === 'withdraw' || op.kind === 'create') && calls.length === 0 && (c.performFails > 0 || c.lowLiquidSeen) && res && res.tag === 'Err' && /^FailedTo/.test(res.val.tag);
    if (res && res.tag === 'Err' && !sendFailed) {
      const e = res.val;
      this.count('outcomes', `${m}:${e.tag}`);
      const hit = errs.find((x) => x.tag === e.tag && x.check(e.val));
      if (!hit) {
        const same = errs.find((x) => x.tag === e.tag);
        const t = ['C07', ...this.kindTags(e.tag, op), ...(op.dup && !tooOld(op.cat, now) ? ['C14', ...op.dupTags] : []), ...inflight, ...(hard.length === 0 && traps.length === 0 ? ['C31', ...op.tags] : []), ...(same ? same.tags.filter((x) => ['C27', 'C28'].includes(x)) : []), ...(e.tag === 'InsufficientFunds' || e.tag === 'BadFee' ? op.tags : [])];
        this.expect(false, t, `${m} answered ${txt(e)} at ${now}; true conditions: ${hard.map((x) => x.name).join(', ') || 'none'}; request ${txt(a)} by ${by}; balance ${this.M.b(key(op.from))}${pair ? ', allowance ' + txt(this.M.allow.get(pkey(...pair)) ?? 0) : ''}${op.dup ? ', original ' + txt(op.dup) : ''}`);
      } else {
        this.probe('error:' + hit.name);
        if (op.dup && !tooOld(op.cat, now) && e.tag !== 'Duplicate') this.expect(false, ['C14', 'C07', ...op.dupTags], `${m} repeated a request executed in block ${op.dup.idx} but was answered ${txt(e)}`);
        if (e.tag === 'InsufficientFunds' && errs.some((x) => x.name === 'badfee')) this.expect(false, ['C07'], `${m} answered InsufficientFunds although the fee is wrong (${a.fee}): BadFee takes precedence`);
      }
      this.expect(calls.length === 0, ['C06', ...op.tags], `${m} was refused with ${e.tag} but sent a call`);
      this.after(accs, pairs, [], ['C06'], [], now);
      return this.done(rec, op, m, e.tag, pre);
    }
    // 3. executed
    const bad = [...hard, ...traps];
    if (bad.length) this.expect(false, ['C07', ...op.tags, ...bad.flatMap((x) => x.tags), ...inflight], `${m} was executed although ${bad.map((x) => x.name).join(', ')}: ${txt(a)} by ${by} at ${now}; balance ${this.M.b(key(op.from))}${pair ? ', allowance ' + txt(this.M.allow.get(pkey(...pair)) ?? 0) : ''}${op.dup ? ', original ' + txt(op.dup) : ''}`);
    const idx = this.log.length; op.idx = idx;
    const exp = [], M = this.M, fk = key(op.from);
    const feeB = op.tx.fee === undefined ? 'n' + FEE : undefined;
    exp.push({ tx: op.tx, fee: op.kind === 'withdraw' || op.kind === 'create' ? 'n' + FEE : feeB });
    if (op.kind === 'transfer') { if (op.usesAllowance) M.use(op.from, op.spender, op.amt + FEE); M.add(fk, -(op.amt + FEE)); M.add(key(op.to), op.amt); M.supply -= FEE; }
    else if (op.kind === 'approve') { M.add(fk, -FEE); M.supply -= FEE; M.set(op.from, op.sp, op.amt, big(a.exp) ?? 0n); }
    else { if (op.usesAllowance) M.use(op.from, op.spender, op.amt + FEE); M.add(fk, -(op.amt + FEE)); M.supply -= op.amt + FEE; }
    for (const X of [M]) if (X.b(fk) < 0n) X.bal.set(fk, 0n);
    const who = [fk];
    const tags = [...op.tags, ...inflight];
    if (op.kind === 'transfer' || op.kind === 'approve') {
      this.expect(res && res.tag === 'Ok' && res.val === BigInt(idx), [...tags, 'C24', 'C31'], `${m} answered ${txt(res)}, expected Ok(${idx})`);
      this.expect(calls.length === 0, tags, `${m} sent an outgoing call`);
      this.after(accs, pairs, exp, tags, who, now, op.usesAllowance ? pkey(op.from, op.spender) : null);
      if (op.key) this.addDedup(op.tx, idx);
      return this.done(rec, op, m, 'Ok', pre);
    }
    if (op.key) this.addDedup(op.tx, idx);
    if (sendFailed) {
      this.probe('send-failed-synchronously');
      const F = this.failure(op, op.amt, now); exp.push(...F.blocks);
      this.checkFailureReply(op, res.val, 'SysTransient', null, F);
      this.after([...accs], pairs, exp, [op.kind === 'withdraw' ? 'C09' : 'C11', ...(op.spender ? ['C20'] : []), ...inflight], who, now);
      return this.done(rec, op, m, 'send-failed', pre);
    }
    // pending: exactly one outgoing call carrying the amount
    this.checkSend(op, calls, by, a, tags);
    if (out) this.expect(false, [...tags, 'C31'], `${m} answered ${txt(res)} before its outgoing call was answered`);
    for (const call of calls) {
      this.cycles -= call.cycles;
      if (!op.call && !out) { op.call = call.id; op.seq = this.msgs; op.callAmt = call.cycles; this.pend.set(call.id, op); this.count('outcomes', `${m}:sent`); }
    }
    this.after(accs, pairs, exp, tags, who, now, op.usesAllowance ? pkey(op.from, op.spender) : null);
    this.done(rec, op, m, 'pending', pre);
  }
  onBaseTags() { return this.baseSeen ? ['C28'] : []; }
  done(rec, op, m, label, pre) {
    this.sig.push(m.slice(0, 3) + (m.endsWith('from') ? 'F' : '') + m.length + ':' + label + ':' + Math.min(this.pend.size, 3));
    this.count('outcomes', `${m}=${label}`);
    if (pre && ['Ok', 'pending', 'send-failed'].includes(label) && !this.onBase) this.checkPruned(pre, label === 'send-failed' ? 3 : 1);
  }
  // Housekeeping: compares the gauges before and after a successful operation.
  checkPruned(pre, maxRounds) {
    const g = this.gauges(); if (!g) return;
    const now = this.net.now;
    const vals = [...this.M.allow.values()];
    const live = vals.filter((e) => e.exp === 0n || e.exp > now).length, never = vals.filter((e) => e.exp === 0n).length;
    const dead = pre.dead;
    this.expect(g.number_of_approvals >= live, ['C30'], `after an operation ${g.number_of_approvals} approvals are stored but ${live} are live`);
    this.expect(g.number_of_approvals <= live + Math.max(0, dead - 100), ['C30'], `after an operation ${g.number_of_approvals} approvals are stored: ${live} live, ${dead} were expired before (limit 100 per operation)`);
    this.expect(g.number_of_approvals >= live + Math.max(0, dead - 100 * maxRounds - 1), ['C30'], `one operation removed more than ${100 * maxRounds} approvals: ${g.number_of_approvals} stored, ${live} live, ${dead} expired before`);
    this.expect(g.number_of_approval_expiration_entries === g.number_of_approvals - never, ['C30'], `${g.number_of_approvals} approvals (${never} without expiry) but ${g.number_of_approval_expiration_entries} expiration entries`);
    const inw = [...this.dedup.values()].filter((d) => this.inWindow(d.cat)).length;
    for (const n of ['number_of_transaction_hashes', 'number_of_transaction_timestamps']) this.expect(g[n] === inw, ['C30', ...(g[n] < inw ? ['C13'] : [])], `after an operation ${n} is ${g[n]}, ${inw} are inside the window`);
    if (dead > 0) this.probe(dead > 100 ? 'prune-over-limit' : 'prune-approvals');
    if (pre.number_of_transaction_hashes > g.number_of_transaction_hashes) this.probe('prune-transactions');
  }
  judgeDeposit(rec, op, traps, cyc, out, accs, now, inflight, pre) {
    const T4 = ['C04', ...inflight];
    let ok = true;
    if (traps.length) ok = this.expect(false, [...T4, ...traps.flatMap((t) => t.tags)], `deposit of ${cyc} accepted although ${traps.map((t) => t.name).join(', ')}`);
    if (!out || out.reject) { this.expect(false, [...T4, 'C31'], `deposit: no reply (${txt(out)})`); this.after(accs, [], null, T4, accs, now); return this.done(rec, op, 'deposit', 'rejected'); }
    let r; try { r = decode(out.reply)[0]; } catch (e) { r = {}; }
    const amt = cyc - FEE, k = key(op.to), idx = this.log.length;
    if (amt > 0n) { this.M.add(k, amt); this.M.supply += amt; }
    this.cycles += cyc;
    this.expect(out.refund === 0n, T4, `deposit kept ${cyc - out.refund} of ${cyc} attached cycles`);
    this.expect(r.block_index === BigInt(idx) && r.balance === this.M.b(k), [...T4, 'C24'], `deposit answered ${txt(r)}, expected block ${idx} and balance ${this.M.b(k)}`);
    this.after(accs, [], amt > 0n ? [{ tx: op.tx, fee: 'n0' }] : [], T4, accs, now);
    this.done(rec, op, 'deposit', 'Ok', pre);
  }
  checkSend(op, calls, by, a, tags) {
    const t = op.kind === 'withdraw' ? ['C08', ...tags] : ['C10', ...tags];
    if (!this.expect(calls.length === 1, t, `${op.m} sent ${calls.length} outgoing calls, expected 1`)) { if (calls.length === 0) return; }
    const call = calls[0];
    const callee = hex(call.callee);
    this.expect(call.cycles === op.amt, [...t, 'C02'], `${op.m} of ${op.amt} sent ${call.cycles} cycles`);
    let arg = null; try { arg = decode(call.arg)[0]; } catch (e) { arg = null; }
    if (op.kind === 'withdraw') {
      this.expect(callee === MGMT && call.method === 'deposit_cycles', t, `withdraw called ${callee}.${call.method}`);
      this.expect(arg && arg.canister_id?.principal === op.to, t, `withdraw to ${op.to} was sent to ${txt(arg)}`);
    } else {
      this.expect(callee === CMC && call.method === 'create_canister', t, `create_canister called ${callee}.${call.method}`);
      const want = this.expectedCmc(a.args, by), got = arg ? cmcNorm(arg) : 'undecodable';
      this.expect(canon(got) === canon(want), t, `create_canister forwarded ${canon(got)}, expected ${canon(want)}`);
    }
  }
  expectedCmc(args, by) {
    const st = args?.settings ?? {};
    const o = {}; for (const k of ['compute_allocation', 'memory_allocation', 'freezing_threshold', 'reserved_cycles_limit', 'wasm_memory_limit', 'wasm_memory_threshold']) if (st[k] !== undefined && st[k] !== null) o[k] = String(st[k]);
    if (st.log_visibility) o.log_visibility = Array.isArray(st.log_visibility) ? ['viewers', ...st.log_visibility] : st.log_visibility;
    if (st.environment_variables) o.environment_variables = st.environment_variables.map(([n, v]) => n + '=' + v);
    o.controllers = st.controllers ?? [by];
    const s = args?.subnet;
    return { settings: o, subnet: s ? (s.subnet ? 'S' + s.subnet : 'F' + (s.type ?? '')) : undefined };
  }

  // Expected effects of a failed outgoing call: applied to M; returns the expected blocks.
  failure(op, returned, now) {
    const M = this.M, blocks = [], r = { refund: null, appr: null, blocks };
    const reimb = returned > FEE ? returned - FEE : 0n;
    const base = this.failBase ?? this.log.length + (op.idx === this.log.length ? 1 : 0);
    if (reimb > 0n) {
      r.refund = base; M.add(key(op.from), reimb); M.supply += reimb;
      blocks.push({ tx: { op: 'tmint', to: accV(op.from), amt: nV(reimb), fee: 'n0', memo: 'b' + (op.kind === 'withdraw' ? PENALIZE : REFUND) }, fee: 'n0' });
      if (op.usesAllowance && reimb > FEE && (op.old === 0n || now < op.old)) {
        const cur = M.eff(op.from, op.spender, now), exp = cur.exp > 0n ? cur.exp : op.old, amt = min(U128, reimb - FEE + cur.amt);
        r.appr = base + 1; M.set(op.from, op.spender, amt, exp); M.add(key(op.from), -FEE); M.supply -= FEE;
        blocks.push({ tx: { op: 'tapprove', from: accV(op.from), spender: accV(op.spender), amt: nV(amt), expires_at: exp > 0n ? nV(exp) : undefined, memo: 'b' + PENALIZE }, fee: 'n' + FEE });
        this.probe('approval-restored');
        if (cur.amt > 0n) this.probe('approval-restored-merged');
      } else if (op.usesAllowance && op.old !== 0n && now >= op.old) this.probe('approval-expired-in-flight');
      this.probe(op.kind + '-refunded');
    } else this.probe(op.kind + '-too-small-to-refund');
    return r;
  }
  checkFailureReply(op, e, code, reason, F) {
    const from = op.spender !== null, n = (x) => x === null ? null : BigInt(x);
    let want;
    if (op.kind === 'withdraw') want = from ? ['FailedToWithdrawFrom', { withdraw_from_block: BigInt(op.idx), refund_block: n(F.refund), approval_refund_block: n(F.appr), rejection_code: code, rejection_reason: reason }] : ['FailedToWithdraw', { fee_block: n(F.refund), rejection_code: code, rejection_reason: reason }];
    else want = from ? ['FailedToCreateFrom', { create_from_block: BigInt(op.idx), refund_block: n(F.refund), approval_refund_block: n(F.appr), rejection_code: code, rejection_reason: reason }] : ['FailedToCreate', { fee_block: BigInt(op.idx), refund_block: n(F.refund), error: reason }];
    const t = [op.kind === 'withdraw' ? 'C09' : 'C11', 'C07', ...(op.usesAllowance ? ['C20'] : [])];
    if (!this.expect(e.tag === want[0], t, `${op.m} failed with ${txt(e)}, expected ${want[0]}`)) return;
    for (const k in want[1]) {
      let got = e.val[k]; if (k === 'rejection_code') got = got?.tag; if (got === undefined) got = null;
      if (want[1][k] === null && (k === 'rejection_reason' || k === 'error')) continue;
      const tt = k === 'approval_refund_block' ? [...t, 'C20'] : t;
      this.expect(got === want[1][k], tt, `${op.m} failed; ${k} is ${txt(got)}, expected ${txt(want[1][k])}`);
    }
  }

  // ---- responses to the ledger's outgoing calls ---------------------------------------
  // o: {k:'ok', cid?} | {k:'reject', code, msg} | {k:'garbled', amt, how, msg} | {k:'refunded', amt, msg} | {k:'refundfailed', msg, msg2} | {k:'unknown'}
  stubResponse(item, o) {
    const toMgmt = item.to === MGMT && item.method === 'deposit_cycles', toCmc = item.to === CMC && item.method === 'create_canister';
    const rej = (code, msg) => ({ reject: { code, msg }, refund: item.cycles });
    if (!toMgmt && !toCmc) return rej(3, 'no such method');
    if (o.k === 'reject') { this.count('faults', `reject:${o.code}`); return rej(o.code, o.msg); }
    if (toMgmt) {
      let arg; try { arg = decode(item.arg)[0]; } catch (e) { return rej(5, 'bad argument'); }
      const k = arg.canister_id?.principal; this.received.set(k, (this.received.get(k) ?? 0n) + item.cycles);
      if (o.k === 'unknown' && item.bestEffort) { this.count('faults', 'response-lost'); return { reject: { code: 6, msg: 'call deadline has expired' }, refund: 0n }; }
      return { reply: encode([], []), refund: 0n };
    }
    if (o.k === 'unknown' && item.bestEffort) { this.count('faults', 'response-lost'); return { reject: { code: 6, msg: 'call deadline has expired' }, refund: 0n }; }
    if (o.k === 'refunded') { const r = min(BigInt(o.amt), item.cycles); this.count('faults', 'cmc-refunded'); return { reply: encode([Ty.CmcResult], [{ tag: 'Err', val: { tag: 'Refunded', val: { refund_amount: r, create_error: o.msg } } }]), refund: r }; }
    if (o.k === 'garbled') { // an answer of another kind than the ledger knows, after keeping some of the cycles
      const r = min(BigInt(o.amt), item.cycles); this.count('faults', 'cmc-garbled-reply');
      const bytes = o.how === 'variant' ? encode([T.variant({ Ok: T.principal, Err: T.variant({ Throttled: T.text }) })], [{ tag: 'Err', val: { tag: 'Throttled', val: o.msg } }]) : o.how === 'none' ? new Uint8Array(0) : o.how === 'text' ? encode([T.text], [o.msg]) : o.how === 'void' ? encode([], []) : unhex(o.how);
      return { reply: bytes, refund: r, garbled: true };
    }
    if (o.k === 'refundfailed') { this.count('faults', 'cmc-refund-failed'); return { reply: encode([Ty.CmcResult], [{ tag: 'Err', val: { tag: 'RefundFailed', val: { create_error: o.msg, refund_error: o.msg2 } } }]), refund: 0n }; }
    return { reply: encode([Ty.CmcResult], [{ tag: 'Ok', val: unhex(o.cid ?? '00000000010000990101') }]), refund: 0n };
  }
  deliver(a) {
    const item = this.net.queue.get(a.id); if (!item) return;
    if (item.kind === 'response') {
      if (item.from === this.led) return this.toLedger(a, item.res);
      if (item.from === this.dep) return this.depResponse(a, item);
      if (item.from === this.cmcCan) return this.cmcResponse(a, item.res);
      return;
    }
    // a call
    if (item.from === this.dep) {
      if (a.o && a.o.k === 'reject') { this.count('faults', `reject:${a.o.code}`); return this.finishCall(item, { reject: { code: a.o.code, msg: a.o.msg }, refund: item.cycles }); }
      return this.depToLedger(a, item);
    }
    if (item.from === this.cmcCan) { // the fake CMC calling the management canister
      const o = a.o ?? { k: 'ok' };
      const res = o.k === 'exists' ? { reject: { code: 5, msg: 'IC0200: canister id already exists' }, refund: item.cycles } : { reply: encode([Ty.CreateCanisterResult], [{ canister_id: unhex(o.cid ?? '00000000010000980101') }]), refund: 0n };
      if (o.k === 'exists') this.count('faults', 'canister-id-exists');
      return this.cmcResponse(a, res);
    }
    if (item.from === this.led) {
      if (item.to === CMC && this.cmcCan) return this.cmcFromLedger(a, item);
      const o = a.o ?? { k: 'ok' };
      return this.toLedger(a, this.stubResponse(item, o));
    }
  }
  finishCall(item, res) { this.net.queue.set(item.id, { kind: 'response', id: item.id, from: item.from, to: item.to, res }); }
  toLedger(a, res) {
    const id = a.id, op = this.pend.get(id), now = this.net.now;
    const item = this.net.queue.get(id);
    const pre = this.preGauges();
    const opts = this.opts4(a);
    const rec = op?.rec;
    const had = rec?.cnt ?? 0;
    const c = this.net.deliverResponse(id, res, opts);
    this.cycles += res.refund; this.msgs++; this.stats.msgs++; this.faultStats(c, 'response', opts);
    this.count('methods', 'response');
    const inter = op && this.msgs - 1 > op.seq;
    if (inter) { this.probe('interleaved-response'); this.count('faults', 'delayed-response'); }
    const out = rec?.out ?? null;
    this.note(`resp ${id} ${out ? (out.reject ? out.reject.msg : hex(out.reply)) : ''} t${c.trap} p${c.points}`);
    if (!op) { // an unexpected call was answered
      this.after([], [], null, [], [], now); return;
    }
    this.pend.delete(id);
    const W = op.kind === 'withdraw', accs = [key(op.from)], pairs = op.usesAllowance ? [pkey(op.from, op.spender)] : [];
    const il = inter ? ['C12'] : [];
    for (const call of c.trap === null ? c.calls : []) { this.cycles -= call.cycles; this.expect(false, [W ? 'C08' : 'C10', 'C09', 'C11'], `the response handler of ${op.m} sent another call (${call.method}, ${call.cycles} cycles)`); }
    if (c.trap !== null) {
      const inj = c.injected || c.growFailed;
      if (!inj) this.expect(false, ['C31', ...il, ...(res.reject || W ? [W ? 'C09' : 'C11'] : ['C10', 'C11']), ...(op.spender ? ['C20'] : []), ...(this.hasExpiredMany() ? ['C18', 'C30'] : [])], `the response handler of ${op.m} trapped: ${c.trap} (response ${txt(res.reject ?? 'reply')})`);
      this.expect(c.cleanupTrap === undefined || c.cleanupTrap === null, ['C31'], `cleanup after a trapped response handler trapped: ${c.cleanupTrap}`);
      this.expect(rec.cnt === 1 && out.reject, ['C31', 'C05'], `after a trap in the response handler: response ${txt(out)}`);
      this.after(accs, pairs, [], ['C05'], [], now); this.sweep(['C05'], true);
      if (inj) this.probe('trap-in-response');
      this.sig.push('R:trap'); return;
    }
    if (!this.expect(rec.cnt === had + 1 && out && out.reply, ['C31', ...il], `${op.m}: response ${txt(out)} after its outgoing call was answered`)) { this.after(accs, pairs, null, il, accs, now); return; }
    let r; try { r = decode(out.reply)[0]; } catch (e) { r = { tag: '?' }; }
    // what happened at the callee
    let ok = false, cid = null, code = null, reason = null, returned = 0n;
    if (res.reject) { code = REJ[res.reject.code] ?? 'Unknown'; reason = res.reject.msg; returned = op.callAmt; } else if (W) ok = true;
    else if (res.garbled) { code = 'CanisterError'; returned = res.refund; this.probe('garbled-reply'); }
    else {
      const v = decode(res.reply)[0];
      if (v.tag === 'Ok') { ok = true; cid = v.val.principal; } else { code = 'CanisterError'; if (v.val.tag === 'Refunded') { returned = v.val.val.refund_amount; reason = v.val.val.create_error; } else { reason = `create_error: ${v.val.val.create_error}, refund error: ${v.val.val.refund_error}`; } }
    }
    const unk = res.reject && res.refund !== op.callAmt; // a call whose fate the ledger was not told (best effort)
    if (unk) { code = 'Unknown'; this.probe('unknown-outcome'); }
    let exp = [], tags;
    if (ok) {
      tags = [W ? 'C08' : 'C10', ...il];
      if (W) this.expect(r.tag === 'Ok' && r.val === BigInt(op.idx), [...tags, 'C31'], `${op.m} was delivered but answered ${txt(r)}, expected Ok(${op.idx})`);
      else this.expect(r.tag === 'Ok' && r.val.block_id === BigInt(op.idx) && r.val.canister_id?.principal === cid, [...tags, 'C31'], `${op.m} succeeded but answered ${txt(r)}, expected block ${op.idx} canister ${cid}`);
      if (!W && op.key) { const d = this.dedup.get(op.key); if (d && d.idx === op.idx) d.cid = cid; }
      this.probe(op.kind + '-succeeded');
    } else {
      tags = [W ? 'C09' : 'C11', ...il, ...(op.spender ? ['C20'] : []), ...(res.garbled ? ['C02'] : [])];
      if (unk) { // refunding cycles that never came back would break solvency; otherwise nothing is specified
        this.after(accs, pairs, null, ['C02', ...tags], accs, now); this.sig.push('R:unk'); return;
      }
      this.failBase = this.log.length;
      const F = this.failure(op, returned, now); this.failBase = null; exp = F.blocks;
      if (this.expect(r.tag === 'Err', [...tags, 'C31'], `${op.m} failed at the callee but answered ${txt(r)}`)) this.checkFailureReply(op, r.val, code, reason, F);
    }
    this.after(accs, pairs, exp, tags, accs, now);
    if (inter) this.sweep(il, false);
    this.sig.push('R:' + (ok ? 'ok' : code) + (inter ? 'i' : ''));
    this.count('outcomes', `${op.m}:${ok ? 'delivered' : 'failed'}`);
    if (pre && !ok && exp.length && !this.onBase) this.checkPruned(pre, 3);
  }
  preGauges() {
    if (!this.opts.metrics) return null;
    const g = this.gauges(); this.led.endQueries();
    if (g) g.dead = Math.max(0, g.number_of_approvals - [...this.M.allow.values()].filter((e) => e.exp === 0n || e.exp > this.net.now).length);
    return g;
  }
  hasExpiredMany() { let n = 0; for (const e of this.M.allow.values()) if (e.exp !== 0n && e.exp <= this.net.now) n++; return n > 100; }

  // ---- the depositor helper ------------------------------------------------------------
  depRequest(a) {
    const rec = { n: a.n, a, out: null, cnt: 0, want: BigInt(a.a.cycles) }; this.deps.set(a.n, rec);
    const before = this.dep.cycles; rec.before = before;
    const opts = this.opts4(a); if (opts.fault) opts.fault.eff = opts.fault.eff ?? true;
    const c = this.net.deliverCall(this.dep, 'd' + a.n, { method: 'deposit', caller: unhex(a.by), arg: Ty.encodeRequest('deposit', a.a, true), cycles: 0n, opts }, (o) => { rec.out = o; rec.cnt++; });
    this.stats.msgs++; this.faultStats(c, 'depositor', opts); this.note(`dep ${a.n} ${c.trap}`);
    const cannot = rec.want > min(opts.lowLiquid ?? before, before) || (c.performFails ?? 0) > 0;
    if (c.trap !== null || cannot) {
      this.expect(c.trap !== null && (c.injected || cannot), ['C33'], `depositor trapped: ${c.trap} (asked to send ${rec.want} of ${before})`);
      this.expect(rec.out?.reject && this.dep.cycles === before, ['C33'], 'depositor failed but lost cycles or gave no error');
      this.sig.push('D:trap'); return;
    }
    const call = c.calls[0];
    this.expect(c.calls.length === 1 && !rec.out, ['C33'], `depositor made ${c.calls.length} calls`);
    if (!call) return;
    let arg = null; try { arg = decode(call.arg)[0]; } catch (e) { /* judged below */ }
    this.expect(hex(call.callee) === LEDGER && call.method === 'deposit', ['C33'], `depositor called ${hex(call.callee)}.${call.method}`);
    this.expect(call.cycles === rec.want, ['C33'], `depositor attached ${call.cycles} cycles, asked for ${rec.want}`);
    const to = arg?.to && [arg.to.owner.principal, arg.to.subaccount ? hex(arg.to.subaccount) : null];
    this.expect(to && to[0] === a.a.to[0] && to[1] === a.a.to[1] && (arg.memo ? hex(arg.memo) : null) === (a.a.memo ?? null), ['C33'], `depositor forwarded ${txt(arg)} for ${txt(a.a)}`);
    rec.call = call.id; rec.fwd = { to: to ?? a.a.to, memo: arg?.memo ? hex(arg.memo) : null };
    this.sig.push('D:sent');
  }
  depToLedger(a, item) {
    const rec = [...this.deps.values()].find((r) => r.call === item.id);
    const lr = { n: 'L' + item.id, a, out: null, cnt: 0 };
    let aa = rec?.fwd; if (!aa || this.impossible(item.cycles)) { this.finishCall(item, { reject: { code: 3, msg: 'unexpected call' }, refund: item.cycles }); return; }
    this.net.queue.delete(item.id);
    this.runOnLedger(lr, 'deposit', aa, DEPOSITOR, item.cycles, item.arg, this.opts4(a), (o) => { lr.out = o; lr.cnt++; });
    if (rec) rec.led = lr.out;
    if (a.lost && item.bestEffort) { // only calls that do not insist on a response can lose it
      this.count('faults', 'response-lost');
      return this.finishCall(item, { reject: { code: 6, msg: 'call deadline has expired' }, refund: 0n });
    }
    this.finishCall(item, lr.out ?? { reject: { code: 5, msg: 'no response' }, refund: item.cycles });
  }
  depResponse(a, item) {
    const rec = [...this.deps.values()].find((r) => r.call === item.id), opts = this.opts4(a);
    const c = this.net.deliverResponse(item.id, item.res, opts);
    this.stats.msgs++; this.faultStats(c, 'depositor-response', opts); this.note(`depresp ${item.id} ${c.trap}`);
    if (!rec) return;
    const inj = c.injected;
    if (item.res.reject) {
      this.expect(rec.cnt === 1 && rec.out.reject, ['C33'], `ledger call failed (${item.res.reject.msg}) but depositor answered ${txt(rec.out)}`);
      this.expect(item.res.refund === rec.want, ['C33', 'C04'], 'a refused deposit kept cycles');
      this.expect(!rec.led?.reply, ['C33'], `the depositor answered ${txt(rec.out)} although the ledger credited the deposit`);
      this.probe('depositor-refused');
    } else if (!inj) {
      this.expect(c.trap === null && rec.cnt === 1 && rec.out.reply, ['C33', 'C31'], `depositor answered ${txt(rec.out)} (trap ${c.trap}) although the ledger accepted`);
      if (rec.out?.reply) { const x = decode(rec.out.reply)[0], y = decode(item.res.reply)[0]; this.expect(x.balance === y.balance && x.block_index === y.block_index, ['C33'], `depositor answered ${txt(x)}, the ledger ${txt(y)}`); }
      this.probe('depositor-ok');
    } else this.expect(rec.cnt === 1 && rec.out.reject, ['C33', 'C31'], 'no error after a trap in the depositor');
    // conservation at the depositor: all sends so far minus refunds
    let out = 0n; for (const r of this.deps.values()) { if (!r.call || r === rec) continue; if (this.net.queue.has(r.call) || r.pending) out += r.want; }
    rec.settled = true; rec.kept = rec.want - item.res.refund;
    let spent = 0n; for (const r of this.deps.values()) { if (r.settled) spent += r.kept; else if (r.call) spent += r.want; }
    this.expect(this.dep.cycles === (1n << 120n) - spent, ['C33'], `depositor holds ${this.dep.cycles}, expected ${(1n << 120n) - spent}`);
    this.sig.push('D:' + (item.res.reject ? 'rej' : 'ok'));
  }

  // ---- the fake CMC ---------------------------------------------------------------------
  cmcRequest(a) {
    const rec = { n: a.n, out: null, cnt: 0 }; const t = ['C34'];
    if (a.m === 'fail_next_create_canister_with') {
      const e = a.a.k === 'refunded' ? { tag: 'Refunded', val: { refund_amount: BigInt(a.a.amt), create_error: a.a.msg } } : { tag: 'RefundFailed', val: { create_error: a.a.msg, refund_error: a.a.msg2 } };
      this.net.deliverCall(this.cmcCan, 'c' + a.n, { method: a.m, caller: unhex(a.by), arg: encode([Ty.CmcError], [e]), cycles: 0n }, (o) => { rec.out = o; });
      this.stats.msgs++; this.expect(rec.out?.reply, t, `fail_next_create_canister_with: ${txt(rec.out)}`); this.cmc.failNext = a.a; this.sig.push('F'); return;
    }
    // a direct create_canister by a user with cycles
    const arg = encode([Ty.CmcArgs], [Ty.cmcArgs(a.a.args ?? {})]);
    if (this.cmcFull(BigInt(a.cyc))) return;
    this.runCmc('c' + a.n, a.by, arg, BigInt(a.cyc), cmcNorm(decode(arg)[0]), (o) => { rec.out = o; rec.cnt++; }, rec);
  }
  // More cycles than exist in the world (2^128) cannot meet in one canister.
  cmcFull(cyc) {
    let t = this.cmcCan.cycles + cyc; for (const q of this.net.queue.values()) if (q.from === this.cmcCan) t += q.cycles ?? q.res?.refund ?? 0n;
    if (t <= U128) return false; this.probe('skipped-impossible-cycles'); return true;
  }
  cmcFromLedger(a, item) {
    if (this.cmcFull(item.cycles)) return this.finishCall(item, { reject: { code: 2, msg: 'no room' }, refund: item.cycles });
    const rec = { n: item.id, out: null, cnt: 0, item };
    this.net.queue.delete(item.id);
    let norm = null; try { norm = cmcNorm(decode(item.arg)[0]); } catch (e) { /* undecodable: the CMC rejects */ }
    this.runCmc('l' + item.id, LEDGER, item.arg, item.cycles, norm, (o) => { rec.out = o; rec.cnt++; this.finishCall(item, o); }, rec);
  }
  runCmc(id, by, arg, cyc, norm, respond, rec) {
    const t = ['C34'], c0 = this.cmcCan.cycles;
    const c = this.net.deliverCall(this.cmcCan, id, { method: 'create_canister', caller: unhex(by), arg, cycles: cyc }, respond);
    this.stats.msgs++; this.note(`cmc ${id} ${c.trap}`); rec.cyc = cyc;
    const out = rec.out, dec = out?.reply ? decode(out.reply)[0] : null;
    if (cyc < 100_000_000_000n) {
      this.expect(dec && dec.tag === 'Err' && dec.val.tag === 'Refunded' && dec.val.val.refund_amount === cyc && out.refund === cyc, t, `fake CMC with ${cyc} cycles answered ${txt(dec ?? out)} refund ${out?.refund}`);
      this.probe('cmc-too-few'); this.sig.push('C:few');
    } else {
      this.cmc.last = norm;
      const f = this.cmc.failNext; this.cmc.failNext = null;
      if (f) {
        const keep = f.k === 'refunded' ? cyc - min(BigInt(f.amt), cyc) : cyc;
        this.expect(dec && dec.tag === 'Err' && dec.val.tag === (f.k === 'refunded' ? 'Refunded' : 'RefundFailed') && dec.val.val.create_error === f.msg && (f.k !== 'refunded' || dec.val.val.refund_amount === BigInt(f.amt)), t, `fake CMC told to fail with ${txt(f)} answered ${txt(dec ?? out)}`);
        this.expect(out && out.refund === cyc - keep, t, `fake CMC kept ${out ? cyc - out.refund : '?'} of ${cyc}, expected ${keep}`);
        this.probe('cmc-programmed-failure'); this.sig.push('C:fail');
      } else {
        this.expect(!out && c.calls.length === 1 && c.calls[0].method === 'create_canister' && hex(c.calls[0].callee) === MGMT, t, `fake CMC answered ${txt(dec ?? out)} / made ${c.calls.length} calls`);
        if (c.calls[0]) this.checkCmcCall(c.calls[0], cyc, norm);
        this.cmcReqs.set(id, { rec, cyc, norm, respond }); this.sig.push('C:go');
      }
    }
    const la = this.cmcCan.query('last_create_canister_args', unhex(ANON), encode([], []));
    if (this.cmc.last) this.expect(la.trap === null && canon(cmcNorm(decode(la.reply)[0])) === canon(this.cmc.last), t, `fake CMC last arguments are ${la.trap ?? txt(decode(la.reply)[0])}, expected ${canon(this.cmc.last)}`);
    this.cmcCan.endQueries();
  }
  checkCmcCall(call, cyc, norm) {
    let a = null; try { a = decode(call.arg)[0]; } catch (e) { /* judged below */ }
    this.expect(call.cycles === cyc, ['C34'], `fake CMC attached ${call.cycles} of ${cyc} cycles`);
    this.expect(a && canon(cmcNorm(a).settings) === canon(norm?.settings), ['C34'], `fake CMC forwarded ${txt(a)}, expected ${canon(norm)}`);
  }
  cmcResponse(a, res) {
    const id = a.id, ctxId = id.replace(/\.\d+$/, ''), r = this.cmcReqs.get(ctxId);
    const c = this.net.deliverResponse(id, res, {});
    this.stats.msgs++; this.note(`cmcresp ${id} ${c.trap}`);
    if (!r) return;
    const out = r.rec.out;
    if (res.reject) { this.expect(c.trap === null && c.calls.length === 1, ['C34'], `fake CMC did not try the next canister id: ${txt(out)} ${c.trap}`); if (c.calls[0]) this.checkCmcCall(c.calls[0], r.cyc, r.norm); this.sig.push('C:again'); return; }
    const want = decode(res.reply)[0].canister_id.principal, dec = out?.reply ? decode(out.reply)[0] : null;
    this.expect(dec && dec.tag === 'Ok' && dec.val.principal === want && r.rec.cnt === 1 && out.refund === 0n, ['C34'], `fake CMC answered ${txt(dec ?? out)}, created ${want}`);
    this.probe('cmc-created'); this.sig.push('C:done');
  }

  // ---- explicit queries --------------------------------------------------------------
  query(a) {
    const by = a.by ?? ANON; this.count('methods', 'q:' + a.m);
    const before = this.opts.qpure ? this.fingerprint() : null;
    switch (a.m) {
      case 'blocks': {
        const ranges = a.r.map(([s, l]) => ({ start: BigInt(s), length: BigInt(l) }));
        const r = this.ask('icrc3_get_blocks', [Ty.GetBlocks], [ranges], by, ['C26']); if (!r) break;
        const want = []; const n = BigInt(this.log.length); let left = this.conf.max;
        for (const { start, length } of ranges) { if (left <= 0n) break; if (start >= n) continue; const e = min(n, start + min(length, left)); for (let i = start; i < e; i++) { want.push(i); left--; } }
        this.expect(r.log_length === n, ['C26', 'C22'], `get_blocks log_length ${r.log_length}, expected ${n}`);
        this.expect(r.archived_blocks.length === 0, ['C26'], 'archived blocks announced');
        const got = r.blocks.map((b) => b.id).join(), w = want.join();
        this.expect(got === w, ['C26'], `get_blocks(${txt(a.r)}) with maximum ${this.conf.max} and ${n} blocks returned ids [${got}], expected [${w}]`);
        for (const b of r.blocks) { const e = this.log[Number(b.id)]; if (e && e.h) this.expect(hex(hashValue(b.block)) === e.h, ['C26', 'C22'], `block ${b.id} differs from what was returned before`); }
        break;
      }
      case 'list': this.listing(a, by, []); break;
      case 'pages': this.pages(a, by); break;
      case 'balance': { const v = this.ask('icrc1_balance_of', [Ty.Account], [Ty.acc(a.acc)], by); const k = key(a.acc); this.expect(v === undefined || v === this.M.b(k), ['C32'], `balance of ${txt(a.acc)} is ${v}, expected ${this.M.b(k)}`); break; }
      case 'allowance': { const v = this.ask('icrc2_allowance', [Ty.AllowanceArgs], [{ account: Ty.acc(a.f), spender: Ty.acc(a.s) }], by); if (!v) break; const e = this.M.eff(a.f, a.s, this.net.now), raw = this.M.allow.get(pkey(a.f, a.s)); this.expect(v.allowance === e.amt && expOf(v) === e.exp, ['C32', 'C17', ...(raw?.exp ? ['C18'] : [])], `allowance ${txt([a.f, a.s])} is ${txt(v)} at ${this.net.now}, expected ${txt(e)}`); break; }
      case 'static': {
        const e = { icrc1_name: 'Trillion Cycles', icrc1_symbol: 'TCYCLES', icrc1_decimals: 12, icrc1_fee: FEE, icrc1_minting_account: null };
        for (const k in e) { const v = this.ask(k, [], [], by); this.expect(v === undefined || v === e[k], ['C32'], `${k} is ${txt(v)}`); }
        const s = this.ask('icrc1_supported_standards', [], [], by), s10 = this.ask('icrc10_supported_standards', [], [], by);
        for (const st of ['ICRC-1', 'ICRC-2', 'ICRC-3', 'ICRC-10', 'ICRC-103', 'ICRC-106']) for (const l of [s, s10]) if (l) this.expect(l.some((x) => x.name === st), ['C32'], `${st} not listed as supported`);
        const bt = this.ask('icrc3_supported_block_types', [], [], by); if (bt) this.expect(bt.map((x) => x.block_type).sort().join() === '1burn,1mint,2approve,2xfer', ['C32'], 'supported block types ' + txt(bt));
        const ar = this.ask('icrc3_get_archives', [Ty.GetArchives], [{ from: null }], by, ['C26']); if (ar) this.expect(ar.length === 0, ['C26', 'C32'], 'archives announced');
        break;
      }
      case 'http': { const v = this.ask('http_request', [Ty.Http], [{ url: a.url, method: 'GET', body: new Uint8Array(0), headers: [] }], by); const want = /^\/(metrics|logs)(\?|$)/.test(a.url) ? 200 : 404; if (!v) break;
        this.expect(v.status_code === want, ['C32'], `GET ${a.url} answered ${v.status_code}`);
        const cl = v.headers.find((h) => h['0'].toLowerCase() === 'content-length');
        if (cl) this.expect(Number(cl['1']) === v.body.length, ['C32'], `GET ${a.url} announced ${cl['1']} bytes and sent ${v.body.length}`);
        if (want === 200 && a.url.startsWith('/logs')) { let ok; try { ok = Array.isArray(JSON.parse(Buffer.from(v.body).toString()).entries); } catch { ok = false; } this.expect(ok, ['C32'], 'the log is not well-formed JSON with a list of entries'); }
        break; }
      case 'tip': this.checkTip([]); break;
      case 'audit': this.sweep([], true); break;
      default: throw new SimError('query ' + a.m);
    }
    this.led.endQueries();
    if (before !== null) this.expect(before === this.fingerprint(), ['C32'], `query ${a.m} changed the canister's persistent state`);
    this.note('q ' + a.m);
  }
  fingerprint() { return `${this.led.stable.pages}:${this.led.stable.chunks.size}:${hex(this.led.certified)}:${this.led.cycles}`; }
  // Follows the pages of the allowance listing, with other requests possible in between
  // only if the driver interleaves them (it does: `a.cursor` continues an earlier walk).
  pages(a, by) {
    const seen = []; let prev = null, from = a.from;
    for (let i = 0; i < 60; i++) {
      const g = this.listing({ from, prev, take: a.take }, by, []); if (!g || g.length === 0) break;
      seen.push(...g.map((x) => key(x[0]) + '|' + key(x[1])));
      from = g[g.length - 1][0]; prev = g[g.length - 1][1];
    }
    const now = this.net.now, st = a.from ?? [by, null];
    const want = [...this.M.allow].filter(([k, e]) => (e.exp === 0n || e.exp > now) && k.startsWith(st[0] + ':') && cmpAcc(unkey(k.split('|')[0]), st) >= 0).length;
    this.expect(new Set(seen).size === seen.length, ['C21'], 'paging listed an allowance twice');
    if (seen.length < 60) this.expect(seen.length === want, ['C21'], `paging by ${a.take} visited ${seen.length} allowances of ${want}`);
    this.probe('paged-walk');
  }

  // ---- bulk helpers (many plain requests in one action) ---------------------------------
  bulk(a) {
    this.light = true;
    if (a.k === 'answer') return this.bulkAnswer(a);
    for (let i = 0; i < a.count && !this.aborted && this.viol.length === 0; i++) {
      this.net.now += BigInt(a.dt ?? 1);
      const sub = i.toString(16).padStart(64, '0');
      const r = { t: 'req', n: `${a.n}b${i}`, by: a.by };
      if (a.k === 'approve') Object.assign(r, { m: 'icrc2_approve', a: { fs: a.fs ?? null, sp: [a.sp, sub], amt: String(BigInt(a.amt) + BigInt(i)), exp: a.exp ?? null, fee: null, xa: null, memo: null, cat: null } });
      else if (a.k === 'xfer') Object.assign(r, { m: 'icrc1_transfer', a: { fs: a.fs ?? null, to: a.to, amt: a.amt, fee: null, memo: null, cat: a.cat ? String(this.net.now) : null } });
      else if (a.k === 'send') { // withdrawals and canister creations that stay unanswered for now
        const n = a.way === 'mixed' ? i % 2 : a.way === 'create' ? 1 : 0, x = { amt: String(BigInt(a.amt) + BigInt(i)), cat: a.cat ? String(this.net.now) : null };
        if (n) Object.assign(x, { args: undefined }); else x.to = a.to;
        if (a.sp) Object.assign(r, { by: a.sp[0], m: n ? 'create_canister_from' : 'withdraw_from', a: { ss: a.sp[1], from: [a.by, a.fs ?? null], ...x } });
        else Object.assign(r, { m: n ? 'create_canister' : 'withdraw', a: { fs: a.fs ?? null, ...x } });
      }
      this.request(r);
      if (this.dirty) this.finish();
    }
    this.light = false; this.count('methods', 'bulk:' + a.k); this.sig.push('B' + a.k);
  }

  // Answers up to `count` of the ledger's outstanding calls, oldest, newest or middle first.
  bulkAnswer(a) {
    for (let i = 0; i < a.count && !this.aborted && this.viol.length === 0; i++) {
      const ids = [...this.pend.keys()].filter((id) => this.net.queue.has(id)); if (!ids.length) break;
      this.net.now += BigInt(a.dt ?? 1);
      const id = ids[a.order === 'new' ? ids.length - 1 : a.order === 'mid' ? ids.length >> 1 : 0];
      const o = a.every && i % a.every === 0 ? { k: 'ok', cid: (i + 4096).toString(16).padStart(16, '0') + '0101' } : { k: 'reject', code: 1 + i % 5, msg: 'many' };
      this.deliver({ id, o });
      if (this.dirty) this.finish();
    }
    this.light = false; this.count('methods', 'bulk:answer'); this.sig.push('Banswer');
  }

  exec(a) {
    if (this.aborted) return;
    this.step++; this.stats.steps++; this.viol = []; this.dirty = false;
    if (a.at) { const t = BigInt(a.at); if (t > this.net.now) { const d = t - this.net.now; this.net.now = t; if (d >= 1_000_000_000_000n) this.count('faults', 'clock-jump'); } }
    for (const can of this.net.canisters.values()) this.net.wake(can, 'w' + this.step);
    switch (a.t) {
      case 'req': if ((a.c === 'dep' && !this.dep) || (a.c === 'cmc' && !this.cmcCan)) break; this.request(a); break;
      case 'dlv': this.deliver(a); break;
      case 'upg': this.upgrade(a); break;
      case 'q': this.query(a); break;
      case 'bulk': this.bulk(a); break;
      case 'tick': break;
      case 'end': this.ending(); break;
      default: throw new SimError('action ' + a.t);
    }
    this.finish();
  }
  // Final audit.
  ending() {
    this.expect(this.led.contexts.size === this.pend.size, ['C31'], `${this.led.contexts.size} call contexts open with ${this.pend.size} outgoing calls unanswered`);
    for (const r of this.reqs.values()) if (r.op) this.expect(r.cnt === 1 || (r.op.call && this.pend.has(r.op.call)), ['C31'], `request ${r.n} got ${r.cnt} responses`);
    this.sweep([], true);
    let net = 0n; for (const v of this.received.values()) net += v;
    this.note(`end ${this.log.length} ${this.M.supply} ${this.led.cycles} ${net} ${hex(this.led.certified)}`);
  }
}

function cmcNorm(x) {
  const st = x.settings ?? {}, o = {};
  for (const k of ['compute_allocation', 'memory_allocation', 'freezing_threshold', 'reserved_cycles_limit', 'wasm_memory_limit', 'wasm_memory_threshold']) if (st[k] !== undefined && st[k] !== null) o[k] = String(st[k]);
  const lv = st.log_visibility; if (lv) o.log_visibility = lv.tag === 'allowed_viewers' ? ['viewers', ...lv.val.map((p) => p.principal)] : lv.tag;
  if (st.environment_variables) o.environment_variables = st.environment_variables.map((e) => e.name + '=' + e.value);
  if (st.controllers) o.controllers = st.controllers.map((p) => p.principal);
  for (const k of Object.keys(st)) if (!['compute_allocation', 'memory_allocation', 'freezing_threshold', 'reserved_cycles_limit', 'wasm_memory_limit', 'wasm_memory_threshold', 'log_visibility', 'environment_variables', 'controllers'].includes(k) && st[k] !== null) o[k] = txt(st[k]);
  const s = x.subnet_selection;
  return { settings: o, subnet: s ? (s.tag === 'Subnet' ? 'S' + s.val.subnet.principal : 'F' + (s.val.subnet_type ?? '')) : undefined };
}
