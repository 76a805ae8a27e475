// A small scripted driver: the real canisters on a simulated platform (ic.mjs).
import fs from 'node:fs';
import path from 'node:path';
import zlib from 'node:zlib';
import { Net, hex, unhex } from './ic.mjs';
import { T, encode, decode, cbor, treeRoot, treeLeaves, hashValue, leb } from './candid.mjs';
import * as Ty from './types.mjs';
export { hex, unhex, T, encode, decode, Ty, cbor, treeRoot, treeLeaves, hashValue, leb };
export const FEE = 100_000_000n, U64 = (1n << 64n) - 1n, U128 = (1n << 128n) - 1n, DAY = 86_400_000_000_000n, MIN = 60_000_000_000n, SEC = 1_000_000_000n;
const user = (n) => String(n).repeat(56).slice(0, 56) + '02';
export const A = user(1), B = user(2), C = user(3), D = user(4), CAN = '00000000010000010101', CMC = '00000000000000040101';
export const LEDGER = '00000000020000020101', DEPOSITOR = '00000000030000050101';
const dir = process.argv[2];
const mod = (n) => new WebAssembly.Module(fs.readFileSync(path.join(dir, n + '.wasm')));
let bad = 0;
const show = (x) => JSON.stringify(x, (k, v) => typeof v === 'bigint' ? v.toString() : v instanceof Uint8Array ? hex(v) : v);
export function check(ok, msg, got) { if (!ok) { bad++; console.log('BROKEN: ' + msg + (got === undefined ? '' : ' -- got ' + show(got))); } }
export function eq(a, b, msg) { check(show(a) === show(b), msg + ', expected ' + show(b), a); }
export function done() { console.log(bad ? `${bad} broken expectations` : 'all expectations met'); process.exit(bad ? 1 : 0); }
process.on('uncaughtException', (e) => { console.log('BROKEN: ' + (e.stack ?? e)); process.exit(1); });
export class L {
  constructor({ balances = [], max = 1000, index = null, base = null, extra = 0n } = {}) {
    this.net = new Net(); this.n = 0;
    const funds = balances.reduce((s, [, n]) => s + BigInt(n), 0n) + extra;
    const m = base ? new WebAssembly.Module(zlib.gunzipSync(fs.readFileSync(base))) : mod('cycles-ledger');
    const x = this.net.install('ledger', unhex(LEDGER), m, Ty.encodeInit({ max: String(max), index, balances: balances.map(([a, n]) => [a, String(n)]) }), funds);
    check(x.c.trap === null, 'initialisation', x.c.trap); this.led = x.can;
  }
  get now() { return this.net.now; }
  set now(t) { this.net.now = t; }
  wait(d) { this.net.now += d; }
  // Sends a request.  Gives {ok}, {err:{tag,val}}, {trap}, or {pending:id}.
  call(m, by, a, cyc = 0n, opts = {}) {
    const full = { fs: null, ss: null, fee: null, memo: null, cat: null, xa: null, exp: null, ...a };
    for (const k of ['amt', 'fee', 'cat', 'xa', 'exp']) if (typeof full[k] === 'bigint') full[k] = String(full[k]);
    return this.raw(this.led, m, by, Ty.encodeRequest(m, full), cyc, opts);
  }
  raw(can, m, by, bytes, cyc = 0n, opts = {}) {
    const r = { id: 'm' + this.n++ }; let out = null;
    const c = this.net.deliverCall(can, r.id, { method: m, caller: unhex(by), arg: bytes, cycles: cyc, opts }, (o) => { out = o; r.out = o; });
    this.fill(r, out, c); return r;
  }
  fill(r, out, c) {
    r.calls = c.calls; r.trap = c.trap; delete r.pending;
    if (!out) { r.pending = c.calls?.[0]?.id; return; }
    r.refund = out.refund;
    if (out.reject) { r.reject = out.reject.msg; return; }
    const v = decode(out.reply)[0];
    if (v && v.tag === 'Ok') r.ok = v.val; else if (v && v.tag === 'Err') r.err = v.val; else r.ok = v;
  }
  // Answers the outgoing call of a pending request.
  answer(r, res, opts = {}) {
    const id = r.pending, item = this.net.queue.get(id); if (!item) { check(false, 'nothing to answer'); return r; }
    const full = res.reject ? { refund: item.cycles, ...res } : { refund: 0n, ...res };
    r.out = null; const c = this.net.deliverResponse(id, full, opts); this.fill(r, r.out, c); return r;
  }
  reject(r, code = 5, msg = 'no') { return this.answer(r, { reject: { code, msg } }); }
  deposited(r) { return this.answer(r, { reply: encode([], []) }); }
  created(r, cid = CAN) { return this.answer(r, { reply: encode([Ty.CmcResult], [{ tag: 'Ok', val: unhex(cid) }]) }); }
  cmcErr(r, tag, val, refund) { return this.answer(r, { reply: encode([Ty.CmcResult], [{ tag: 'Err', val: { tag, val } }]), refund }); }
  q(m, types = [], vals = [], by = '04') { const c = this.led.query(m, unhex(by), encode(types, vals)); check(c.trap === null, 'query ' + m, c.trap); const v = decode(c.reply)[0]; this.led.endQueries(); return v; }
  bal(a) { return this.q('icrc1_balance_of', [Ty.Account], [Ty.acc(a)]); }
  supply() { return this.q('icrc1_total_supply'); }
  allow(f, s) { const v = this.q('icrc2_allowance', [Ty.AllowanceArgs], [{ account: Ty.acc(f), spender: Ty.acc(s) }]); return [v.allowance, v.expires_at ?? null]; }
  blocks(s = 0, n = 10000) { return this.ranges([[s, n]]); }
  ranges(rs) { return this.q('icrc3_get_blocks', [Ty.GetBlocks], [rs.map(([s, n]) => ({ start: BigInt(s), length: BigInt(n) }))]); }
  list(by, a = {}) { const v = this.q('icrc103_get_allowances', [Ty.GetAllowances], [{ from_account: a.from ? Ty.acc(a.from) : null, prev_spender: a.prev ? Ty.acc(a.prev) : null, take: a.take ?? null }], by); return v.val; }
  gauge(n) { const v = this.q('http_request', [Ty.Http], [{ url: '/metrics', method: 'GET', body: new Uint8Array(0), headers: [] }]); const m = new RegExp('^cycles_ledger_' + n + ' (\\S+)', 'm').exec(Buffer.from(v.body).toString()); return Number(m?.[1]); }
  meta(n) { return this.q('icrc1_metadata').find((e) => e['0'] === n)?.['1']?.val ?? null; }
  tip() { // [index, hash] as certified, after checking the tree against the certified data
    const t = this.q('icrc3_get_tip_certificate'); if (!t) return null;
    const tree = cbor(t.hash_tree); eq(hex(treeRoot(tree)), hex(this.led.certified), 'hash tree root is the certified data');
    const l = treeLeaves(tree); return [hex(l.last_block_index), hex(l.last_block_hash)];
  }
  hash(i) { return hex(hashValue(this.blocks(i, 1).blocks[0].block)); }
  field(i, ...ks) { let v = this.blocks(i, 1).blocks[0].block; for (const k of ks) v = v?.val?.find?.((e) => e['0'] === k)?.['1']; return v?.val ?? null; }
  chain(msg = '') { const n = Number(this.blocks(0, 0).log_length); for (let i = 1; i < n; i++) { const p = this.field(i, 'phash'); eq(p ? hex(p) : null, this.hash(i - 1), `${msg} block ${i} links to block ${i - 1}`); } return n; }
  upgrade(u = null) { const c = this.net.upgrade(this.led, mod('cycles-ledger'), Ty.encodeUpgrade(u)); return c.trap; }
  depositor() { const x = this.net.install('depositor', unhex(DEPOSITOR), mod('depositor'), encode([Ty.DepInit], [{ ledger_id: unhex(LEDGER) }]), 1n << 100n); return x.can; }
  fakeCmc() { return this.net.install('fake-cmc', unhex(CMC), mod('fake-cmc'), encode([], []), 0n).can; }
}
