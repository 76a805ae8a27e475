// Minimal Candid encoder/decoder (the subset the canisters use), SHA-256/ICRC-3
// hashing, LEB128 and a small CBOR reader.  Independent of the Rust code under test.
import { createHash } from 'node:crypto';

export const sha256 = (...bs) => { const h = createHash('sha256'); for (const b of bs) h.update(b); return new Uint8Array(h.digest()); };
const te = new TextEncoder(), td = new TextDecoder();

export function fieldHash(n) { if (/^\d+$/.test(n)) return Number(n); let h = 0; for (const b of te.encode(n)) h = (Math.imul(h, 223) + b) >>> 0; return h; }
const NAMES = `owner subaccount allowance expires_at account spender from_subaccount amount expected_allowance fee memo created_at_time
BadFee expected_fee InsufficientFunds balance AllowanceChanged current_allowance Expired ledger_time TooOld CreatedInFuture Duplicate duplicate_of
TemporarilyUnavailable GenericError message error_code to block_index NoError CanisterError SysTransient DestinationInvalid Unknown SysFatal CanisterReject
FailedToWithdraw fee_block rejection_code rejection_reason InvalidReceiver receiver spender_subaccount from FailedToWithdrawFrom withdraw_from_block refund_block
approval_refund_block InsufficientAllowance url name block_type BadBurn min_burn_amount Int Map Nat Nat64 Blob Text Array canister_id start end length log_length blocks id block
archived_blocks args callback certificate hash_tree max_blocks_per_request index_id initial_balances Unset SetTo change_index_id Init Upgrade creation_args settings
subnet_selection value controllers public allowed_viewers compute_allocation memory_allocation freezing_threshold reserved_cycles_limit wasm_memory_limit
wasm_memory_threshold log_visibility environment_variables Subnet subnet Filter subnet_type block_id FailedToCreate error FailedToCreateFrom create_from_block
method body headers status_code from_account prev_spender take to_spender AccessDenied reason IndexPrincipalNotSet description Ok Err ledger_id cycles
Refunded refund_amount create_error RefundFailed refund_error sender_canister_version data timestamp_seconds xdr_permyriad_per_icp log_memory_limit snapshot_visibility`.split(/\s+/);
const DICT = new Map(NAMES.map((n) => [fieldHash(n), n]));
const nameOf = (h) => DICT.get(h) ?? String(h);

export function leb(n) { n = BigInt(n); if (n < 0n) throw new RangeError("negative " + n); const o = []; do { let b = Number(n & 127n); n >>= 7n; if (n) b |= 128; o.push(b); } while (n); return Uint8Array.from(o); }
export function sleb(n) { n = BigInt(n); const o = []; for (;;) { const b = Number(n & 127n); n >>= 7n; const done = (n === 0n && !(b & 64)) || (n === -1n && (b & 64)); o.push(done ? b : b | 128); if (done) return Uint8Array.from(o); } }

// ---- type constructors -------------------------------------------------------
const prim = (code, enc) => ({ k: 'prim', code, enc });
const le = (n, w) => { const b = new Uint8Array(w); let x = BigInt(n); for (let i = 0; i < w; i++) { b[i] = Number(x & 255n); x >>= 8n; } if (x !== 0n) throw new Error('value out of range: ' + n); return b; };
export const T = {
  null: prim(-1, () => new Uint8Array(0)),
  bool: prim(-2, (v) => Uint8Array.of(v ? 1 : 0)),
  nat: prim(-3, (v) => leb(v)), int: prim(-4, (v) => sleb(v)),
  nat8: prim(-5, (v) => le(v, 1)), nat16: prim(-6, (v) => le(v, 2)), nat32: prim(-7, (v) => le(v, 4)), nat64: prim(-8, (v) => le(v, 8)),
  text: prim(-15, (v) => { const b = te.encode(v); return cat(leb(b.length), b); }),
  principal: prim(-24, (v) => cat(Uint8Array.of(1), leb(v.length), v)),
  opt: (t) => ({ k: 'opt', t }), vec: (t) => ({ k: 'vec', t }),
  record: (f) => ({ k: 'record', f: fields(f) }), variant: (f) => ({ k: 'variant', f: fields(f) }),
  tuple: (...ts) => ({ k: 'record', f: ts.map((t, i) => ({ h: i, n: String(i), t })) }),
};
T.blob = T.vec(T.nat8);
function fields(f) { return Object.entries(f).map(([n, t]) => ({ h: fieldHash(n), n, t })).sort((a, b) => a.h - b.h); }
export function cat(...bs) { let n = 0; for (const b of bs) n += b.length; const r = new Uint8Array(n); let o = 0; for (const b of bs) { r.set(b, o); o += b.length; } return r; }

export function encode(types, vals) {
  const table = [], idx = new Map();
  const ref = (t) => {
    if (t.k === 'prim') return sleb(t.code);
    if (idx.has(t)) return sleb(idx.get(t));
    const i = table.length; idx.set(t, i); table.push(null);
    let e;
    if (t.k === 'opt') e = cat(sleb(-18), ref(t.t));
    else if (t.k === 'vec') e = cat(sleb(-19), ref(t.t));
    else { const parts = [sleb(t.k === 'record' ? -20 : -21), leb(t.f.length)]; for (const f of t.f) parts.push(leb(f.h), ref(f.t)); e = cat(...parts); }
    table[i] = e; return sleb(i);
  };
  const val = (t, v) => {
    switch (t.k) {
      case 'prim': return t.enc(v);
      case 'opt': return v === null || v === undefined ? Uint8Array.of(0) : cat(Uint8Array.of(1), val(t.t, v));
      case 'vec': if (v instanceof Uint8Array) return cat(leb(v.length), v); return cat(leb(v.length), ...v.map((x) => val(t.t, x)));
      case 'record': return cat(...t.f.map((f) => val(f.t, v[f.n])));
      case 'variant': { const tag = typeof v === 'string' ? v : v.tag; const i = t.f.findIndex((f) => f.n === tag); if (i < 0) throw new Error('variant ' + tag); return cat(leb(i), val(t.f[i].t, v.val)); }
    }
  };
  const refs = types.map(ref), vs = types.map((t, i) => val(t, vals[i]));
  return cat(te.encode('DIDL'), leb(table.length), ...table, leb(types.length), ...refs, ...vs);
}

export function decode(bytes) {
  let p = 0;
  const need = (n) => { if (p + n > bytes.length) throw new Error('candid: truncated'); };
  const rleb = () => { let r = 0, s = 0; for (;;) { need(1); const b = bytes[p++]; if (s < 28) r |= (b & 127) << s; else r += (b & 127) * 2 ** s; if (!(b & 128)) return r; s += 7; } };
  const rlebBig = () => {
    const st = p; need(1); while (bytes[p] & 128) { p++; need(1); } p++;
    if (p - st <= 4) { let r = 0; for (let i = p - 1; i >= st; i--) r = (r << 7) | (bytes[i] & 127); return BigInt(r); }
    let r = 0n; for (let i = p - 1; i >= st; i--) r = (r << 7n) | BigInt(bytes[i] & 127); return r;
  };
  const rsleb = () => { let r = 0n, s = 0n, b; do { need(1); b = bytes[p++]; r |= BigInt(b & 127) << s; s += 7n; } while (b & 128); if (b & 64) r -= 1n << s; return r; };
  const rle = (w) => { need(w); let r = 0n; for (let i = w - 1; i >= 0; i--) r = (r << 8n) | BigInt(bytes[p + i]); p += w; return r; };
  if (bytes.length < 4 || td.decode(bytes.subarray(0, 4)) !== 'DIDL') throw new Error('candid: no magic');
  p = 4;
  const nt = rleb(), table = [];
  for (let i = 0; i < nt; i++) {
    const c = Number(rsleb());
    if (c === -18 || c === -19) table.push({ c, t: Number(rsleb()) });
    else if (c === -20 || c === -21) { const n = rleb(), f = []; for (let j = 0; j < n; j++) { const h = rleb(); f.push({ n: nameOf(h >>> 0), t: Number(rsleb()) }); } table.push({ c, f }); }
    else if (c === -22) { const skip = () => { const n = rleb(); for (let j = 0; j < n; j++) rsleb(); }; skip(); skip(); const a = rleb(); p += a; table.push({ c }); }
    else throw new Error('candid: type ' + c);
  }
  const na = rleb(), ts = [];
  for (let i = 0; i < na; i++) ts.push(Number(rsleb()));
  const val = (t) => {
    if (t >= 0) {
      const e = table[t];
      switch (e.c) {
        case -18: { need(1); return bytes[p++] === 0 ? null : val(e.t); }
        case -19: {
          const n = rleb();
          if (e.t === -5) { need(n); const r = bytes.slice(p, p + n); p += n; return r; }
          const r = []; for (let i = 0; i < n; i++) r.push(val(e.t)); return r;
        }
        case -20: { const r = {}; for (const f of e.f) r[f.n] = val(f.t); return r; }
        case -21: { const i = rleb(); const f = e.f[i]; return { tag: f.n, val: val(f.t) }; }
        case -22: { p++; p++; const n = rleb(); const id = bytes.slice(p, p + n); p += n; const m = rleb(); const s = td.decode(bytes.subarray(p, p + m)); p += m; return { func: id, method: s }; }
      }
    }
    switch (t) {
      case -1: return null; case -2: need(1); return bytes[p++] === 1; case -3: return rlebBig(); case -4: return rsleb();
      case -5: return Number(rle(1)); case -6: return Number(rle(2)); case -7: return Number(rle(4)); case -8: return rle(8);
      case -9: return Number(BigInt.asIntN(8, rle(1))); case -10: return Number(BigInt.asIntN(16, rle(2))); case -11: return Number(BigInt.asIntN(32, rle(4))); case -12: return BigInt.asIntN(64, rle(8));
      case -15: { const n = rleb(); need(n); const s = td.decode(bytes.subarray(p, p + n)); p += n; return s; }
      case -16: return null;
      case -24: { p++; const n = rleb(); need(n); const b = bytes.slice(p, p + n); p += n; return { principal: Buffer.from(b).toString('hex') }; }
      default: throw new Error('candid: value of type ' + t);
    }
  };
  const out = ts.map(val);
  if (p !== bytes.length) throw new Error('candid: trailing bytes');
  return out;
}

// ---- ICRC-3 representation-independent hash of a generic Value ------------------
export function hashValue(v) {
  switch (v.tag) {
    case 'Nat': case 'Nat64': return sha256(leb(v.val));
    case 'Int': return sha256(sleb(v.val));
    case 'Blob': return sha256(v.val);
    case 'Text': return sha256(te.encode(v.val));
    case 'Array': return sha256(...v.val.map(hashValue));
    case 'Map': { const es = v.val.map((e) => Buffer.concat([sha256(te.encode(e['0'])), hashValue(e['1'])])); es.sort(Buffer.compare); return sha256(...es); }
    default: throw new Error('value ' + v.tag);
  }
}

// ---- CBOR (definite and indefinite lengths), enough for hash trees and memos ----
export function cbor(bytes) {
  let p = 0;
  const item = () => {
    const b = bytes[p++]; const mt = b >> 5; let ai = b & 31, n = ai;
    if (b === undefined) throw new Error('cbor: truncated');
    if (ai === 24) n = bytes[p++]; else if (ai === 25) { n = bytes[p] * 256 + bytes[p + 1]; p += 2; } else if (ai === 26) { n = ((bytes[p] * 256 + bytes[p + 1]) * 256 + bytes[p + 2]) * 256 + bytes[p + 3]; p += 4; } else if (ai === 27) { let r = 0n; for (let i = 0; i < 8; i++) r = (r << 8n) | BigInt(bytes[p++]); n = r; }
    const seq = (f) => { const r = []; if (ai === 31) { while (bytes[p] !== 255) r.push(f()); p++; } else for (let i = 0; i < n; i++) r.push(f()); return r; };
    switch (mt) {
      case 0: return n; case 1: return -1 - Number(n);
      case 2: if (ai === 31) return cat(...seq(item)); { const r = bytes.slice(p, p + Number(n)); p += Number(n); return r; }
      case 3: { const r = td.decode(bytes.slice(p, p + Number(n))); p += Number(n); return r; }
      case 4: return seq(item);
      case 5: return { map: seq(() => [item(), item()]) };
      case 6: return item();
      default: return { simple: ai };
    }
  };
  const r = item();
  if (p !== bytes.length) throw new Error('cbor: trailing bytes');
  return r;
}

// IC certification hash tree.
const dom = (s) => { const b = te.encode(s); return cat(Uint8Array.of(b.length), b); };
const D = { e: dom('ic-hashtree-empty'), f: dom('ic-hashtree-fork'), l: dom('ic-hashtree-labeled'), v: dom('ic-hashtree-leaf') };
const bytesOf = (x) => typeof x === 'string' ? te.encode(x) : x instanceof Uint8Array ? x : Uint8Array.from(x);
export function treeRoot(t) {
  switch (t[0]) {
    case 0: return sha256(D.e);
    case 1: return sha256(D.f, treeRoot(t[1]), treeRoot(t[2]));
    case 2: return sha256(D.l, bytesOf(t[1]), treeRoot(t[2]));
    case 3: return sha256(D.v, bytesOf(t[1]));
    case 4: return bytesOf(t[1]);
    default: throw new Error('hash tree node ' + t[0]);
  }
}
export function treeLeaves(t, out = {}) {
  if (t[0] === 1) { treeLeaves(t[1], out); treeLeaves(t[2], out); } else if (t[0] === 2 && t[2][0] === 3) out[td.decode(bytesOf(t[1]))] = bytesOf(t[2][1]);
  return out;
}
