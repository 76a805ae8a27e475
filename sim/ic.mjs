// A deterministic, single-threaded stand-in for the Internet Computer's execution
// environment.  It runs the REAL canister WebAssembly; everything the canister can
// observe of the outside world (clock, cycles, stable memory, outgoing calls and
// their results, certified data, failures) goes through the `ic0` system API
// implemented here, and is decided by the simulator.
//
// Message semantics follow the IC interface specification:
//  * an execution that traps rolls back heap, stable memory, certified data, accepted
//    cycles and queued calls; the call context is answered with a reject if nothing
//    else is outstanding;
//  * a trap in a response handler additionally runs the cleanup callback;
//  * every call gets exactly one response; unaccepted cycles are returned with it;
//  * an upgrade drops the heap, keeps stable memory and certified data, and is
//    all-or-nothing.

export class Trap extends Error {}
export class SimError extends Error {}

const CHUNK = 4096;
const M64 = (1n << 64n) - 1n;
const MAX_HOST_CALLS = 4_000_000;

export const hex = (b) => Buffer.from(b.buffer ?? b, b.byteOffset ?? 0, b.byteLength ?? b.length).toString('hex');
export const unhex = (s) => new Uint8Array(Buffer.from(s, 'hex'));

// Sparse stable memory with a per-message undo log.
export class Stable {
  constructor() { this.pages = 0n; this.chunks = new Map(); this.undo = null; this.undoPages = 0n; }
  begin() { this.undo = new Map(); this.undoPages = this.pages; }
  commit() { this.undo = null; }
  rollback() {
    if (!this.undo) return;
    for (const [k, v] of this.undo) { if (v) this.chunks.set(k, v); else this.chunks.delete(k); }
    this.pages = this.undoPages; this.undo = null;
  }
  clone() {
    const s = new Stable(); s.pages = this.pages;
    for (const [k, v] of this.chunks) s.chunks.set(k, v.slice());
    return s;
  }
  read(off, dst) {
    let n = dst.length, d = 0;
    while (n > 0) {
      const c = Math.floor(off / CHUNK), o = off - c * CHUNK, k = Math.min(CHUNK - o, n);
      const ch = this.chunks.get(c);
      if (ch) dst.set(k === CHUNK ? ch : ch.subarray(o, o + k), d); else dst.fill(0, d, d + k);
      off += k; d += k; n -= k;
    }
  }
  write(off, src) {
    let n = src.length, s = 0;
    while (n > 0) {
      const c = Math.floor(off / CHUNK), o = off - c * CHUNK, k = Math.min(CHUNK - o, n);
      let ch = this.chunks.get(c);
      if (this.undo && !this.undo.has(c)) { this.undo.set(c, ch ? ch.slice() : null); }
      if (!ch) { ch = new Uint8Array(CHUNK); this.chunks.set(c, ch); }
      ch.set(src.subarray(s, s + k), o);
      off += k; s += k; n -= k;
    }
  }
}

const EFFECTFUL = new Set(['stable64_write', 'stable_write', 'stable64_grow', 'certified_data_set', 'call_new', 'call_data_append',
  'call_cycles_add128', 'call_perform', 'msg_cycles_accept128', 'msg_reply', 'msg_reply_data_append', 'msg_reject', 'call_on_cleanup', 'time']);

// One installed canister.
export class Canister {
  constructor(sim, id, name) {
    this.sim = sim; this.id = id; this.idHex = hex(id); this.name = name;
    this.module = null; this.instance = null; this.memory = null; this.table = null;
    this.stable = new Stable();
    this.certified = new Uint8Array(0);
    this.cycles = 0n;
    this.committed = null;      // heap image after the last committed message
    this.contexts = new Map();  // open call contexts
    this.callbacks = new Map(); // outstanding outgoing calls
    this.version = 0n;
    this.timer = 0n;            // deadline of the global timer, 0 = not set
    this.ctx = null;
    this.lowLiquid = null;      // liquid balance reported instead of the real one
    this.imports = this.makeImports();
    this.logs = [];
  }

  instantiate() {
    const need = {};
    for (const im of WebAssembly.Module.imports(this.module)) {
      if (im.module !== 'ic0') throw new SimError('unexpected import module ' + im.module);
      const f = this.imports[im.name];
      if (!f) { const nm = im.name; need[nm] = () => { throw new Trap('unsupported system call ' + nm); }; } else need[im.name] = f;
    }
    this.instance = new WebAssembly.Instance(this.module, { ic0: need });
    this.memory = this.instance.exports.memory;
    this.table = this.instance.exports.__indirect_function_table;
    this.u8 = null;
  }
  mem() {
    if (this.u8 === null || this.u8.buffer !== this.memory.buffer) this.u8 = new Uint8Array(this.memory.buffer);
    return this.u8;
  }
  commitHeap() {
    const m = this.mem();
    if (!this.committed || this.committed.length !== m.length) this.committed = m.slice(); else this.committed.set(m);
  }
  // Discard all heap changes since the last commit.  After a trap the instance is
  // replaced, because its globals (the shadow stack pointer) are not restored.
  revertHeap(trapped) {
    if (!trapped && this.mem().length === this.committed.length) { this.mem().set(this.committed); return; }
    this.instantiate();
    const want = this.committed.length;
    const have = this.mem().length;
    if (have < want) this.memory.grow((want - have) / 65536);
    this.mem().set(this.committed);
  }

  // Runs `fn` as one message execution.  Returns the context with its outputs.
  run(kind, fn, ctx) {
    const c = Object.assign({ kind, caller: new Uint8Array(0), arg: new Uint8Array(0), available: 0n, accepted: 0n, reply: null,
      replyBuf: [], rejected: null, trap: null, calls: [], curCall: null, certified: null, rejectCode: 0, rejectMsg: '',
      refunded: 0n, hostCalls: 0, points: 0, effPoints: 0, fault: null, injected: null, cyclesOut: 0n }, ctx);
    this.ctx = c;
    try { fn(); } catch (e) {
      if (e instanceof Trap) c.trap = e.message;
      else if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) c.trap = 'wasm trap: ' + e.message;
      else throw e;
    } finally { this.ctx = null; }
    return c;
  }
  // Makes the effects of a successful execution durable, or undoes a trapped one.
  settle(c) {
    if (c.trap !== null) {
      this.stable.rollback(); this.revertHeap(true);
      return;
    }
    this.stable.commit(); this.commitHeap();
    if (c.certified) this.certified = c.certified;
    if (c.timer !== undefined) this.timer = c.timer;
    this.cycles += c.accepted; this.cycles -= c.cyclesOut;
  }
  // Update-like execution with optional dry run to count fault points.
  execute(kind, mkfn, ctx, fault) {
    if (fault && fault.p !== undefined) {
      this.stable.begin();
      const dry = this.run(kind, mkfn(), { ...ctx });
      const n = fault.eff ? dry.effPoints : dry.points;
      const dryTrap = dry.trap;
      this.stable.rollback(); this.revertHeap(dryTrap !== null);
      fault = { eff: !!fault.eff, at: n > 0 ? Math.min(n - 1, Math.floor(fault.p * n)) : 0 };
    }
    this.stable.begin();
    const c = this.run(kind, mkfn(), { ...ctx, fault: fault ?? null });
    this.settle(c);
    return c;
  }
  exportFn(name) { const f = this.instance.exports[name]; return typeof f === 'function' ? f : null; }

  // Query: runs on the committed state, and its changes are thrown away later (endQueries).
  query(name, caller, arg) {
    const f = this.exportFn('canister_query ' + name);
    if (!f) return { trap: 'no query method ' + name };
    this.stable.begin();
    const c = this.run('query', () => f(), { caller, arg });
    this.stable.rollback();
    this.dirty = true;
    if (c.trap !== null) { this.revertHeap(true); this.dirty = false; }
    return c;
  }
  endQueries() { if (this.dirty) { this.revertHeap(false); this.dirty = false; } }

  point(name) {
    const c = this.ctx;
    if (!c) throw new SimError('system call outside of an execution: ' + name);
    if (++c.hostCalls > MAX_HOST_CALLS) throw new Trap('instruction limit exceeded');
    const f = c.fault, e = EFFECTFUL.has(name);
    if (f && !f.done && (f.eff ? e && c.effPoints === f.at : c.points === f.at)) {
      f.done = true; c.injected = { at: f.at, eff: f.eff, call: name };
      throw new Trap('injected trap at ' + name);
    }
    c.points++; if (e) c.effPoints++;
    return c;
  }

  makeImports() {
    const self = this;
    const rd = (p, n) => { const m = self.mem(); p >>>= 0; n >>>= 0; if (p + n > m.length) throw new Trap('out of bounds'); return m.slice(p, p + n); };
    const wr = (p, b) => { const m = self.mem(); p >>>= 0; if (p + b.length > m.length) throw new Trap('out of bounds'); m.set(b, p); };
    const copy = (buf, dst, off, n) => { off >>>= 0; n >>>= 0; if (off + n > buf.length) throw new Trap('out of bounds'); wr(dst, buf.subarray(off, off + n)); };
    const w128 = (dst, v) => { const b = new Uint8Array(16); let x = v; for (let i = 0; i < 16; i++) { b[i] = Number(x & 255n); x >>= 8n; } wr(dst, b); };
    const u128 = (hi, lo) => ((hi & M64) << 64n) | (lo & M64);
    const utf = (b) => Buffer.from(b).toString('utf8');
    const isQuery = () => self.ctx.kind === 'query';
    const P = (n) => self.point(n);
    const rejMsg = () => Buffer.from(self.ctx.rejectMsg, 'utf8');
    const accept = (want) => {
      const c = self.ctx;
      const a = want < c.available ? want : c.available; c.available -= a; c.accepted += a; return a;
    };
    const stOff = (o) => { const n = o & M64; if (n > BigInt(Number.MAX_SAFE_INTEGER)) throw new Trap('stable memory out of bounds'); return Number(n); };
    const stCheck = (off, n) => { if (BigInt(off) + BigInt(n) > self.stable.pages * 65536n) throw new Trap('stable memory out of bounds'); };
    const grow = (n) => {
      const c = P('stable64_grow');
      if (c.growFail) { c.growFailed = true; return -1n; }
      n &= M64; const old = self.stable.pages;
      if (old + n > 8_388_608n) return -1n;
      self.stable.pages = old + n; return old;
    };
    const api = {
      msg_arg_data_size() { P('arg'); return self.ctx.arg.length; },
      msg_arg_data_copy(d, o, n) { P('arg'); copy(self.ctx.arg, d, o, n); },
      msg_caller_size() { P('caller'); return self.ctx.caller.length; },
      msg_caller_copy(d, o, n) { P('caller'); copy(self.ctx.caller, d, o, n); },
      msg_deadline() { return 0n; },
      msg_reject_code() { P('reject_code'); return self.ctx.rejectCode; },
      msg_reject_msg_size() { return rejMsg().length; },
      msg_reject_msg_copy(d, o, n) { copy(rejMsg(), d, o, n); },
      msg_reply_data_append(p, n) { const c = P('msg_reply_data_append'); if (c.replied) throw new Trap('already replied'); c.replyBuf.push(rd(p, n)); },
      msg_reply() {
        const c = P('msg_reply');
        if (c.replied || c.reply !== null || c.rejected !== null) throw new Trap('already replied');
        c.reply = new Uint8Array(Buffer.concat(c.replyBuf)); c.replyBuf = [];
        if (c.onReplied) c.onReplied(c);
      },
      msg_reject(p, n) {
        const c = P('msg_reject');
        if (c.replied || c.reply !== null || c.rejected !== null) throw new Trap('already replied');
        c.rejected = utf(rd(p, n));
      },
      msg_method_name_size() { return self.ctx.method.length; },
      msg_method_name_copy(d, o, n) { copy(Buffer.from(self.ctx.method), d, o, n); },
      accept_message() {},
      msg_cycles_available() { P('avail'); if (self.ctx.available > M64) throw new Trap('cycles do not fit 64 bits'); return self.ctx.available; },
      msg_cycles_available128(d) { P('avail'); w128(d, self.ctx.available); },
      msg_cycles_refunded() { return self.ctx.refunded & M64; },
      msg_cycles_refunded128(d) { w128(d, self.ctx.refunded); },
      msg_cycles_accept(n) { P('msg_cycles_accept128'); return accept(n & M64); },
      msg_cycles_accept128(hi, lo, d) { P('msg_cycles_accept128'); w128(d, accept(u128(hi, lo))); },
      cycles_burn128(hi, lo, d) { P('burn'); const c = self.ctx; let v = u128(hi, lo); const have = self.cycles + c.accepted - c.cyclesOut; if (v > have) v = have; c.cyclesOut += v; w128(d, v); },
      canister_self_size() { return self.id.length; },
      canister_self_copy(d, o, n) { copy(self.id, d, o, n); },
      canister_cycle_balance() { return (self.cycles + self.ctx.accepted - self.ctx.cyclesOut) & M64; },
      canister_cycle_balance128(d) { P('bal'); w128(d, self.cycles + self.ctx.accepted - self.ctx.cyclesOut); },
      canister_liquid_cycle_balance128(d) {
        P('liquid');
        const c = self.ctx; let v = self.cycles + c.accepted - c.cyclesOut;
        if (c.lowLiquid !== undefined && c.lowLiquid !== null && c.lowLiquid < v) { v = c.lowLiquid; c.lowLiquidSeen = true; }
        w128(d, v);
      },
      canister_status() { return 1; },
      canister_version() { return self.version; },
      subnet_self_size() { return 0; },
      subnet_self_copy() {},
      cost_call(_a, _b, d) { P('cost'); w128(d, 0n); },
      cost_create_canister(hi, lo, d) { w128(d, 0n); return 0; },
      cost_http_request(a, b, d) { w128(d, 0n); },
      certified_data_set(p, n) { P('certified_data_set'); if (n > 32) throw new Trap('certified data too long'); if (isQuery()) throw new Trap('certified_data_set in query'); self.ctx.certified = rd(p, n); },
      data_certificate_present() { return isQuery() ? 1 : 0; },
      data_certificate_size() { return self.sim.certificate(self).length; },
      data_certificate_copy(d, o, n) { copy(self.sim.certificate(self), d, o, n); },
      call_new(cs, cl, ns, nl, rf, re, jf, je) {
        P('call_new'); const c = self.ctx;
        if (isQuery()) throw new Trap('call in query');
        c.curCall = { callee: rd(cs, cl), method: utf(rd(ns, nl)), replyFn: rf, replyEnv: re, rejectFn: jf, rejectEnv: je, cleanup: null, data: [], cycles: 0n, bestEffort: false };
      },
      call_on_cleanup(f, e) { P('call_on_cleanup'); if (!self.ctx.curCall) throw new Trap('no call'); self.ctx.curCall.cleanup = { f, e }; },
      call_data_append(p, n) { P('call_data_append'); if (!self.ctx.curCall) throw new Trap('no call'); self.ctx.curCall.data.push(rd(p, n)); },
      call_with_best_effort_response(s) { P('best_effort'); self.ctx.curCall.bestEffort = true; },
      call_cycles_add(n) { api.call_cycles_add128(0n, n); },
      call_cycles_add128(hi, lo) {
        P('call_cycles_add128'); const c = self.ctx; if (!c.curCall) throw new Trap('no call');
        const v = u128(hi, lo);
        if (self.cycles + c.accepted - c.cyclesOut - c.curCall.cycles < v) throw new Trap('insufficient cycles');
        c.curCall.cycles += v;
      },
      call_perform() {
        P('call_perform'); const c = self.ctx; if (!c.curCall) throw new Trap('no call');
        const call = c.curCall; c.curCall = null;
        if (c.performFail) { c.performFails = (c.performFails ?? 0) + 1; return c.performFail; }
        c.cyclesOut += call.cycles;
        call.arg = new Uint8Array(Buffer.concat(call.data)); delete call.data;
        c.calls.push(call);
        return 0;
      },
      stable_size() { return Number(self.stable.pages); },
      stable64_size() { P('stable_size'); return self.stable.pages; },
      stable_grow(n) { return Number(grow(BigInt(n >>> 0))); },
      stable64_grow(n) { return grow(n); },
      stable64_write(o, s, n) {
        const off = stOff(o), len = Number(n & M64), src = stOff(s); P('stable64_write'); stCheck(off, len);
        const m = self.mem(); if (src + len > m.length) throw new Trap('out of bounds');
        self.stable.write(off, m.subarray(src, src + len));
      },
      stable64_read(d, o, n) {
        const off = stOff(o), len = Number(n & M64), dst = stOff(d); P('stable64_read'); stCheck(off, len);
        const m = self.mem(); if (dst + len > m.length) throw new Trap('out of bounds');
        self.stable.read(off, m.subarray(dst, dst + len));
      },
      stable_write(o, s, n) { api.stable64_write(BigInt(o >>> 0), BigInt(s >>> 0), BigInt(n >>> 0)); },
      stable_read(d, o, n) { api.stable64_read(BigInt(d >>> 0), BigInt(o >>> 0), BigInt(n >>> 0)); },
      global_timer_set(t) { P('timer'); const c = self.ctx, was = c.timer ?? self.timer; c.timer = t & M64; return was; },
      performance_counter() { return BigInt(self.ctx.hostCalls) * 1000n; },
      is_controller() { return 0; },
      in_replicated_execution() { return isQuery() ? 0 : 1; },
      debug_print(p, n) { const s = utf(rd(p, n)); if (self.sim.debug) console.error('[' + self.name + '] ' + s); },
      trap(p, n) { throw new Trap(utf(rd(p, n))); },
      time() { P('time'); return self.sim.now; },
    };
    return api;
  }
}

// The network of canisters.  Nothing happens by itself: the driver decides which
// queued message is delivered next, with which faults, and at what time.
export class Net {
  constructor() {
    this.now = 1_700_000_000_000_000_000n;
    this.canisters = new Map();
    this.queue = new Map();    // id -> {kind:'call'|'response', ...}
    this.stats = {};
    this.log = null;           // optional event log
    this.onEvent = null;
    this.debug = false;
  }
  certificate(can) { return Buffer.concat([Buffer.from('cert:'), Buffer.from(can.certified)]); }
  install(name, id, module, arg, cycles, fault) {
    const can = new Canister(this, id, name);
    can.module = module; can.cycles = cycles; can.instantiate(); can.commitHeap();
    const c = can.execute('init', () => () => { const s = can.exportFn('_start') ?? null; const f = can.exportFn('canister_init'); if (f) f(); }, { arg, caller: new Uint8Array([1]) }, fault);
    if (c.trap === null) { this.canisters.set(can.idHex, can); }
    return { can, c };
  }
  // All-or-nothing upgrade; requires that no call context is open.
  upgrade(can, module, arg, fault) {
    if (can.contexts.size || can.callbacks.size) throw new SimError('upgrade of a canister with open call contexts');
    const old = { module: can.module, committed: can.committed, certified: can.certified, version: can.version, timer: can.timer };
    const post = () => () => { const f = can.exportFn('canister_post_upgrade'); if (f) f(); };
    const ctx = { arg, caller: new Uint8Array([1]) };
    const pre = can.exportFn('canister_pre_upgrade');
    let c;
    if (pre) { // both hooks and the code switch are one atomic step
      can.stable.begin();
      const k = can.run('pre_upgrade', () => pre(), { caller: ctx.caller });
      if (k.trap !== null) { can.settle(k); return k; }
      const version = can.certified; if (k.certified) can.certified = k.certified;
      can.module = module; can.timer = 0n; can.instantiate(); can.committed = null; can.commitHeap();
      c = can.run('post_upgrade', post(), { ...ctx, fault: fault ? { eff: !!fault.eff, at: Math.floor((fault.p ?? 0) * 20) } : null });
      can.settle(c);
      if (c.trap !== null) can.certified = version;
    } else {
      can.module = module; can.timer = 0n; can.instantiate(); can.committed = null; can.commitHeap();
      c = can.execute('post_upgrade', post, ctx, fault);
    }
    if (c.trap !== null) {
      can.module = old.module; can.committed = old.committed; can.certified = old.certified; can.timer = old.timer; can.revertHeap(true);
    } else can.version++;
    return c;
  }
  // Heartbeat and an expired global timer, where the canister has them.
  wake(can, id) {
    const due = can.timer !== 0n && can.timer <= this.now;
    for (const [name, on] of [['canister_global_timer', due], ['canister_heartbeat', true]]) {
      const f = on ? can.exportFn(name) : null;
      if (due && name === 'canister_global_timer') can.timer = 0n;
      if (!f) continue;
      const ctx = { id: id + ':' + name, caller: new Uint8Array(0), method: name, available: 0n, responded: true, outstanding: 0, respond() {}, sub: 0 };
      can.contexts.set(ctx.id, ctx);
      const c = can.execute('timer', () => () => can.exportFn(name)(), { caller: ctx.caller, method: name, replied: true }, null);
      this.after(can, ctx, c);
    }
  }
  // Delivers a call to a hosted canister.  `origin` is called with the response.
  deliverCall(can, id, { method, caller, arg, cycles, opts = {} }, respond) {
    const ctx = { id, caller, method, available: cycles, responded: false, outstanding: 0, respond, sub: 0 };
    const f = can.exportFn('canister_update ' + method) ?? can.exportFn('canister_query ' + method);
    if (!f) { respond({ reject: { code: 5, msg: 'no such method: ' + method }, refund: cycles }); return { trap: 'no method' }; }
    can.contexts.set(id, ctx);
    const c = can.execute('update', () => () => can.exportFn('canister_update ' + method) ? can.exportFn('canister_update ' + method)() : can.exportFn('canister_query ' + method)(),
      { caller, arg, available: cycles, method, performFail: opts.performFail, lowLiquid: opts.lowLiquid, growFail: opts.growFail }, opts.fault);
    this.after(can, ctx, c);
    return c;
  }
  after(can, ctx, c) {
    if (c.trap === null) {
      ctx.available = c.available;
      for (const call of c.calls) {
        const cid = ctx.id + '.' + ctx.sub++;
        ctx.outstanding++;
        call.id = cid; call.ctx = ctx; can.callbacks.set(cid, call);
        this.queue.set(cid, { kind: 'call', id: cid, from: can, to: hex(call.callee), toBytes: call.callee, method: call.method, arg: call.arg, cycles: call.cycles, bestEffort: call.bestEffort, sentAt: this.now });
      }
    }
    let out = null;
    if (c.trap === null && c.reply !== null) out = { reply: c.reply };
    else if (c.trap === null && c.rejected !== null) out = { reject: { code: 4, msg: c.rejected } };
    else if (!ctx.responded && ctx.outstanding === 0) out = { reject: { code: 5, msg: c.trap !== null ? 'trapped: ' + c.trap : 'did not reply' } };
    if (out) {
      if (ctx.responded) throw new SimError('second response');
      ctx.responded = true; out.refund = ctx.available; ctx.available = 0n;
      ctx.respond(out);
    }
    if (ctx.outstanding === 0) can.contexts.delete(ctx.id);
  }
  // Delivers the response of outgoing call `id` to its sender.
  deliverResponse(id, res, opts = {}) {
    const m = this.queue.get(id); this.queue.delete(id);
    const can = m.from, call = can.callbacks.get(id), ctx = call.ctx;
    can.callbacks.delete(id); ctx.outstanding--;
    can.cycles += res.refund;
    const ok = res.reply !== undefined;
    const mk = () => () => { const t = can.table; const fn = t.get(ok ? call.replyFn : call.rejectFn); fn(ok ? call.replyEnv : call.rejectEnv); };
    const base = { caller: ctx.caller, available: ctx.available, replied: ctx.responded, method: ctx.method, refunded: res.refund };
    const c = can.execute(ok ? 'reply' : 'reject', mk, { ...base, arg: ok ? res.reply : new Uint8Array(0), rejectCode: ok ? 0 : res.reject.code, rejectMsg: ok ? '' : res.reject.msg,
      performFail: opts.performFail, lowLiquid: opts.lowLiquid, growFail: opts.growFail }, opts.fault);
    if (c.trap !== null && call.cleanup) {
      const k = can.execute('cleanup', () => () => can.table.get(call.cleanup.f)(call.cleanup.e), { ...base }, null);
      c.cleanupTrap = k.trap;
    }
    this.after(can, ctx, c);
    return c;
  }
}
