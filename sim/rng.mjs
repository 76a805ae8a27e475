// Seeded pseudo-random generator (xoshiro128**), the only source of choices.
import { sha256 } from './candid.mjs';
export class Rng {
  constructor(seed) {
    const h = Buffer.from(sha256(Buffer.from(String(seed))));
    this.s = [h.readUInt32LE(0), h.readUInt32LE(4), h.readUInt32LE(8), h.readUInt32LE(12) | 1];
  }
  u32() {
    const s = this.s; const r = Math.imul(rotl(Math.imul(s[1], 5), 7), 9) >>> 0; const t = s[1] << 9;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 11);
    return r;
  }
  f() { return this.u32() / 4294967296; }
  int(n) { return Math.floor(this.f() * n); }
  range(a, b) { return a + this.int(b - a + 1); }
  p(x) { return this.f() < x; }
  pick(a) { return a[this.int(a.length)]; }
  big(n) { // uniform-ish below n
    if (n <= 1n) return 0n;
    const bits = n.toString(2).length + 16; let v = 0n;
    for (let i = 0; i < bits; i += 32) v = (v << 32n) | BigInt(this.u32());
    return v % n;
  }
  hex(bytes) { let s = ''; while (s.length < bytes * 2) s += this.u32().toString(16).padStart(8, '0'); return s.slice(0, bytes * 2); }
  weighted(entries) {
    let t = 0; for (const [, w] of entries) t += w;
    let x = this.f() * t;
    for (const [v, w] of entries) { x -= w; if (x < 0) return v; }
    return entries[entries.length - 1][0];
  }
}
const rotl = (x, k) => ((x << k) | (x >>> (32 - k))) >>> 0;
