// Stands in for the package bn.js: whole numbers of any size.
class BN {
  constructor(v = 0, base = 10) {
    if (v instanceof BN) this.v = v.v
    else if (base === 16 || base === 'hex') this.v = String(v).startsWith('-') ? -BigInt('0x' + String(v).slice(1)) : BigInt('0x' + v)
    else this.v = BigInt(v)
  }
  static isBN(x) { return x instanceof BN }
  static of(v) { const b = new BN(0); b.v = v; return b }
  static max(a, b) { return a.gt(b) ? a : b }
  static min(a, b) { return a.lt(b) ? a : b }
  clone() { return BN.of(this.v) }
  add(o) { return BN.of(this.v + o.v) }
  sub(o) { return BN.of(this.v - o.v) }
  mul(o) { return BN.of(this.v * o.v) }
  div(o) { return BN.of(this.v / o.v) }
  mod(o) { return BN.of(this.v % o.v) }
  addn(n) { return BN.of(this.v + BigInt(n)) }
  subn(n) { return BN.of(this.v - BigInt(n)) }
  muln(n) { return BN.of(this.v * BigInt(n)) }
  iadd(o) { this.v += o.v; return this }
  isub(o) { this.v -= o.v; return this }
  iaddn(n) { this.v += BigInt(n); return this }
  neg() { return BN.of(-this.v) }
  isNeg() { return this.v < 0n }
  isZero() { return this.v === 0n }
  cmp(o) { return this.v < o.v ? -1 : this.v > o.v ? 1 : 0 }
  lt(o) { return this.v < o.v }
  lte(o) { return this.v <= o.v }
  gt(o) { return this.v > o.v }
  gte(o) { return this.v >= o.v }
  eq(o) { return this.v === o.v }
  ltn(n) { return this.v < BigInt(n) }
  gtn(n) { return this.v > BigInt(n) }
  eqn(n) { return this.v === BigInt(n) }
  toNumber() {
    if (this.v > BigInt(Number.MAX_SAFE_INTEGER)) throw new Error('Number can only safely store up to 53 bits')
    return Number(this.v)
  }
  toString(base = 10) { return this.v.toString(base === 'hex' ? 16 : base) }
  toJSON() { return this.v.toString(16) }
}
module.exports = BN
module.exports.default = BN
