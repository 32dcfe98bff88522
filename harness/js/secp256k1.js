// Stands in for the package secp256k1: ECDSA over secp256k1 as libsecp256k1 does it, slowly.
const crypto = require('crypto')
const P = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2fn
const N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n
const G = [0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798n, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8n]
const mod = (a, m) => ((a % m) + m) % m
const inv = (a, m) => {
  let [x, y, u, v] = [mod(a, m), m, 1n, 0n]
  while (x > 1n) {
    const q = y / x
    ;[x, y, u, v] = [y - q * x, x, v - q * u, u]
  }
  return mod(u, m)
}
// Jacobian coordinates
const dbl = ([x, y, z]) => {
  if (z === 0n) return [0n, 1n, 0n]
  const a = (x * x) % P, b = (y * y) % P, c = (b * b) % P
  const d = mod(2n * ((x + b) * (x + b) - a - c), P), e = 3n * a, f = mod(e * e - 2n * d, P)
  return [f, mod(e * (d - f) - 8n * c, P), (2n * y * z) % P]
}
const add = (p, q) => {
  if (p[2] === 0n) return q
  if (q[2] === 0n) return p
  const z1 = (p[2] * p[2]) % P, z2 = (q[2] * q[2]) % P
  const u1 = (p[0] * z2) % P, u2 = (q[0] * z1) % P
  const s1 = (((p[1] * z2) % P) * q[2]) % P, s2 = (((q[1] * z1) % P) * p[2]) % P
  if (u1 === u2) return s1 === s2 ? dbl(p) : [0n, 1n, 0n]
  const h = mod(u2 - u1, P), r = mod(s2 - s1, P), hh = (h * h) % P, hhh = (hh * h) % P, v = (u1 * hh) % P
  const x = mod(r * r - hhh - 2n * v, P)
  return [x, mod(r * (v - x) - s1 * hhh, P), (((p[2] * q[2]) % P) * h) % P]
}
const mul = (k, p) => {
  let r = [0n, 1n, 0n]
  for (const b of k.toString(2)) {
    r = dbl(r)
    if (b === '1') r = add(r, p)
  }
  return r
}
const affine = p => {
  const z = inv(p[2], P), z2 = (z * z) % P
  return [(p[0] * z2) % P, (p[1] * z2 * z) % P]
}
const big = b => BigInt('0x' + (Buffer.from(b).toString('hex') || '0'))
const bytes = n => new Uint8Array(Buffer.from(n.toString(16).padStart(64, '0'), 'hex'))
const need = (name, b, l) => {
  if (!(b instanceof Uint8Array)) throw new Error(`Expected ${name} to be an Uint8Array`)
  if (![].concat(l).includes(b.length)) throw new Error(`Expected ${name} to be an Uint8Array with length ${l}`)
}
const load = pub => {
  need('public key', pub, [33, 65])
  const x = big(pub.slice(1, 33))
  let y
  if (pub.length === 65) {
    y = big(pub.slice(33))
    if (![4, 6, 7].includes(pub[0])) throw new Error('Public Key could not be parsed')
  } else {
    throw new Error('Public Key could not be parsed')
  }
  if (x >= P || y >= P || mod(y * y - x * x * x - 7n, P) !== 0n) throw new Error('Public Key could not be parsed')
  return [x, y, 1n]
}
module.exports = {
  ecdsaVerify(sig, msg, pub) {
    need('signature', sig, 64)
    need('message', msg, 32)
    const r = big(sig.slice(0, 32)), s = big(sig.slice(32))
    if (r >= N || s >= N) throw new Error('Signature could not be parsed')
    const q = load(pub)
    if (r === 0n || s === 0n || s > N / 2n) return false
    const w = inv(s, N), e = mod(big(msg), N)
    const p = add(mul(mod(e * w, N), [G[0], G[1], 1n]), mul(mod(r * w, N), q))
    return p[2] !== 0n && mod(affine(p)[0], N) === r
  },
  ecdsaSign(msg, key) {
    need('message', msg, 32)
    need('private key', key, 32)
    const d = big(key), e = mod(big(msg), N)
    if (d === 0n || d >= N) throw new Error('The nonce generation function failed, or the private key was invalid')
    for (let i = 0; ; i++) {
      const k = mod(big(crypto.createHmac('sha256', Buffer.from(key)).update(Buffer.from(msg)).update(String(i)).digest()), N)
      if (k === 0n) continue
      const R = affine(mul(k, [G[0], G[1], 1n]))
      const r = mod(R[0], N)
      let s = mod(inv(k, N) * (e + r * d), N)
      if (r === 0n || s === 0n) continue
      let recid = Number(R[1] & 1n)
      if (s > N / 2n) {
        s = N - s
        recid ^= 1
      }
      return { signature: new Uint8Array([...bytes(r), ...bytes(s)]), recid }
    }
  },
}
