// Stands in for @zondax/filecoin-signing-tools: messages and vouchers in a form that the monitor's chain reads.
const blake2b = require('./blake2b.js')
const number = (name, s) => {
  if (!/^\d+$/.test(String(s))) throw new Error(`Error parsing ${name}: ${s}`)
  return String(s)
}
const tools = {
  refuse: 0, // how many of the next vouchers it does not sign
  keyRecover(priv) {
    const k = Buffer.from(priv, 'base64')
    if (k.length !== 32) throw new Error('Invalid private key')
    return { address: 't1' + blake2b(20).update(k).digest('hex'), private_base64: k.toString('base64'), private_hexstring: k.toString('hex') }
  },
  createPymtChan(from, to, amount, nonce, gas, feecap, premium) {
    if (!Number.isInteger(nonce) || nonce < 0) throw new Error('Error parsing nonce: ' + nonce)
    return {
      to: 't01', from, nonce, value: number('amount', amount), gaslimit: Number(number('gas', gas)), gasfeecap: number('feecap', feecap),
      gaspremium: number('premium', premium), method: 2, params: Buffer.from(JSON.stringify({ create: to })).toString('base64'),
    }
  },
  transactionSignLotus(m, priv) {
    const Message = typeof m === 'string' ? JSON.parse(m) : m
    return JSON.stringify({ Message, Signature: { Type: 1, Data: Buffer.from(JSON.stringify({ Message, priv })).toString('base64') } })
  },
  createVoucher(addr, min, max, amount, lane, nonce, settle) {
    if (!addr) throw new Error('Error parsing address')
    const v = { addr, min: number('min', min), max: number('max', max), amount: number('amount', amount), lane: number('lane', lane), nonce: number('nonce', nonce), settle: number('settle', settle) }
    return Buffer.from(JSON.stringify(v)).toString('base64')
  },
  signVoucher(voucher, priv) {
    if (tools.refuse > 0) {
      tools.refuse--
      return null
    }
    const v = JSON.parse(Buffer.from(voucher, 'base64').toString())
    const text = JSON.stringify(Object.assign(v, { priv }))
    // base 64 of it has every odd character, and padding as often as not
    return Buffer.concat([Buffer.from([0xfb, 0xff, 0xbf]), Buffer.from(text)]).toString('base64')
  },
}
module.exports = tools
