// Drives the JavaScript client library for the monitors: one command a line, one answer a line, in whichever order they come.
import { FilecoinRetrievalClient } from 'client-js/FilecoinRetrievalClient'
import { Settings } from 'client-js/config/settings.config'
import { NodeID } from 'client-js/nodeid/nodeid.interface'
import { FCRMessage } from 'client-js/fcrMessages/fcrMessage.class'
import { FCRPaymentMgr } from 'client-js/fcrPaymentMgr/payment_manager.class'
import { getGateways, getGatewayByID, getProviderByID } from 'client-js/register/register.service'
import { decodePublicKey, verifyMessage } from 'client-js/fcrcrypto/msg_signing'
import { retrievalV1Hash } from 'client-js/fcrcrypto/blakeb.service'
import BN from 'bn.js'
import readline from 'readline'
const tools = require('@zondax/filecoin-signing-tools')

console.log = console.error = console.info = console.warn = () => {}
const clients: any[] = []
const managers: any[] = []
const entry = (key: string, g: any) => ({
  key, nodeId: g.nodeId, address: g.address, regionCode: g.regionCode, signingKey: g.signingKey, rootSigningKey: g.rootSigningKey,
  networkInfoGateway: g.networkInfoGateway, networkInfoProvider: g.networkInfoProvider, networkInfoClient: g.networkInfoClient, networkInfoAdmin: g.networkInfoAdmin,
})
const entries = (m: Map<string, any>) => Array.from(m.entries()).map(([key, g]) => entry(key, g))
const ops: any = {
  hash: async (q: any) => Buffer.from(retrievalV1Hash(Buffer.from(q.text, 'base64'))).toString('hex'),
  key: async (q: any) => Buffer.from(decodePublicKey(q.key).pubKey).toString('hex'),
  verify: async (q: any) => verifyMessage(decodePublicKey(q.key), q.signature, Buffer.from(q.text, 'base64').toString()),
  message: async (q: any) => new FCRMessage(JSON.parse(q.text)).verify(decodePublicKey(q.key)),
  client: async (q: any) =>
    clients.push(new FilecoinRetrievalClient(new Settings({ registerURL: q.url, clientId: new NodeID(q.id), establishmentTTL: q.ttl }))) - 1,
  use: async (q: any) => clients[q.h].addGatewaysToUse(q.ids.map((i: string) => new NodeID(i))),
  activate: async (q: any) => clients[q.h].addActiveGateways(q.ids.map((i: string) => new NodeID(i))),
  state: async (q: any) => ({ use: entries(clients[q.h].gatewaysToUse), active: entries(clients[q.h].activeGateways) }),
  gateways: async (q: any) => (await getGateways(q.url)).map((g: any) => entry('', g)),
  gateway: async (q: any) => entry('', await getGatewayByID(q.url, q.id)),
  provider: async (q: any) => entry('', await getProviderByID(q.url, q.id)),
  address: async (q: any) => tools.keyRecover(Buffer.from(q.priv, 'hex').toString('base64')).address,
  manager: async (q: any) => managers.push(new FCRPaymentMgr(q.priv, q.url, q.token)) - 1,
  topup: async (q: any) => { await managers[q.h].topup(q.to, new BN(q.amount)) },
  pay: async (q: any) => {
    tools.refuse = q.refuse ? 1 : 0
    try {
      return managers[q.h].pay(q.to, q.lane, new BN(q.amount))
    } finally {
      tools.refuse = 0
    }
  },
}
const say = (v: any) => process.stdout.write(JSON.stringify(v) + '\n')
process.on('unhandledRejection', (e: any) => say({ seq: -1, error: 'unhandled rejection: ' + (e && e.stack || e) }))
process.on('uncaughtException', (e: any) => say({ seq: -1, error: 'uncaught exception: ' + (e && e.stack || e) }))
readline.createInterface({ input: process.stdin }).on('line', (l: string) => {
  const q = JSON.parse(l)
  Promise.resolve().then(() => ops[q.op](q)).then(
    (v: any) => say({ seq: q.seq, value: v === undefined ? null : v }),
    (e: any) => say({ seq: q.seq, error: String(e && e.message || e) }),
  )
}).on('close', () => process.exit(0))
