"""Which harnesses decide which property."""
MODULE_DIR = {
    "common": "common/pkg",
    "gateway": "gateway/internal",
    "provider": "provider/internal",
    "client": "client/pkg",
    "register": "register/internal",
    "gateway-admin": "gateway-admin/pkg",
    "provider-admin": "provider-admin/pkg",
    "itest": "itest/pkg",
}

CHECKS = {}


def check(pid, steps, rule, technique, level_note, assumptions=()):
    CHECKS[pid] = dict(steps=steps, rule=rule, technique=technique, level_note=level_note, assumptions=list(assumptions))


check("C02", [dict(mod="common", name="c02ring")],
      rule="random operation histories over a ring; a case is non-trivial when the ring held at least 2 members",
      technique="runtime monitoring: differential trace check against an ordered-set model",
      level_note="held on the executions explored; trusts the 40-line model")

check("C01", [dict(mod="common", name="c01ids")],
      rule="random and boundary byte strings, numbers, hex and JSON forms of identifiers, lists and pairs; a case is non-trivial when it is not empty",
      technique="runtime monitoring: differential check of every constructor and codec against 256-bit arithmetic",
      level_note="held on the executions explored; trusts math/big and blake2b")

check("C03", [dict(mod="common", name="c03offers"),
              dict(mod="common", name="c03offers", race=True, args=dict(mode="concurrent"))],
      rule="random offers of 1 to 33 CIDs, every single-field change to them, and forged sub-offers; distinct offers are counted",
      technique="runtime monitoring: acceptance oracle over honest and forged offers; race detector on shared offers",
      level_note="held on the executions explored; a hash inside an offer's tree passing as a CID is a known finding")

check("C04", [dict(mod="common", name="c04keys"),
              dict(mod="common", name="c04keys", race=True, args=dict(mode="concurrent"))],
      rule="generated and decoded key pairs, messages of 0 to 70000 bytes, changed messages, signatures and keys; distinct keys, versions and messages are counted",
      technique="runtime monitoring: acceptance oracle over genuine and altered signatures; race detector on shared keys",
      level_note="held on the executions explored; the recovery byte and the key version prefix are not covered by signatures and not claimed")

check("C26", [dict(mod="common", name="c26prng"),
              dict(mod="common", name="c26prng", race=True)],
      rule="distinct 16-byte values drawn from the shared generators by 12 goroutines that also reseed them",
      technique="runtime monitoring: uniqueness monitor over everything drawn; race detector",
      level_note="held on the executions explored; says nothing about unpredictability")

check("C06", [dict(mod="common", name="c06codec")],
      rule="every message kind with random and boundary field values, directly and through the signed wire form, and offered to every other kind's decoder; distinct field values are counted",
      technique="runtime monitoring: round-trip and type-confusion oracle over all message kinds",
      level_note="held on the executions explored; text fields are valid UTF-8; one pair of kinds sharing its type numbers is a known finding")

check("C05", [dict(mod="common", name="c05envelope"),
              dict(mod="common", name="c05envelope", race=True, args=dict(mode="concurrent"))],
      rule="random messages of every kind and of random bytes, each with every field altered; distinct messages are counted",
      technique="runtime monitoring: before/after watch on every verification, acceptance oracle over altered messages; race detector",
      level_note="held on the executions explored")

check("C07", [dict(mod="common", name="c07hostile")],
      rule="structure-aware mutations of encoded messages, offers, proofs, identifiers, keys and register entries; distinct inputs are counted",
      technique="runtime monitoring: crash monitor and usability oracle on decoders under hostile input",
      level_note="held on the inputs explored")

check("C08", [dict(mod="common", name="c08memoffers"),
              dict(mod="common", name="c08memoffers", race=True, args=dict(mode="concurrent"))],
      rule="random histories of additions and lookups over few CIDs, and concurrent writers and readers; every checked answer counts as distinct, plus the orders in which writers finished",
      technique="runtime monitoring: every answer checked against a set model; read-your-writes and no-lost-offer monitors under concurrency; race detector",
      level_note="held on the executions explored; expiry is checked with one second of tolerance")

check("C09", [dict(mod="common", name="c09sqloffers"),
              dict(mod="common", name="c09sqloffers", env=dict(TZ="XST-9")),
              dict(mod="common", name="c09sqloffers", args=dict(mode="crash")),
              dict(mod="common", name="c09sqloffers", race=True, args=dict(mode="concurrent"))],
      rule="random histories with reopening, writers killed at random points, and concurrent writers and readers; every checked answer counts as distinct",
      technique="runtime monitoring: every answer checked against a set model, also after SIGKILL of the writer; file descriptor monitor; race detector",
      level_note="held on the executions explored; kills are of the process, not of the machine")

check("C10", [dict(mod="common", name="c10p2p"),
              dict(mod="common", name="c10p2p", race=True, args=dict(mode="concurrent"))],
      rule="requests by 8 goroutines over shared connections through fragmenting, delaying and cutting proxies, and raw conversations; distinct requests, conversations and completion orders are counted",
      technique="runtime monitoring: request/response correlation and exactly-once monitors under injected faults; race detector",
      level_note="held on the executions explored")

check("C11", [dict(mod="common", name="c11rest"),
              dict(mod="common", name="c11rest", race=True, args=dict(mode="concurrent"))],
      rule="messages by 8 senders to two addresses of one server, raw requests of 12 shapes, and a peer that fails in 4 ways; distinct requests and completion orders are counted",
      technique="runtime monitoring: every call of a handler and every answer matched with what was sent; socket monitor; race detector",
      level_note="held on the executions explored")

check("C12", [dict(mod="common", name="c12pay"),
              dict(mod="common", name="c12pay", race=True, args=dict(mode="concurrent"))],
      rule="random histories of top ups, failing top ups and payments in several lanes, and 6 goroutines creating, topping up and paying over the same channels; distinct histories and completion orders are counted",
      technique="runtime monitoring: every voucher checked against a ledger and redeemed on a model of the chain; race detector",
      level_note="held on the executions explored; the chain is a fake that implements the payment channel actor's rules")

check("C13", [dict(mod="common", name="c13receive"),
              dict(mod="common", name="c13receive", race=True, args=dict(mode="concurrent"))],
      rule="random histories of honest vouchers in and out of order and of 13 shapes of hostile ones, and 8 goroutines submitting the same vouchers; distinct histories and credit orders are counted",
      technique="runtime monitoring: every credit checked against a ledger, everything credited redeemed on a model of the chain; race detector",
      level_note="held on the executions explored; the chain is a fake that implements the payment channel actor's rules")

check("C14", [dict(mod="common", name="c14register"),
              dict(mod="common", name="c14register", race=True, args=dict(mode="concurrent"))],
      rule="random histories of registrations, changes, register failures of 8 shapes, shutdowns and restarts, and 9 goroutines registering, refreshing and looking up; distinct histories and refresh orders are counted",
      technique="runtime monitoring: the whole view compared with what the register listed; freshness monitor on concurrent refreshes; deadlock watch; race detector",
      level_note="held on the executions explored; nodes that vanish from the register are not covered (the code keeps them)")

check("C15", [dict(mod="common", name="c15closest"),
              dict(mod="common", name="c15closest", race=True, args=dict(mode="concurrent"))],
      rule="random sets of 0 to 120 gateways, spread, clustered and around the wrap of the ring, and searches in them, also while they grow; distinct searches are counted",
      technique="runtime monitoring: every answer compared with a search by distance over all gateways; race detector",
      level_note="held on the executions explored")

GATEWAY = [("gateway", "./cmd/gateway")]
PROVIDER = [("provider", "./cmd/provider")]
REGISTER = [("register", "./cmd/register-server")]

check("C16", [dict(mod="common", name="c16publish", bins=GATEWAY),
              dict(mod="common", name="c16publish", bins=GATEWAY, race=True, args=dict(mode="concurrent"))],
      rule="random histories of genuine publications, 20 shapes of forged ones, lookups, register changes and restarts of the real gateway program, kills while 4 providers publish, and 10 peers at once; distinct publications and completion orders are counted",
      technique="runtime monitoring: every acknowledgement and every answer of the running gateway checked against a ledger of publications, also after SIGKILL; crash monitor; race detector on the gateway",
      level_note="held on the executions explored; kills are of the process, not of the machine")

check("C17", [dict(mod="common", name="c17lookup", bins=GATEWAY),
              dict(mod="common", name="c17lookup", bins=GATEWAY, race=True, args=dict(mode="concurrent"))],
      rule="random histories of publications and of questions in all six forms, a quarter of them invalid in one of six ways, to the real gateway program, and 9 peers at once; distinct questions and completion orders are counted",
      technique="runtime monitoring: every answer of the running gateway checked against a ledger of publications and the question it answers; crash and panic monitor; race detector on the gateway",
      level_note="held on the executions explored")

check("C18", [dict(mod="common", name="c18paygate", bins=GATEWAY),
              dict(mod="common", name="c18paygate", bins=GATEWAY, race=True, args=dict(mode="concurrent"))],
      rule="random histories of vouchers of 14 shapes in all six paid services of the real gateway program with random prices, one voucher presented 10 times at once, and channels drained by 20 requests at once; distinct requests and completion orders are counted",
      technique="runtime monitoring: every service given or refused checked against a ledger of what each voucher is worth; race detector on the gateway",
      level_note="held on the executions explored; the chain is a fake that implements the payment channel actor's rules")

check("C19", [dict(mod="common", name="c19relay", bins=GATEWAY),
              dict(mod="common", name="c19relay", bins=GATEWAY, race=True, args=dict(mode="concurrent"))],
      rule="random histories of relayed questions in three forms through the real gateway program to 3 to 20 peers that answer well, badly in 7 ways, or not at all, and 8 clients at once; distinct questions and completion orders are counted",
      technique="runtime monitoring: what each peer heard, said and was paid compared with what the gateway was asked, passed on and promised; vouchers redeemed on a model of the chain; race detector on the gateway",
      level_note="held on the executions explored; the chain is a fake that implements the payment channel actor's rules")

check("C20", [dict(mod="gateway", name="c20reputation"),
              dict(mod="gateway", name="c20reputation", race=True, args=dict(mode="concurrent"))],
      rule="random histories of all 11 events, challenges, settings and lookups on 2 to 6 clients, and tens of thousands of small histories of 3 callers of one client at once; distinct histories are counted",
      technique="runtime monitoring: every answer compared with a model of the ledger; a linearizability checker over recorded concurrent histories; sums conserved; race detector",
      level_note="held on the executions explored; the running gateway does not apply these events yet, so the ledger is driven directly")

check("C24", [dict(mod="common", name="c24provider", bins=PROVIDER),
              dict(mod="common", name="c24provider", bins=PROVIDER, race=True, args=dict(mode="concurrent"))],
      rule="random histories of publications by the real provider program to 2 to 24 gateways that answer well, badly in 9 ways, late or not at all, of lists acknowledged in 11 ways, and questions of admin and clients; and 10 peers at once; distinct publications and completion orders are counted",
      technique="runtime monitoring: what each gateway heard and said compared with what the provider was told, shows its admin, clients and other gateways; crash and panic monitor; race detector on the provider",
      level_note="held on the executions explored")

check("C27", [dict(mod="common", name="c27admin", bins=GATEWAY + PROVIDER),
              dict(mod="common", name="c27admin", bins=GATEWAY, race=True, args=dict(mode="concurrent"))],
      rule="random messages of every kind and well-formed requests of every kind to every port of the real programs before they have a key, then random histories of initialisations, unreadable ones, admin requests, challenges and notices, with restarts, and 6 admins and clients at once; distinct messages and completion orders are counted",
      technique="runtime monitoring: every answer checked against who the node was last made; what every provider was told compared with what the gateway was told; crash and panic monitor; race detector on the gateway",
      level_note="held on the executions explored; the admin interface takes requests from anyone, by design, and is not claimed to do otherwise")

check("C28", [dict(mod="common", name="c28catchup", bins=GATEWAY),
              dict(mod="common", name="c28catchup", bins=GATEWAY, race=True, args=dict(mode="concurrent"))],
      rule="random lists of genuine publications and of 10 shapes of others, from 1 to 8 providers of which some fail in 6 ways, to the real gateway program among 2 to 30 gateways, with restarts, and 2 admins, 2 publishers and 2 clients at once; distinct exchanges and completion orders are counted",
      technique="runtime monitoring: every request and acknowledgement checked by the providers that get them, every later answer against the ledger of what was acknowledged; crash monitor; race detector on the gateway",
      level_note="held on the executions explored")

check("C21", [dict(mod="client", name="c21client"),
              dict(mod="client", name="c21client", race=True, args=dict(mode="concurrent"))],
      rule="random searches of all four kinds by the client library among 2 to 9 gateways that answer well or badly in 11 ways, relay answers spoilt in 5 ways, give offers forged in 9 ways and demand payment again, and 8 searches at once; distinct searches and completion orders are counted",
      technique="runtime monitoring: offers returned compared with the genuine ones among those delivered; every voucher redeemed on a model of the chain as it arrives; panic monitor; race detector on the client",
      level_note="held on the executions explored; the chain is a fake that implements the payment channel actor's rules; offers past their expiry that a gateway gives all the same are not covered")

check("C22", [dict(mod="client", name="c22gateways"),
              dict(mod="client", name="c22gateways", race=True, args=dict(mode="concurrent"))],
      rule="random histories of all changes to the gateways a client uses, over registers with incomplete entries of 9 kinds and gateways that answer the challenge wrongly in 11 ways, and 6 callers at once; distinct histories and completion orders are counted",
      technique="runtime monitoring: every count and list compared with a model; what gateways are asked checked by the gateways; counts balanced at rest; race detector on the client",
      level_note="held on the executions explored; the challenge's unpredictability is not claimed")

check("C23", [dict(mod="client", name="c23ack")],
      rule="random questions of the client library to a provider that shows genuine evidence, evidence false in 20 ways, hostile messages genuinely signed, spoilt answers or none; distinct questions are counted",
      technique="runtime monitoring: acceptance oracle over genuine and false evidence; panic monitor",
      level_note="held on the executions explored; that the provider's answer names the CID and gateway asked about is not claimed, as the evidence in it does")

check("C25", [dict(mod="common", name="c25register", bins=REGISTER),
              dict(mod="common", name="c25register", bins=REGISTER, race=True, args=dict(mode="concurrent"))],
      rule="random histories of registrations with odd field values, deletions, malformed requests and restarts of the real register program over a fake store, directly and through the library; 10 requests at once; a store that is down, refuses, hangs up before or after doing what it was asked, or does so at random; distinct answers, histories and completion orders are counted",
      technique="runtime monitoring: every answer compared with a model of what was registered, concurrent ones with every order that explains them; panic and connection monitor; race detector on the register",
      level_note="held on the executions explored; the store is a fake that speaks the Redis protocol")

check("C30", [dict(mod="itest", name="c30admin"),
              dict(mod="itest", name="c30admin", race=True, args=dict(mode="concurrent"))],
      rule="random operations of both admin libraries on managed and unmanaged nodes that do as asked, refuse, or answer badly or with hostile bytes in every way the client library's gateways do, and 8 operations at once; distinct operations with their answers and completion orders are counted",
      technique="runtime monitoring: every request compared with what was asked by the node that gets it; acceptance oracle over good and bad answers; model of the managed nodes; panic monitor; race detector on the libraries",
      level_note="held on the executions explored; an old answer of the same node to the same question is not told from a new one, as answers carry no nonce, and that is not claimed")

check("C29", [dict(mod="common", name="c29hostile", bins=GATEWAY + PROVIDER),
              dict(mod="common", name="c29hostile", bins=GATEWAY + PROVIDER, race=True, args=dict(mode="race"))],
      rule="6 senders at once of bytes, spoilt envelopes and messages of all kinds with hostile bodies, genuinely signed, to all 7 ports of a gateway and a provider that ask hostile nodes in turn, with senseless entries in the register; distinct requests and completion orders are counted",
      technique="runtime monitoring: crash, panic, memory and descriptor monitors, and genuine publications and lookups, checked by the same oracles as C16, C17 and C24, all the while; race detector on both programs",
      level_note="held on the executions explored; the admin interface's own initialisation requests are not among what is sent, as they are meant to change the node")

check("C31", [dict(mod="itest", name="c31network", bins=GATEWAY + PROVIDER + REGISTER),
              dict(mod="itest", name="c31network", bins=GATEWAY + PROVIDER + REGISTER, race=True, args=dict(mode="concurrent"))],
      rule="random histories of publications, searches of all four kinds, acknowledgements asked for, restarts of any or all programs and newcomers, in networks of 3 to 24 gateways and 1 to 3 providers with the real register over a fake store; 4 clients and 2 providers at once; distinct searches and completion orders are counted",
      technique="runtime monitoring: every result of the client and admin libraries compared with a model of what was published to which gateway and when; crash and chain monitors; race detector on all programs and libraries",
      level_note="held on the executions explored; a provider keeps its offers in memory, and the first request to a node that restarted may fail on its old connection, so those are not claimed; the chain and the register's store are fakes")

check("C32", [dict(mod="itest", name="c32jsgates", js=True, bins=GATEWAY + REGISTER)],
      rule="random histories of additions and activations of the JavaScript client library in a Node process, with 10 kinds of bad register entries and 12 kinds of bad answers, 2 to 6 overlapping operations with random delays, random messages of all kinds signed by the Go library, genuine and altered in 7 ways, and the real register and gateways; distinct histories, messages and completion orders are counted",
      technique="runtime monitoring: the client's sets compared with a model after every operation; what gateways and register are asked checked by them; counts balanced at rest; acceptance oracle over signatures made by the Go library",
      level_note="held on the executions explored; the packages axios, blake2b and secp256k1 are not installed here, and stand-ins of the monitors take their place",
      assumptions=["the stand-ins behave as the packages do; those for hashing and signatures are compared with the Go library in every run"])

check("C33", [dict(mod="itest", name="c33jspay", js=True)],
      rule="random histories of top ups and payments by the JavaScript payment manager in a Node process over a fake Lotus node, with failures of every request in 3 ways and of messages on the chain, amounts of the whole range, and 2 to 9 overlapping top ups with payments in between; distinct operations and request orders are counted",
      technique="runtime monitoring: every voucher taken by a recipient that keeps the payment channel's books; the client's books compared with the chain's after every top up",
      level_note="held on the executions explored; filecoin-signing-tools, axios and bn.js are not installed here, and stand-ins of the monitors take their place; a top up that landed while the node failed to say so is not in the books, and not claimed to be",
      assumptions=["the stand-in for the signing tools takes the arguments the real ones take, in their order"])
