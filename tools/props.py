def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, pending=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if pending:
        d["pending"] = pending
    return d


CP = "common/pkg/"
PROPS = [
P("C01", "Identifiers are 256-bit numbers that survive every representation",
  "A content or node identifier made from a number, bytes or hex text of at most 256 bits is that number, left-padded to 32 bytes, and comes back the same from its bytes, hex and JSON forms; anything longer or malformed is refused, and so is JSON of any other length. Later changes to the caller's buffer do not change an identifier, and two identifiers are equal exactly when their numbers are. A node's identifier from its key is the hash of the encoded public key; ordering nodes clockwise from a point, and the distance of two points around the ring, follow modular arithmetic.",
  ["inputs"], "every number, byte string, text, list and pair of identifiers",
  "the tests use a handful of short identifiers; padding, borders (31, 32, 33 bytes, zero, all ones), malformed text and wrap-around orders are input spaces",
  [CP + "cid/cid.go", CP + "nodeid/nodeid.go", CP + "math/distance.go"],
  [("constructors and codecs of both identifier types", CP + "cid/cid.go, " + CP + "nodeid/nodeid.go"), ("clockwise order", CP + "nodeid/nodeid.go"), ("ring distance", CP + "math/distance.go")]),
P("C02", "The DHT ring answers like an ordered circular set",
  "After any history of insertions and removals the ring holds exactly the members inserted and not removed, each once, and reports their number. Asking for the members closest to a point gives the right number of them, no other member being nearer by distance around the ring; asking for a range gives the members from its start clockwise to its end; removed members are never returned and the excluded one never is.",
  ["histories", "inputs"], "every history of insertions, removals and queries, for members anywhere on the ring including its wrap-around",
  "tests insert one list and query it; removal of the first, last or only member, duplicates, absent members and wrapping ranges only show in longer histories",
  [CP + "dhtring/dhtring.go"], [("ring of linked entries", CP + "dhtring/dhtring.go")]),
P("C03", "Offers and sub-offers cannot be altered, extended or forged",
  "A signed offer verifies under its signer's key, also after encoding, and no offer that differs in provider, list of CIDs, price, expiry or quality of service verifies with that signature, nor does any offer under another key; offers that differ in any of these have different digests. Each CID of an offer yields a sub-offer with the same terms whose signature and membership proof verify; for a CID outside the offer none is generated, and no combination of CID, proof and terms outside the offer passes both verifications. An offer is expired exactly when its expiry lies in the past.",
  ["inputs", "schedules"], "every offer of any number of CIDs, every alteration of it, every forged proof, also when several goroutines share the offer",
  "tests verify a few fixed offers; the guarantee is about all alterations and all proofs an adversary may build, and about tree sizes that need padding",
  [CP + "cidoffer/cidoffer.go", CP + "cidoffer/subcidoffer.go", CP + "fcrmerkletree/proof.go", CP + "fcrmerkletree/tree.go"],
  [("signature over provider, root and terms", CP + "cidoffer/cidoffer.go"), ("membership proof", CP + "fcrmerkletree/proof.go")]),
P("C04", "A signature is accepted for its key and message, and nothing else",
  "Whatever a private key signs verifies with every form of that key (generated, decoded, public half, hashed public key), and fails for any other message, key, or changed, cut or empty signature; a signed message names the key version it was signed with. Keys, key versions and hashes come back unchanged from their encodings, the JSON form of a key pair holds only its public half, and malformed keys or signatures are refused without a crash. All of this holds when goroutines share one key pair.",
  ["inputs", "schedules"], "every key, message, signature and malformed encoding; every interleaving of users of one key pair",
  "tests sign a few constants with one key in one goroutine; they reach neither malformed input nor concurrent use",
  [CP + "fcrcrypto/keypair_retrieval.go", CP + "fcrcrypto/msg_signing.go", CP + "fcrcrypto/secp256k1.go", CP + "fcrcrypto/key_version.go", CP + "fcrcrypto/hash.go"],
  [("key encoding, signing, verification", CP + "fcrcrypto/keypair_retrieval.go"), ("versioned signatures", CP + "fcrcrypto/msg_signing.go")]),
P("C05", "A message's signature covers all of it, and checking it changes nothing",
  "A signed message verifies under its signer's key, before and after being sent as bytes, and arrives with the same type, protocol numbers, body and signature. It fails verification under any other key, when unsigned, or when its type, protocol version, supported protocols, body or signature was changed. Verifying a message, whatever the outcome and however many goroutines do it, leaves the message as it was.",
  ["inputs", "schedules", "histories"], "every message, every alteration, every order and interleaving of verifications",
  "tests verify one message once; they never look at the message after a failed verification nor share it",
  [CP + "fcrmessages/fcrmessage.go"], [("signing and verification of the envelope", CP + "fcrmessages/fcrmessage.go"), ("wire form", CP + "fcrmessages/fcrmessage.go")]),
P("C06", "Every kind of message carries its fields unchanged and is never mistaken",
  "For every kind of protocol message, decoding what was encoded gives back every field, for all values, directly and after the signed wire form. A message of one kind is refused by the decoder of every other kind, and a publication of single-CID offers that contains an offer of several CIDs is refused.",
  ["inputs"], "every kind of message, all field values, all pairs of kinds",
  "tests encode one example per kind and often compare it with constants; they do not vary fields nor cross kinds",
  [CP + "fcrmessages/"], [("one encoder and decoder per kind", CP + "fcrmessages/*.go"), ("message types", CP + "fcrmessages/type.go")]),
P("C07", "No received bytes crash a decoder or become an unusable value",
  "Whatever bytes arrive as a message, a message body, an offer, a sub-offer, a proof, an identifier, a key or a register entry, decoding them ends with a value or an error and never a crash. A value that is accepted is complete: identifiers present and 32 bytes long, offers with a provider and CIDs, keys usable; verifying, hashing, re-encoding or further decoding it does not crash either.",
  ["inputs"], "every byte string, in particular every mutation of a genuine message",
  "tests feed well-formed bodies and one malformed constant; the guarantee is about all inputs of an adversary",
  [CP + "fcrmessages/", CP + "cidoffer/", CP + "fcrmerkletree/proof.go", CP + "cid/cid.go", CP + "nodeid/nodeid.go", CP + "fcrcrypto/keypair_retrieval.go", CP + "register/"],
  [("decoders", CP + "fcrmessages/*.go, " + CP + "cidoffer/*.go, " + CP + "fcrmerkletree/proof.go")]),
P("C26", "Nothing drawn from the shared random sources ever repeats",
  "Keys, identifiers, challenges and random bytes drawn from the shared or separate generators are all different and fill the whole buffer asked for, whatever its length. This holds when any number of goroutines draw from, reseed and kick the generators at the same time, and for generators created with the same domain or reseeded with the same seed.",
  ["schedules", "histories"], "every interleaving of draws, reseeds and creations",
  "tests draw a few values in one goroutine; the generators are process-wide and unsynchronised use only shows under concurrency",
  [CP + "fcrcrypto/prng.go", CP + "fcrcrypto/prng_pool.go", CP + "fcrcrypto/prng_public.go", CP + "fcrcrypto/prng_private.go"],
  [("generator state", CP + "fcrcrypto/prng.go"), ("pool of generators to kick", CP + "fcrcrypto/prng_pool.go")]),
P("C08", "The in-memory offer store serves exactly its accepted, unexpired offers",
  "A store refuses a group offer of fewer than two CIDs, a single-CID offer of several, and expired offers. Every accepted offer is returned unaltered, once, under each of its CIDs, and by its digest; single-CID offers also by a range of CIDs, clockwise from its start to its end, at most as many as asked for. Nothing else is returned, in particular no expired offer and no offer of the other kind. This holds while any number of goroutines add and look up offers: none is lost, duplicated or shared out under another CID.",
  ["histories", "schedules", "inputs"], "every history of additions and lookups, and every interleaving of them",
  "tests add and fetch a few offers in one goroutine; lost updates, expiry and wrapping ranges need histories and concurrency",
  [CP + "fcroffermgr/offer_manager.go", CP + "fcroffermgr/offer_storage.go", CP + "cidoffer/cidoffer.go"],
  [("storage by CID, digest and ring", CP + "fcroffermgr/offer_storage.go"), ("acceptance rules", CP + "fcroffermgr/offer_manager.go")]),
P("C09", "The persistent offer store loses, invents or alters no offer, even in a crash",
  "Offers given to the SQLite store are returned unaltered, once, under each of their CIDs, by digest, and in a range of CIDs, up to the number asked for, until they expire, whatever the time zone. This survives closing and reopening the store, and killing the process at any moment: offers whose addition was confirmed are there, one that was being added is there under all of its CIDs or none. Lookups leave no connection or file open, and goroutines may share one store.",
  ["histories", "crash_points", "schedules"], "every history of additions, lookups and restarts; every moment of a kill; every interleaving",
  "tests add and fetch a few offers of one process in one time zone; they neither kill the process nor watch its resources",
  [CP + "offermgr/offer_manager.go"], [("tables and queries", CP + "offermgr/offer_manager.go")]),
P("C10", "Every request over TCP gets its own answer, or an error",
  "A request to another node returns the answer to that request, delivered to the handler exactly once and to nobody else, or an error: on a shared connection answers are never swapped, and an answer that comes too late is never taken for the next one. Messages sent back to back, in pieces or slowly arrive whole and in order. Unknown message types and messages to the wrong address are answered as such and the connection stays usable. Malformed frames and claimed lengths cost the receiver neither memory nor a crash, a slow or silent peer does not hold up others and is given up at its timeout, and after a lost connection the next request succeeds.",
  ["histories", "schedules", "inputs"], "every interleaving of requests over shared connections, every fragmentation, delay and cut of the stream",
  "the tests only call the constructor; framing, sharing and failures show under concurrency and with a faulty network",
  [CP + "fcrp2pserver/server.go", CP + "fcrp2pserver/pool.go", CP + "fcrp2pserver/tcp_comms.go"],
  [("server loop and dispatch", CP + "fcrp2pserver/server.go"), ("pool of shared connections", CP + "fcrp2pserver/pool.go")]),
P("C11", "Every HTTP message reaches one handler once, and its answer its sender",
  "A message posted to an address of a node's REST server reaches, unaltered, exactly one call of the handler registered for its type at that address, and the sender gets exactly that call's answer. A request that is empty, malformed, broken off, of an unknown type, or to a wrong path or method gets an error status and reaches no handler, and a failing handler costs only its own request. When Start returns the server serves; when its port is taken or it was already started, Start reports an error. A sender reports an error for every error status, for an answer that is cut or malformed, and for an unreachable peer, and leaves no connection open.",
  ["inputs", "schedules", "fault_sequences"], "every request, well-formed or not, every interleaving of senders, every failure of the peer",
  "tests start a server and post one message; concurrent senders, broken requests and failing peers are not sampled",
  [CP + "fcrrestserver/server.go", CP + "request/request.go"],
  [("routes and dispatch by type", CP + "fcrrestserver/server.go"), ("senders", CP + "request/request.go")]),
P("C12", "A payer never promises more than its channels hold",
  "Every voucher a payer issues names the channel to its recipient, is signed by the payer, carries a growing number in its lane, raises the lane's total by exactly the amount paid, and has no further conditions. What a channel's vouchers promise together never exceeds what confirmed top ups put into it; a payment beyond that asks for a top up and issues nothing, and a failed top up changes nothing. However many goroutines pay and top up at once there is one channel per recipient and no amount is lost; the caller's own amounts are never changed; and everything promised can be redeemed on the chain.",
  ["histories", "schedules", "fault_sequences"], "every history and interleaving of top ups and payments, and every failure of the chain",
  "the tests need a running Lotus node and are skipped; balances and nonces only show over histories, failures and concurrency",
  [CP + "fcrpaymentmgr/payment_manager.go", CP + "fcrpaymentmgr/lotus_api.go"],
  [("channel and lane states of the payer", CP + "fcrpaymentmgr/payment_manager.go")]),
P("C13", "A payee credits every voucher once, and only what it can redeem",
  "A voucher is credited with exactly what it adds to the best voucher of its lane so far, so submitting it again, late or in another form earns nothing. It is credited only when signed by the payer of the channel it names, for that channel, to this payee, without conditions, and within what the channel holds on the chain. A refused voucher, garbage, an address that is no channel and a failure of the chain change nothing and crash nothing. This holds for any number of concurrent submissions, also while the channel is topped up, and everything credited while the node runs can be redeemed.",
  ["histories", "schedules", "inputs"], "every history and interleaving of genuine, replayed and hostile vouchers, and every failure of the chain",
  "the tests need a running Lotus node and are skipped; replay, reordering, races and forged vouchers need a hostile payer",
  [CP + "fcrpaymentmgr/payment_manager.go", CP + "fcrpaymentmgr/lotus_api.go"],
  [("channel and lane states of the payee", CP + "fcrpaymentmgr/payment_manager.go")]),
P("C14", "A node's view of the network follows the register",
  "After a refresh, and otherwise within the refresh interval, a node's view holds every gateway and provider the register lists, once each and with its current details; a gateway it does not know is looked up before it is reported unknown. When the register fails or answers garbage the view stays as it was and catches up later. A refresh asked for while another is running really fetches anew, nothing deadlocks, shutting down empties the view and a restart fills it again. A registration reaches the register once, and a refused one is reported as an error.",
  ["histories", "schedules", "fault_sequences"], "every history of registrations, changes, failures and restarts, and every interleaving of refreshes and lookups",
  "tests use one fixed answer of a mock register; changes, failures and concurrent refreshes are not sampled",
  [CP + "fcrregistermgr/register_manager.go", CP + "register/client_register.go", CP + "request/request.go"],
  [("cached view and its refresh", CP + "fcrregistermgr/register_manager.go"), ("register client", CP + "register/")]),
P("C15", "A search near a CID finds its nearest gateways, and a range the right ones",
  "Asking for the n gateways near a CID gives min(n, 16, those known and not excluded) gateways, none for n of zero or less, each once with its current details, no other known gateway being nearer around the ring, and never the excluded one. The CID range of a gateway spans, clockwise, exactly its 16 nearest gateways, and is an error when there are fewer than two others. Both hold while gateways are being added.",
  ["inputs", "schedules", "configurations"], "every set of gateways, every CID, every number asked for, every interleaving with additions",
  "tests use one list of 30 gateways; sets around the wrap of the ring, small sets and concurrent growth are not sampled",
  [CP + "fcrregistermgr/register_manager.go", CP + "dhtring/dhtring.go"],
  [("search near a CID and range of a gateway", CP + "fcrregistermgr/register_manager.go"), ("ring", CP + "dhtring/dhtring.go")]),
P("C16", "A gateway accepts and acknowledges exactly genuine publications, for good",
  "A gateway acknowledges a publication of offers exactly when it is signed by a registered provider and every offer in it is that provider's own and correctly signed; the acknowledgement is signed by the gateway and names what was published. Offers acknowledged are served from then on until they expire, also after the gateway is killed and restarted. A publication refused leaves nothing behind, and other providers' and clients' requests at the same time are not disturbed.",
  ["histories", "inputs", "schedules", "crash_points"], "every history and interleaving of genuine and forged publications, lookups, register changes, restarts and kills",
  "no test runs the gateway with providers; forged publications, partial refusals and lost offers only show against the running program",
  ["gateway/internal/api/providerapi/", "gateway/internal/core/core.go", CP + "offermgr/offer_manager.go"],
  [("publication handlers", "gateway/internal/api/providerapi/publish_group_offer_handler.go, publish_dht_offer_handler.go"), ("offer store", CP + "offermgr/offer_manager.go")]),
P("C17", "A gateway answers every question with exactly the offers it holds",
  "A gateway asked for a CID, by clients or by gateways, for offers or for digests, answers with a signed message that repeats the CID and nonce of the question and has exactly the unexpired offers accepted for that CID, each once and verifiable with its provider's key; asked for offers by digest it returns those that are of the CID and leaves out unknown, malformed and foreign digests. Expired questions, and questions in the name of a gateway that it did not sign or that is unknown, are not answered.",
  ["histories", "inputs", "schedules"], "every history of publications and every question in each of six forms, valid or not, and every interleaving of them",
  "no test runs the gateway with offers in it; mixed-up answers, expiry, malformed digests and impersonation only show against the running program",
  ["gateway/internal/api/clientapi/", "gateway/internal/api/gatewayapi/"],
  [("client questions", "gateway/internal/api/clientapi/standard_discover_handler.go, standard_discover_handler_v2.go, standard_discover_offer_handler.go"), ("gateway questions", "gateway/internal/api/gatewayapi/dht_discover_handler.go, dht_discover_handler_v2.go, dht_discover_offer_handler.go")]),
P("C18", "A gateway serves exactly those who paid the price",
  "Each paid service of a gateway is given exactly when the voucher that comes with the request is worth at least the price at that moment: the search price, the search price for each gateway to ask, or the offer price for each digest. A voucher that is short, replayed, forged, for another channel or beyond what the channel holds buys nothing, and its refusal reveals no offers. A voucher presented several times at once buys one service. Prices do not change from request to request.",
  ["histories", "inputs", "schedules", "configurations"], "every history of exact, short, excessive, replayed and forged vouchers in each of six services, every price, and every interleaving of requests",
  "tests of the handlers do not exist, as payment needs a chain; off-by-one prices, replays and races need a payer and a model of the chain",
  ["gateway/internal/api/clientapi/", "gateway/internal/api/gatewayapi/", CP + "fcrpaymentmgr/payment_manager.go"],
  [("price checks", "gateway/internal/api/clientapi/*_v2.go, *_offer_handler.go; gateway/internal/api/gatewayapi/dht_discover_handler_v2.go, dht_discover_offer_handler.go")]),
P("C19", "A gateway asks others for a client exactly as told, and pays them right",
  "Asked to search the DHT, a gateway asks exactly the gateways nearest to the CID, or those the client names, once each, in signed messages of its own. What it passes on for a gateway is exactly what that gateway said and signed, in answer to this client's question; a gateway that is down, silent, or answers without its own signature is not passed on, and does not disturb the others. Each gateway asked gets a voucher it can redeem, worth at least the price, and over time never more than the prices of the questions meant for it. Channels are topped up by the amount configured, and when the chain fails only the questions asked meanwhile suffer.",
  ["histories", "fault_sequences", "schedules", "configurations"], "every set of gateways, every history of honest, faulty and absent ones, every interleaving of clients",
  "no test relays a question; the choice of gateways, failing ones, mixed-up answers and payments only show in a network",
  ["gateway/internal/api/clientapi/", "gateway/internal/api/gatewayapi/", "gateway/internal/core/core.go", CP + "fcrp2pserver/", CP + "fcrpaymentmgr/payment_manager.go"],
  [("relaying handlers", "gateway/internal/api/clientapi/dht_discover_handler.go, dht_discover_handler_v2.go, dht_discover_offer_handler.go"), ("requesters", "gateway/internal/api/gatewayapi/*_requester*.go")]),
P("C20", "A client's reputation is the sum of what it did, within its bounds",
  "A gateway knows no client before its first establishment challenge or until its score is set; looking a client up changes nothing. A first challenge sets 10, every challenge takes 1; every event changes the score of that client, and of no other, by its amount (deposit +1000; standard discovery: one offer +10, no offers +1, late +1, not paid -100; DHT discovery: +10, +1, +1, -300; micro-payment +1; invalid message -10), held within -10000 and 10000. The admin reads that score, and sets that of a client that is known to any value within the bounds; a client not known stays so. However callers interleave, none is lost, and what they see is explained by some order of their calls.",
  ["histories", "schedules"], "every history of events on every set of clients, every interleaving of callers",
  "tests apply each event once to a client of its own; interference between clients, the bounds, interleavings and the admin's requests are left open",
  ["gateway/internal/reputation/", "gateway/internal/api/adminapi/"],
  [("reputation ledger", "gateway/internal/reputation/reputation.go, reputation_store.go, reputation_constants.go"), ("the admin's requests", "gateway/internal/api/adminapi/get_client_reputation_handler.go, set_client_reputation_handler.go")]),
P("C24", "A provider publishes exactly what it is told, and keeps every acknowledgement",
  "Told to publish, a provider signs the offers and gives each group offer once to every gateway, each DHT offer once to the 16 gateways nearest to its CID, whatever the others answer; what it cannot store, it refuses and publishes to nobody. It counts as acknowledged what a gateway answered with its own signature over this very publication, and nothing else: its admin sees exactly those offers as published, and clients get, for each CID and gateway, the last publication and acknowledgement word for word. A registered gateway that asks is listed the live DHT offers of a range, up to 500, 50 to a message, and its acknowledgements count likewise; strangers are refused.",
  ["histories", "fault_sequences", "schedules", "configurations"], "every history of publications, every set of gateways that answer well, badly or not at all, every interleaving of admins, gateways and clients",
  "no test publishes anything; acknowledgements only matter between programs, and the wrong ones come from faulty gateways",
  ["provider/", CP + "fcroffermgr/", CP + "fcrp2pserver/"],
  [("publishing", "provider/internal/api/adminapi/publish_*_offer_handler.go, provider/internal/api/providerapi/"), ("acknowledgements", "provider/internal/core/core.go, provider/internal/api/clientapi/dht_offer_ack_handler.go"), ("lists for gateways", "provider/internal/api/gatewayapi/list_dht_offer_handler.go")]),
P("C27", "A node does nothing before it has a key, and then what its admin asks, as itself",
  "Until its admin has given it a key, a gateway or provider refuses every request of every kind on every port, and survives it; a key or wallet that cannot be read is refused and leaves the node what it was. From then on everything it answers its admin, clients and gateways is in the name and under the signature of the identity it was given last. A client's challenge comes back signed, in time or not at all; a refresh has happened by the time it is reported; a client that is not known has no reputation to read or set; a change of the group offer support is told to every registered provider exactly once, signed, with its own flag; a provider acknowledges such notice only from the gateway it names.",
  ["histories", "inputs", "schedules"], "every history of requests and initialisations, every message before the first, every interleaving of admins and clients",
  "no test starts the programs; what an uninitialised node does depends on each handler of each kind, and the notices go out after the answer",
  ["gateway/", "provider/", CP + "fcrrestserver/", CP + "fcrp2pserver/"],
  [("initialisation", "gateway/internal/core/core.go, provider/internal/core/core.go, gateway/internal/api/adminapi/initialise_key_handler.go"), ("admin requests", "gateway/internal/api/adminapi/, provider/internal/api/adminapi/force_refresh_handler.go"), ("notices", "gateway/internal/api/gatewayapi/set_group_cid_support.go, provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go"), ("establishment", "gateway/internal/api/clientapi/establishment_handler.go")]),
P("C28", "A gateway that catches up takes and acknowledges exactly the genuine offers",
  "Told by its admin to catch up, a gateway asks every registered provider once, signed and in its own name, for the offers of the CIDs between the outermost of the 16 gateways nearest to it; told not to, it asks nobody. Of the list a provider signs, it acknowledges, in order, each publication that the provider itself signed and whose offers are all that provider's and signed, with its own signature over that publication, and nothing else; what it acknowledged it serves from then on, also after a restart. A list that is not the provider's is not acknowledged at all, and no forged, altered or foreign offer of any list is ever served.",
  ["histories", "inputs", "fault_sequences", "schedules"], "every list a provider may send, every set of providers and gateways, every interleaving with publications and questions",
  "no test runs it; the exchange happens after the admin is answered, with whatever each provider chooses to send",
  ["gateway/", CP + "fcroffermgr/", CP + "fcrregistermgr/", CP + "fcrp2pserver/"],
  [("asking", "gateway/internal/api/adminapi/list_dht_offer_handler.go"), ("taking and acknowledging", "gateway/internal/api/gatewayapi/list_dht_offer_requester.go"), ("the range", "common/pkg/fcrregistermgr/register_manager.go GetGatewayCIDRange")]),
P("C21", "A client gets every genuine offer it is given, no other, and pays its price",
  "Of the offers that gateways send in answer to a search, the client library returns all those, up to the number asked for, that are for the CID searched, signed by a provider in the register, with a proof that fits, and that come in an answer signed by the gateway they are credited to (in a DHT search, each of the gateways asked); it returns no other offer, and an unsigned, altered, foreign, late or malformed answer of the gateway searched is an error without offers. One gateway's bad answer costs nothing of the others'. A free search carries no payment; a paid one carries, for each request, one voucher for exactly the price of that request, good at the moment it arrives, also when several searches run at once; no more offers are asked and paid for than are wanted, and only of gateways that said they have them; a gateway that demands payment again is paid again once.",
  ["inputs", "histories", "fault_sequences", "schedules"], "every search, every answer of every gateway, every interleaving of searches at one gateway",
  "the client library has no unit tests; what it must withstand is whatever a gateway chooses to answer",
  ["client/pkg/"],
  [("searches", "client/pkg/fcrclient/filecoin_retrieval_client.go"), ("answers checked", "client/pkg/api/clientapi"), ("payment", "client/pkg/fcrclient/filecoin_retrieval_client.go topupAndPay, common/pkg/fcrpaymentmgr")]),
P("C22", "A client's active gateways are those that proved who they are",
  "The gateways a client is to use are exactly those added and not removed since that are in the register with a complete entry; its active ones are exactly those of them that were asked to be, answered a fresh challenge with a message that names the gateway and the challenge and is signed with its key in the register, and have not been removed since from either set, also when that happens while the challenge is under way. Every operation returns the number of gateways it changed, so that counts balance however many callers there are; a gateway found for a region is in the register for that region, found once, and no more are found than asked for.",
  ["histories", "fault_sequences", "schedules"], "every history of changes by any number of callers, every answer of every gateway",
  "the client library has no unit tests; removal during establishment needs a particular interleaving",
  ["client/pkg/"],
  [("the sets", "client/pkg/fcrclient/filecoin_retrieval_client.go"), ("the challenge", "client/pkg/api/clientapi/establishment_requester.go"), ("register entries", "client/pkg/fcrclient/register_validation.go")]),
P("C23", "A client believes an acknowledgement only on genuine evidence",
  "The client library reports that a gateway acknowledged an offer for a CID exactly if the provider asked, which is in the register with the gateway, shows it a publication signed by the provider that has an offer for the CID, and a response signed by the gateway with the gateway's signature over that very publication. Evidence that is missing, of another kind, altered, or signed by anybody else is not believed, and no answer makes the client panic; that the provider knows of no acknowledgement is no error.",
  ["inputs", "fault_sequences"], "every answer a provider may give",
  "the client library has no unit tests; the answers come from a provider that gains by lying",
  ["client/pkg/", CP + "fcrmessages/"],
  [("evidence checked", "client/pkg/fcrclient/filecoin_retrieval_client.go FindDHTOfferAck"), ("the question", "client/pkg/api/clientapi/dht_offer_ack_requester.go")]),
P("C25", "The register tells what was registered, and admits what it could not store",
  "The register lists, and finds by identifier, exactly the gateways and the providers registered since the last deletion of their kind, each as it was last registered, field for field, also after a restart and as seen by other nodes through the library; malformed requests change nothing; among concurrent requests every answer is one that some order of them explains. When its store fails, a request is answered with an error, never with success, a panic or a broken connection; what it answered with success is there when the store is back, and it then works again; however many requests it serves, it leaves no connections to the store behind.",
  ["inputs", "histories", "schedules", "fault_sequences"], "every history of registrations, deletions and lookups, every failure of the store",
  "the register has no unit tests, and all nodes find each other and each other's keys through it",
  ["register/", CP + "fcrregistermgr/", CP + "register/"],
  [("storing and listing", "register/internal/handlers"), ("the interface", "register/restapi, register/models"), ("nodes registering", "common/pkg/fcrregistermgr RegisterGateway, RegisterProvider")]),
P("C30", "Admins send what they are asked to, and believe only what the node signed",
  "For every operation of the gateway and provider admin libraries the node managed is sent exactly one message, of that operation's kind with exactly the values asked for, signed by the admin; one that needs a managed node sends nothing and fails for any other. The operation succeeds, with the values in the answer, exactly if the node answers in a message of the right kind signed with its own registered key that says it was done; a refusal, an error, silence, or an answer of another kind, signer or content fails it. A node becomes managed exactly by an initialisation or change of features that succeeded, under the entry given with the last of them. No answer makes a library panic, and concurrent operations do not affect each other.",
  ["inputs", "histories", "schedules", "fault_sequences"], "every operation with every values, every answer a node may give, every interleaving",
  "the admin libraries' tests only build settings; keys, wallets and offers are entrusted to what they send",
  ["gateway-admin/pkg/", "provider-admin/pkg/"],
  [("gateway operations", "gateway-admin/pkg/fcrgatewayadmin, gateway-admin/pkg/api/adminapi"), ("provider operations", "provider-admin/pkg/fcrprovideradmin, provider-admin/pkg/api/adminapi"), ("request and answer", "common/pkg/request")]),
P("C29", "Nothing anyone sends to a gateway or a provider stops it serving others",
  "Whatever is sent to any port of a gateway or a provider, by anybody: bytes that are no message, false lengths, messages of any kind with any body under the genuine signature of a registered or unknown party, and whatever is answered by the nodes it asks in turn, it does not crash, no handler panics, and it takes no more than a bounded amount of memory and of connections. Every HTTP request is answered with a message or an error, unless it is past the time it names. During and after that, those that behave are served as ever: a provider's genuine offer is acknowledged and then found by clients and by gateways, a provider publishes what its admin asks it to to the gateways that work, and answers its clients. Entries of the register with senseless identifiers, addresses and keys change nothing about that.",
  ["inputs", "histories", "schedules", "fault_sequences"], "every sequence of bytes and messages at every port, every answer of every other node",
  "no test runs a gateway or provider; one unexpected message must not take the node from all its users",
  ["gateway/", "provider/", CP + "fcrp2pserver/", CP + "fcrrestserver/", CP + "fcrmessages/"],
  [("requests between nodes", "common/pkg/fcrp2pserver"), ("requests by REST", "common/pkg/fcrrestserver"), ("handlers", "gateway/internal/api, provider/internal/api")]),
P("C31", "What providers publish is what clients find, anywhere in a running network",
  "In a network of the register, gateways and providers, managed and used through the libraries alone: every gateway and provider registered and initialised is found and used by clients. After a provider's admin was told that offers are published, every search at any gateway, directly or relayed to the gateways nearest the CID, free or paid, returns all those published to the gateways searched, up to the number asked for, and nothing else; clients are shown the acknowledgements of exactly the DHT offers that gateways took; the payments all work. This holds while others publish and search, after restarts of any of the programs or all of them, and for gateways that join later and catch up on the CIDs around them.",
  ["histories", "schedules", "configurations", "crash_points"], "every history of publications, searches, restarts and newcomers, every network size",
  "no test runs more than one program; every guarantee of a part only matters if the parts fit together",
  ["register/", "gateway/", "provider/", "client/pkg/", "gateway-admin/pkg/", "provider-admin/pkg/", CP],
  [("searches", "client/pkg/fcrclient, gateway/internal/api/clientapi, gateway/internal/api/gatewayapi"), ("publications", "provider-admin/pkg, provider/internal/api, gateway/internal/api/providerapi"), ("finding each other", "register, common/pkg/fcrregistermgr"), ("payments", "common/pkg/fcrpaymentmgr")]),
P("C32", "The JavaScript client's active gateways are those that proved who they are",
  "The gateways the JavaScript client is to use are exactly those it was told to add and for which the register, asked for that gateway, gave that gateway's entry with a well-formed signing key, each kept with that entry, field for field. Its active ones are exactly those of them it was told to activate and that answered a fresh random challenge, posted to the client address of the entry in the client's name, with a message of the right kind that names the gateway and the challenge and is signed with the key of the entry; nobody else is challenged. What a Go node signs verifies in the JavaScript library under its key, real gateways become active, and no message altered, unsigned or signed with another key verifies. Operations return the number of gateways they added, also when several overlap; whatever the register and gateways answer, none throws, and one bad gateway costs nothing of the others'.",
  ["inputs", "histories", "fault_sequences", "schedules"], "every history of additions and activations, overlapping or not, every answer of register and gateways, every signed message",
  "the client's tests are not run by the build, mock the network, and know one answer; what must be withstood is whatever a gateway or register chooses to say",
  ["client-js/src/"],
  [("the sets", "client-js/src/FilecoinRetrievalClient.ts addGatewaysToUse, addActiveGateways"), ("the challenge", "client-js/src/clientapi/establishment_requester.ts, client-js/src/fcrMessages/client_establishment.ts"), ("register entries", "client-js/src/register"), ("signatures", "client-js/src/fcrcrypto, client-js/src/fcrMessages/fcrMessage.class.ts")]),
P("C33", "The JavaScript client pays with good vouchers, and its books are the chain's",
  "A payment by the JavaScript client's payment manager gives a voucher exactly if what was topped up for that recipient, less what was paid before on all lanes, covers it; otherwise it says that a top up is needed and gives none. The voucher is for the recipient's channel and the lane asked for, signed by the wallet, unconditional and in URL-safe base 64 without padding; the lane's nonce grows with every voucher and its amount by exactly what was paid. What could not be signed is not booked. A top up succeeds exactly if its one message, signed by the wallet, took effect on the chain: it opens the recipient's only channel, also for a wallet that never sent anything, or adds to it, and then is in the books; one that failed at any step or on the chain is not. Top ups and payments may overlap without failing, losing money or using a nonce twice.",
  ["inputs", "histories", "fault_sequences", "schedules"], "every history of top ups and payments to several recipients on several lanes, every failure of the Lotus node, every overlap",
  "the payment manager has one empty test; lost money and worthless vouchers only show against a chain that keeps count",
  ["client-js/src/fcrPaymentMgr/", "client-js/src/filecoin/"],
  [("payments and top ups", "client-js/src/fcrPaymentMgr/payment_manager.class.ts"), ("requests to the Lotus node", "client-js/src/filecoin/filecoin_rpc.class.ts")]),
]
