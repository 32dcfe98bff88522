//go:build go1.22

// C21: the client library among gateways that answer well and badly: it returns the genuine offers it is given and no
// others, credits them to the gateways that gave them, and pays what it set out to pay.
package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/client/pkg/verif_clkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/lotus"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
)

const (
	std  = "standard"
	std2 = "standard-v2"
	dht  = "dht"
	dht2 = "dht-v2"
)

var kinds = []string{std, std2, dht, dht2}

type world struct {
	small         bool // top ups are small
	k             *kit.K
	reg           *fakes.Register
	chain         *lotus.Node
	me            *lotus.Account
	mgr           *fcrregistermgr.FCRRegisterMgr
	cl            *fcrclient.FilecoinRetrievalClient
	gates         []*clkit.Gate // in the register, and active
	unknown       *clkit.Gate   // not in the register
	invalid       *clkit.Gate   // with an incomplete entry in the register
	provs         []*svc.Party
	rogue         *svc.Party                // a provider that is not in the register
	old           map[*svc.Party]*svc.Party // what they were before they changed their key
	search, offer *big.Int
	settings      fcrclient.ClientSettings
	mu            sync.Mutex
	plans         map[string]*plan
}

func price(r *rand.Rand) *big.Int {
	switch r.Intn(3) {
	case 0:
		return big.NewInt(int64(1 + r.Intn(3)))
	case 1:
		return new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(62+r.Intn(10))), big.NewInt(r.Int63()))
	}
	return big.NewInt(int64(1 + r.Intn(100000)))
}

// newWorld prepares one; all are prepared before any is started, because preparing a client sets up logging.
func newWorld(k *kit.K, r *rand.Rand, small bool) *world {
	w := &world{k: k, reg: fakes.NewRegister(), chain: lotus.New(r), rogue: svc.NewParty(r), search: price(r), offer: price(r), plans: map[string]*plan{}, old: map[*svc.Party]*svc.Party{}}
	if small { // of the two payments of a search, it is mostly the second that the channel cannot bear
		w.search = new(big.Int).Add(new(big.Int).Rsh(w.offer, 2), big.NewInt(1))
	}
	w.me = w.chain.NewAccount()
	b := fcrclient.CreateSettings()
	b.SetLogging("disabled", "STDOUT", "verif")
	b.SetBlockchainPrivateKey(fakes.KeyFrom(r))
	b.SetEstablishmentTTL(1000)
	b.SetRegisterURL(w.reg.URL)
	b.SetWalletPrivateKey(w.me.Hex)
	b.SetLotusAP(w.chain.URL)
	b.SetSearchPrice(w.search)
	b.SetOfferPrice(w.offer)
	unit := new(big.Int).Add(w.search, w.offer)
	if !small {
		b.SetTopUpAmount(unit.Mul(unit, big.NewInt(int64(40+r.Intn(100)))))
	} else { // two top ups are enough for any search, and one is not
		w.small = true
		b.SetTopUpAmount(unit.Add(unit.Mul(w.search, big.NewInt(6)), new(big.Int).Mul(w.offer, big.NewInt(33))))
	}
	w.settings = *b.Build()
	return w
}

// start puts gateways and providers in it and makes the client.
func (w *world) start(r *rand.Rand, ngates int) {
	for i := 0; i < ngates+2; i++ {
		g := clkit.NewGate(r, w.chain)
		g.Answer(func(m *svc.Msg) *clkit.Reply { return w.handle(g, m) })
		switch i {
		case ngates:
			w.unknown = g
			continue
		case ngates + 1:
			w.invalid = g
			g.Entry.RegionCode = ""
		default:
			w.gates = append(w.gates, g)
		}
		w.reg.SetGateway(g.Entry)
	}
	for i := 0; i < 3; i++ {
		p := svc.NewParty(r)
		w.provs = append(w.provs, p)
		w.reg.SetProvider(fakes.ProviderEntry(p.ID.ToString(), p.Key, "127.0.0.1:1", "127.0.0.1:2", "127.0.0.1:3"))
	}
	w.mgr = fcrregistermgr.NewFCRRegisterMgr(w.reg.URL, true, true, time.Hour)
	fakes.Must(w.mgr.Start())
	w.reg.Junk(r, r.Intn(3)*r.Intn(5))
	w.mgr.Refresh()
	var err error
	w.cl, err = fcrclient.NewFilecoinRetrievalClient(w.settings, w.mgr)
	fakes.Must(err)
	for _, g := range w.gates {
		w.activate(g)
	}
}

func (w *world) activate(g *clkit.Gate) {
	if n := w.cl.AddGatewaysToUse([]*nodeid.NodeID{g.ID}); n != 1 {
		w.k.Violate("add:use", nil, "adding a registered gateway to those to use counts %d", n)
	}
	if n := w.cl.AddActiveGateways([]*nodeid.NodeID{g.ID}); n != 1 {
		w.k.Violate("add:active", nil, "adding a gateway that answers the challenge to the active ones counts %d", n)
	}
}

func (w *world) close() {
	w.mgr.ShutdownAndWait()
	for _, g := range append([]*clkit.Gate{w.unknown, w.invalid}, w.gates...) {
		for _, b := range g.Bad() {
			w.k.Violate("malformed-request", b, "the client sent what is no message: %.300s", b)
		}
		g.Close()
	}
	w.reg.Close()
	w.chain.Close()
}

// item is an offer some gateway gives.
type item struct {
	sub    cidoffer.SubCIDOffer
	good   bool
	what   string
	digest string
}

var bads = []string{"price", "expiry", "qos", "provider", "rogue", "gateway-signed", "other-cid", "relabelled", "unsigned", "old-key"}

// rekey: providers and gateways register again, with another key.
func (w *world) rekey(r *rand.Rand) {
	for _, p := range w.provs {
		if r.Intn(2) == 0 {
			w.old[p] = p.Rekey(r)
			w.reg.SetProvider(fakes.ProviderEntry(p.ID.ToString(), p.Key, "127.0.0.1:1", "127.0.0.1:2", "127.0.0.1:3"))
			w.k.Count("providers with another key", 1)
		}
	}
	var ids []*nodeid.NodeID
	for _, g := range w.gates {
		if r.Intn(3) == 0 {
			w.old[g.Party] = g.Rekey(r)
			g.Entry.SigningKey = fakes.PubHex(g.Key)
			w.reg.SetGateway(g.Entry)
			ids = append(ids, g.ID)
			w.k.Count("gateways with another key", 1)
		}
	}
	w.mgr.Refresh()
	if n := w.cl.RemoveActiveGateways(ids); n != len(ids) {
		w.k.Violate("remove", nil, "removing %d active gateways counts %d", len(ids), n)
	}
	for _, id := range ids { // the client follows when it makes sure of them again
		if n := w.cl.AddActiveGateways([]*nodeid.NodeID{id}); n != 1 {
			w.k.Violate("add:active", nil, "a gateway with a new key in the register answers the challenge; adding it counts %d", n)
		}
	}
}

func (w *world) item(r *rand.Rand, c *cid.ContentID, what string) *item {
	p := w.provs[r.Intn(len(w.provs))]
	cids := []*cid.ContentID{c}
	for i := r.Intn(4); i > 0; i-- {
		cids = append(cids, fakes.NewCID(r))
	}
	other := fakes.NewCID(r)
	cids = append(cids, other)
	r.Shuffle(len(cids), func(i, j int) { cids[i], cids[j] = cids[j], cids[i] })
	it := &item{what: what, good: what == "good", digest: cidoffer.EncodeMessageDigest([cidoffer.CIDOfferDigestSize]byte{byte(r.Int()), byte(r.Int()), byte(r.Int()), byte(r.Int()), byte(r.Int())})}
	if what == "rogue" {
		p = w.rogue
	}
	o := p.Offer(r, cids...)
	if what == "old-key" {
		by := w.old[p]
		if by == nil {
			by = w.rogue
		} else {
			w.k.Count("offers under a key that was good once", 1)
		}
		fakes.Must(o.Sign(by.Key, by.Ver))
	}
	type ids = *nodeid.NodeID
	switch what {
	case "price":
		o = svc.Forge(o, func(id ids, c []cid.ContentID, p uint64, e int64, q uint64) (ids, []cid.ContentID, uint64, int64, uint64) {
			return id, c, p + 1 + uint64(r.Intn(9)), e, q
		})
	case "expiry":
		o = svc.Forge(o, func(id ids, c []cid.ContentID, p uint64, e int64, q uint64) (ids, []cid.ContentID, uint64, int64, uint64) {
			return id, c, p, e + 1 + int64(r.Intn(9)), q
		})
	case "qos":
		o = svc.Forge(o, func(id ids, c []cid.ContentID, p uint64, e int64, q uint64) (ids, []cid.ContentID, uint64, int64, uint64) {
			return id, c, p, e, q + 1
		})
	case "provider":
		for _, x := range w.provs {
			if x != p {
				o = svc.Forge(o, func(id ids, c []cid.ContentID, p uint64, e int64, q uint64) (ids, []cid.ContentID, uint64, int64, uint64) {
					return x.ID, c, p, e, q
				})
				break
			}
		}
	case "gateway-signed":
		g := w.gates[r.Intn(len(w.gates))]
		fakes.Must(o.Sign(g.Key, g.Ver))
	case "unsigned":
		o.SetSignature("")
	}
	at := c
	if what == "other-cid" || what == "relabelled" {
		at = other
	}
	s, err := o.GenerateSubCIDOffer(at)
	fakes.Must(err)
	if what == "relabelled" { // an offer for something else, passed off as one for what is asked
		s = cidoffer.NewSubCIDOffer(s.GetProviderID(), fakes.NewCID(r), s.GetMerkleRoot(), s.GetMerkleProof(), s.GetPrice(), s.GetExpiry(), s.GetQoS(), s.GetSignature())
		*s.GetSubCID() = *c
	}
	it.sub = *s
	return it
}

// part is what one gateway contributes to a search.
type part struct {
	gate   *clkit.Gate
	fault1 string // of its answer for digests, or offers when there is no other
	fault2 string // of its answer for offers
	payReq bool
	hidden bool // it claims to have found nothing
	excess bool // it gives more than asked for
	items  []*item
}

// sound tells whether its digests are to be believed.
func (p *part) sound(w *world) bool {
	return p.fault1 == "" && p.gate != w.unknown && p.gate != w.invalid
}

// plan is one search, and what is to happen.
type plan struct {
	mu     sync.Mutex
	w      *world
	seed   int64
	kind   string
	c      *cid.ContentID
	entry  *clkit.Gate
	max    int
	num    int64
	demand int    // how often the entry gateway demands more payment
	outer1 string // fault of the first answer
	outer2 string // and of the second
	parts  []*part
	mutate bool // answers are genuinely signed, but hostile
	breaks int  // the chain breaks down before this payment
	spare  int  // but for so many transactions

	first, second int // requests seen
	asked         int // digests asked for
	text          []string
}

func (p *plan) note(f string, a ...interface{}) { p.text = append(p.text, fmt.Sprintf(f, a...)) }

func (p *plan) String() string {
	var s []string
	for _, x := range p.parts {
		var l []string
		for _, i := range x.items {
			l = append(l, i.what)
		}
		s = append(s, fmt.Sprintf("%s[%s] faults %q %q payReq %v hidden %v excess %v", x.gate.ID.ToString()[:6], strings.Join(l, " "), x.fault1, x.fault2, x.payReq, x.hidden, x.excess))
	}
	return fmt.Sprintf("%s max %d num %d demand %d faults %q %q; %s; %s", p.kind, p.max, p.num, p.demand, p.outer1, p.outer2, strings.Join(s, "; "), strings.Join(p.text, "; "))
}

// mutated makes some answers hostile.
func (p *plan) mutated(r *rand.Rand, by *svc.Party, a *clkit.Reply) *clkit.Reply {
	if p.mutate && a.Msg != nil && r.Intn(3) > 0 {
		a.Msg = clkit.Mutated(r, by, a.Msg)
	}
	return a
}

func (w *world) newPlan(r *rand.Rand, kind string, entry *clkit.Gate, calm bool) *plan {
	p := &plan{w: w, seed: r.Int63(), kind: kind, c: fakes.NewCID(r), entry: entry, max: 1 + r.Intn(12), num: int64(1 + r.Intn(12))}
	chance := func(n int) bool { return !calm && r.Intn(n) == 0 }
	if r.Intn(4) == 0 {
		p.max = 1000
	}
	if chance(6) {
		p.outer1 = clkit.Faults[r.Intn(len(clkit.Faults))]
	}
	if chance(6) {
		p.outer2 = clkit.Faults[r.Intn(len(clkit.Faults))]
		if chance(2) {
			p.outer2 = "nonce" // of many ways
		}
	}
	if (kind == std2 || kind == dht2) && chance(6) {
		p.demand = 1 + r.Intn(2)
	}
	if chance(12) {
		p.max = -r.Intn(3)
	}
	gates := []*clkit.Gate{entry}
	if kind == dht || kind == dht2 {
		gates = append([]*clkit.Gate(nil), w.gates...)
		if !calm {
			gates = append(gates, w.unknown, w.invalid)
		}
		r.Shuffle(len(gates), func(i, j int) { gates[i], gates[j] = gates[j], gates[i] })
		gates = gates[:r.Intn(len(gates)+1)]
		if p.outer1 == "cid" {
			p.outer1 = "nonce"
		}
		if kind == dht { // its answer has neither
			p.outer2 = ""
		}
	}
	for _, g := range gates {
		x := &part{gate: g}
		for i := r.Intn(7); i > 0; i-- {
			what := "good"
			if chance(3) {
				what = bads[r.Intn(len(bads))]
			}
			x.items = append(x.items, w.item(r, p.c, what))
		}
		if kind == dht || kind == dht2 {
			inner := []string{"unsigned", "stranger", "altered", "cid", "kind"}
			if chance(5) {
				x.fault1 = inner[r.Intn(len(inner))]
			}
			if chance(5) {
				x.fault2 = inner[r.Intn(len(inner))]
			}
			x.payReq = kind == dht2 && chance(8)
			x.hidden = kind == dht2 && chance(10)
		}
		x.excess = chance(5)
		p.parts = append(p.parts, x)
	}
	w.mu.Lock()
	w.plans[p.c.ToString()] = p
	w.mu.Unlock()
	return p
}

// handle answers for a gateway.
func (w *world) handle(g *clkit.Gate, m *svc.Msg) *clkit.Reply {
	switch m.GetMessageType() {
	case fcrmessages.ClientEstablishmentRequestType:
		_, challenge, _, err := fcrmessages.DecodeClientEstablishmentRequest(m)
		fakes.Must(err)
		return &clkit.Reply{Msg: g.Sign(fcrmessages.EncodeClientEstablishmentResponse(g.ID, challenge))}
	case fcrmessages.ClientStandardDiscoverRequestType:
		c, nonce, ttl, ch, v, err := fcrmessages.DecodeClientStandardDiscoverRequest(m)
		return w.first(g, std, c, nonce, ttl, ch, v, 0, err)
	case fcrmessages.ClientStandardDiscoverRequestV2Type:
		c, nonce, ttl, ch, v, err := fcrmessages.DecodeClientStandardDiscoverRequestV2(m)
		return w.first(g, std2, c, nonce, ttl, ch, v, 0, err)
	case fcrmessages.ClientDHTDiscoverRequestType:
		c, nonce, ttl, num, _, ch, v, err := fcrmessages.DecodeClientDHTDiscoverRequest(m)
		return w.first(g, dht, c, nonce, ttl, ch, v, num, err)
	case fcrmessages.ClientDHTDiscoverRequestV2Type:
		c, nonce, ttl, num, _, ch, v, err := fcrmessages.DecodeClientDHTDiscoverRequestV2(m)
		return w.first(g, dht2, c, nonce, ttl, ch, v, num, err)
	case fcrmessages.ClientStandardDiscoverOfferRequestType:
		c, nonce, _, digests, ch, v, err := fcrmessages.DecodeClientStandardDiscoverOfferRequest(m)
		return w.second(g, std2, c, nonce, ch, v, []nodeid.NodeID{*g.ID}, [][]string{digests}, err)
	case fcrmessages.ClientDHTDiscoverOfferRequestType:
		c, nonce, digests, ids, ch, v, err := fcrmessages.DecodeClientDHTDiscoverOfferRequest(m)
		return w.second(g, dht2, c, nonce, ch, v, ids, digests, err)
	}
	w.k.Violate("request:kind", svc.Text(m), "the client sent a gateway a message of kind %d", m.GetMessageType())
	return nil
}

func (w *world) find(g *clkit.Gate, kind string, c *cid.ContentID, err error) *plan {
	if err != nil {
		w.k.Violate("request:undecodable:"+kind, nil, "a request of the client cannot be decoded: %v", err)
		return nil
	}
	w.mu.Lock()
	p := w.plans[c.ToString()]
	w.mu.Unlock()
	if p == nil || p.kind != kind || p.entry != g {
		w.k.Violate("request:unasked:"+kind, nil, "a gateway got a question nobody asked it: %v", p)
		return nil
	}
	return p
}

// pay checks a payment that came with a request.
func (p *plan) pay(g *clkit.Gate, ch, voucher string, price *big.Int, times int64) {
	if times == 0 {
		return
	}
	k := p.w.k
	want := new(big.Int).Mul(price, big.NewInt(times))
	worth, why := g.Redeem(p.w.chain, p.w.me, ch, voucher)
	switch {
	case worth == nil:
		k.Violate("payment:void:"+p.kind, p.String(), "a gateway cannot redeem the voucher it was paid with: %s: %s", why, p)
	case worth.Cmp(want) < 0:
		k.Violate("payment:too-little:"+p.kind, p.String(), "a gateway was paid %s for what costs %s: %s", worth, want, p)
	case worth.Cmp(want) > 0:
		k.Violate("payment:too-much:"+p.kind, p.String(), "a gateway was paid %s for what costs %s: %s", worth, want, p)
	}
	k.Count("payments", 1)
}

func subs(items []*item) []cidoffer.SubCIDOffer {
	l := []cidoffer.SubCIDOffer{}
	for _, i := range items {
		l = append(l, i.sub)
	}
	return l
}

func digests(items []*item) []string {
	l := []string{}
	for _, i := range items {
		l = append(l, i.digest)
	}
	return l
}

func bools(n int) []bool { return make([]bool, n) }

// first answers the first request of a search.
func (w *world) first(g *clkit.Gate, kind string, c *cid.ContentID, nonce, ttl int64, ch, v string, num int64, err error) *clkit.Reply {
	p := w.find(g, kind, c, err)
	if p == nil {
		return nil
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	r := rand.New(rand.NewSource(p.seed + int64(p.first)))
	p.first++
	p.note("first request, nonce %d", nonce)
	if ttl < time.Now().Unix()+500 {
		w.k.Violate("request:ttl:"+kind, p.String(), "a request expires in %d s, it was to last 1000", ttl-time.Now().Unix())
	}
	if (kind == dht || kind == dht2) && num != p.num {
		w.k.Violate("request:num:"+kind, p.String(), "%d gateways were to be asked, the request says %d", p.num, num)
	}
	if p.breaks == 2 {
		w.chain.FailAfter("MpoolPush", p.spare, errors.New("out of order"))
	}
	demanded := false
	if kind == std2 || kind == dht2 {
		n := int64(1)
		if kind == dht2 {
			n = p.num
		}
		p.pay(g, ch, v, w.search, n)
		if demanded = p.demand > 0; demanded {
			p.demand--
			p.note("payment demanded")
		}
	} else if ch != "" || v != "" {
		w.k.Violate("payment:free:"+kind, p.String(), "a search that is free carries a payment: %s", p)
	}
	other := func(shift bool) *cid.ContentID {
		if shift {
			return fakes.NewCID(r)
		}
		return c
	}
	if demanded {
		var m *svc.Msg
		if kind == std2 {
			m, err = fcrmessages.EncodeClientStandardDiscoverResponseV2(c, nonce, false, []string{}, []bool{}, true, ch)
		} else {
			m, err = fcrmessages.EncodeClientDHTDiscoverResponseV2([]nodeid.NodeID{}, []svc.Msg{}, []nodeid.NodeID{}, nonce, true, ch)
		}
		return &clkit.Reply{Msg: g.Sign(m, err)}
	}
	stranger := w.gates[0].Party
	old := w.old[g.Party]
	if g == w.gates[0] {
		stranger = w.gates[1].Party
	}
	if old != nil && r.Intn(2) == 0 {
		stranger = old
	}
	return p.mutated(r, g.Party, clkit.Spoil(r, p.outer1, g.Party, stranger, func(cs bool, ns int64) (*svc.Msg, error) {
		switch kind {
		case std:
			l := subs(p.parts[0].items)
			return fcrmessages.EncodeClientStandardDiscoverResponse(other(cs), clkit.Shift(nonce, ns), len(l) > 0, l, bools(len(l)))
		case std2:
			l := digests(p.parts[0].items)
			return fcrmessages.EncodeClientStandardDiscoverResponseV2(other(cs), clkit.Shift(nonce, ns), len(l) > 0, l, bools(len(l)), false, "")
		}
		ids, msgs := []nodeid.NodeID{}, []svc.Msg{}
		for _, x := range p.parts {
			stranger := g.Party
			if g == x.gate {
				stranger = w.rogue
			}
			if o := w.old[x.gate.Party]; o != nil && r.Intn(2) == 0 {
				stranger = o
			}
			in := clkit.Spoil(r, x.fault1, x.gate.Party, stranger, func(cs bool, ns int64) (*svc.Msg, error) {
				if kind == dht {
					l := subs(x.items)
					return fcrmessages.EncodeGatewayDHTDiscoverResponse(other(cs), 1+ns, len(l) > 0, l, bools(len(l)))
				}
				l := digests(x.items)
				return fcrmessages.EncodeGatewayDHTDiscoverResponseV2(other(cs), 1+ns, len(l) > 0 && !x.hidden, l, bools(len(l)), x.payReq, "")
			})
			ids, msgs = append(ids, *x.gate.ID), append(msgs, *p.mutated(r, x.gate.Party, in).Msg)
		}
		silent := []nodeid.NodeID{}
		for i := r.Intn(3); i > 0; i-- {
			silent = append(silent, *fakes.NewNode(r))
		}
		if kind == dht {
			return fcrmessages.EncodeClientDHTDiscoverResponse(ids, msgs, silent, clkit.Shift(nonce, ns), false, "")
		}
		return fcrmessages.EncodeClientDHTDiscoverResponseV2(ids, msgs, silent, clkit.Shift(nonce, ns), false, "")
	}))
}

// offered counts what a search was rightly told about.
func (p *plan) offered() (n int) {
	for _, x := range p.parts {
		if x.sound(p.w) && !x.payReq && !x.hidden {
			n += len(x.items)
		}
	}
	return
}

// given are the items a part gives for some digests.
func (x *part) given(ds []string) (l []*item) {
	if x.excess {
		return x.items
	}
	for _, i := range x.items {
		for _, d := range ds {
			if d == i.digest {
				l = append(l, i)
				break
			}
		}
	}
	return
}

var delivered = map[*part][]*item{}
var deliveredMu sync.Mutex

// second answers the request for offers.
func (w *world) second(g *clkit.Gate, kind string, c *cid.ContentID, nonce int64, ch, v string, ids []nodeid.NodeID, lists [][]string, err error) *clkit.Reply {
	p := w.find(g, kind, c, err)
	if p == nil {
		return nil
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	r := rand.New(rand.NewSource(p.seed + 100))
	p.second++
	p.note("second request, nonce %d", nonce)
	n := 0
	for _, l := range lists {
		n += len(l)
	}
	p.pay(g, ch, v, w.offer, int64(n))
	want := p.offered()
	if want > p.max {
		want = p.max
	}
	if n != want && !p.mutate {
		w.k.Violate("digests:number:"+kind, p.String(), "of %d offers there are, and up to %d wanted, %d were asked for: %s", p.offered(), p.max, n, p)
	}
	p.asked += n
	if len(ids) != len(lists) {
		w.k.Violate("digests:lists:"+kind, p.String(), "%d gateways are to be asked for %d lists of digests: %s", len(ids), len(lists), p)
		return nil
	}
	rids, msgs := []nodeid.NodeID{}, []svc.Msg{}
	other := func(shift bool) *cid.ContentID {
		if shift {
			return fakes.NewCID(r)
		}
		return c
	}
	var one []*item
	for i := range ids {
		var x *part
		for _, y := range p.parts {
			if y.gate.ID.ToString() == ids[i].ToString() {
				x = y
			}
		}
		if x == nil && p.mutate {
			continue
		}
		if !p.mutate && (x == nil || !x.sound(w) || x.payReq || x.hidden) {
			w.k.Violate("digests:of-whom:"+kind, p.String(), "offers are asked of a gateway that did not rightly say it has any: %s", p)
			continue
		}
		seen := map[string]bool{}
		has := map[string]bool{}
		for _, it := range x.items {
			has[it.digest] = true
		}
		for _, d := range lists[i] {
			if !p.mutate && (!has[d] || seen[d]) {
				w.k.Violate("digests:which:"+kind, p.String(), "a gateway is asked for an offer it did not say it has, or twice for the same: %s", p)
			}
			seen[d] = true
		}
		give := x.given(lists[i])
		one = give
		deliveredMu.Lock()
		delivered[x] = give
		deliveredMu.Unlock()
		stranger := g.Party
		if g == x.gate {
			stranger = w.rogue
		}
		if kind == dht2 {
			in := clkit.Spoil(r, x.fault2, x.gate.Party, stranger, func(cs bool, ns int64) (*svc.Msg, error) {
				l := subs(give)
				return fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(other(cs), 1+ns, len(l) > 0, l, bools(len(l)), false, "")
			})
			rids, msgs = append(rids, ids[i]), append(msgs, *p.mutated(r, x.gate.Party, in).Msg)
		}
	}
	stranger := w.gates[0].Party
	old := w.old[g.Party]
	if g == w.gates[0] {
		stranger = w.gates[1].Party
	}
	if old != nil && r.Intn(2) == 0 {
		stranger = old
	}
	return p.mutated(r, g.Party, clkit.Spoil(r, p.outer2, g.Party, stranger, func(cs bool, ns int64) (*svc.Msg, error) {
		if kind == std2 {
			l := subs(one)
			return fcrmessages.EncodeClientStandardDiscoverOfferResponse(other(cs), clkit.Shift(nonce, ns), len(l) > 0, l, bools(len(l)), false, "")
		}
		return fcrmessages.EncodeClientDHTDiscoverOfferResponse(other(cs), clkit.Shift(nonce, ns), rids, msgs, false, "")
	}))
}

func essence(s *cidoffer.SubCIDOffer) string {
	return fmt.Sprint(s.GetProviderID().ToString(), s.GetSubCID().ToString(), s.GetPrice(), s.GetExpiry(), s.GetQoS(), s.GetSignature())
}

// run searches and checks what comes of it.
func (w *world) run(p *plan) {
	k := w.k
	plain := p.String()
	demand := p.demand
	var got map[string]*[]cidoffer.SubCIDOffer
	var err error
	if p.breaks == 1 {
		w.chain.FailAfter("MpoolPush", p.spare, errors.New("out of order"))
	}
	if p.breaks > 0 {
		defer w.chain.Fail("MpoolPush", nil)
	}
	if !k.NoPanic("panic:"+p.kind, plain, func() {
		var l []cidoffer.SubCIDOffer
		switch p.kind {
		case std:
			l, err = w.cl.FindOffersStandardDiscovery(p.c, p.entry.ID)
		case std2:
			l, err = w.cl.FindOffersStandardDiscoveryV2(p.c, p.entry.ID, p.max)
		case dht:
			got, err = w.cl.FindOffersDHTDiscovery(p.c, p.entry.ID, p.num)
		case dht2:
			got, err = w.cl.FindOffersDHTDiscoveryV2(p.c, p.entry.ID, p.num, p.max)
		}
		if l != nil {
			got = map[string]*[]cidoffer.SubCIDOffer{p.entry.ID.ToString(): &l}
		}
	}) {
		return
	}
	w.mu.Lock()
	delete(w.plans, p.c.ToString())
	w.mu.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	rep := p.String()
	k.Eval(plain)
	bad := func(key, f string, a ...interface{}) {
		k.Violate(key+":"+p.kind, rep, "%s: %s", fmt.Sprintf(f, a...), rep)
	}
	paid := p.kind == std2 || p.kind == dht2
	if p.mutate {
		good := map[string]bool{}
		for _, x := range p.parts {
			for _, it := range x.items {
				if it.good {
					good[essence(&it.sub)] = true
				}
			}
		}
		n := 0
		for _, l := range got {
			for i := range *l {
				n++
				if !good[essence(&(*l)[i])] {
					bad("hostile:not-genuine", "an offer is returned that is not genuine: %s", fakes.Canon((*l)[i]))
				}
			}
		}
		if n > p.max && n > 0 && paid {
			bad("hostile:number", "%d offers are returned", n)
		}
		k.Count("hostile "+p.kind, 1)
		k.Count("offers of hostile answers", n)
		return
	}
	// how far it was to come
	failed := p.outer1 != "" || demand > 1
	wantFirst := 1
	if demand > 0 {
		wantFirst = 2
	}
	wantSecond := 0
	if paid && !failed && p.offered() > 0 {
		wantSecond = 1
		failed = p.outer2 != ""
	}
	if paid && p.max <= 0 {
		wantFirst, wantSecond, failed = 0, 0, false
	}
	if p.breaks > 0 && (p.breaks == 1 && p.first == 0 && wantFirst > 0 || wantSecond > 0 && p.first == wantFirst && p.second == 0) {
		n := 0
		for _, l := range got {
			n += len(*l)
		}
		if err == nil || n > 0 {
			bad("unpayable", "a search that cannot be paid gives %d offers and the error %v", n, err)
		}
		k.Count(fmt.Sprintf("payment %d prevented", p.breaks), 1)
		return
	}
	if p.first != wantFirst || p.second != wantSecond {
		bad("requests", "there were %d requests and %d for offers, not %d and %d (%v)", p.first, p.second, wantFirst, wantSecond, err)
	}
	total := 0
	for _, l := range got {
		if l != nil {
			total += len(*l)
		}
	}
	if failed {
		k.Count("failed "+p.kind, 1)
		if p.outer1 != "" {
			k.Count("first answer "+p.outer1, 1)
		} else if p.outer2 != "" {
			k.Count("second answer "+p.outer2, 1)
		}
		if err == nil {
			bad("error-hidden", "a search that failed gives no error")
		}
		if total > 0 {
			bad("offers-of-failure", "a search that failed gives %d offers", total)
		}
		return
	}
	if err != nil {
		bad("refused", "a search that was answered gives the error %v", err)
		return
	}
	k.Count("answered "+p.kind, 1)
	good, most := 0, 0
	left := map[string]bool{}
	for id := range got {
		left[id] = true
	}
	for _, x := range p.parts {
		gives := x.items
		ok := x.sound(w)
		if paid {
			deliveredMu.Lock()
			gives = delivered[x]
			delete(delivered, x)
			deliveredMu.Unlock()
			ok = ok && x.fault2 == ""
		}
		may := map[string]bool{}
		why := map[string]string{}
		for _, it := range gives {
			c := fakes.Canon(it.sub)
			why[c] = it.what
			if ok && it.good {
				may[c] = true
			}
		}
		most += len(may)
		id := x.gate.ID.ToString()
		delete(left, id)
		if l := got[id]; l != nil {
			for _, s := range *l {
				c := fakes.Canon(s)
				if !may[c] {
					bad("not-genuine:"+why[c], "an offer (%q) is returned that is not genuine, from an answer with fault %q %q", why[c], x.fault1, x.fault2)
				}
				delete(may, c)
				good++
			}
		}
		for _, it := range gives {
			k.Count("offers "+it.what, 1)
		}
		if !ok {
			k.Count("parts faulty", 1)
		}
	}
	for id := range left {
		if l := got[id]; l != nil && len(*l) > 0 {
			bad("attributed", "offers are credited to %s, which gave none", id)
		}
	}
	if paid && most > p.max {
		most = p.max
		if p.max <= 0 {
			most = 0
		}
	}
	if good != most {
		bad("number", "%d genuine offers are returned, not %d", good, most)
	}
	k.Count("offers returned", good)
}

// unpaid: with the chain out of order nothing is asked, and it works again afterwards.
func (w *world) unpaid(r *rand.Rand) {
	k := w.k
	g := clkit.NewGate(r, w.chain)
	g.Answer(func(m *svc.Msg) *clkit.Reply { return w.handle(g, m) })
	w.reg.SetGateway(g.Entry)
	w.mgr.Refresh()
	w.gates = append(w.gates, g)
	w.activate(g)
	kind := []string{std2, dht2}[r.Intn(2)]
	w.chain.Fail("MpoolPush", errors.New("out of order"))
	p := w.newPlan(r, kind, g, true)
	var n int
	var err error
	k.NoPanic("panic:"+kind, p.String(), func() {
		if kind == std2 {
			var l []cidoffer.SubCIDOffer
			l, err = w.cl.FindOffersStandardDiscoveryV2(p.c, g.ID, p.max)
			n = len(l)
		} else {
			var l map[string]*[]cidoffer.SubCIDOffer
			l, err = w.cl.FindOffersDHTDiscoveryV2(p.c, g.ID, p.num, p.max)
			n = len(l)
		}
	})
	if err == nil || n > 0 || p.first+p.second > 0 {
		k.Violate("unpayable:"+kind, p.String(), "without a payment channel there were %d requests, %d offers and the error %v", p.first+p.second, n, err)
	}
	w.chain.Fail("MpoolPush", nil)
	k.Count("chain out of order", 1)
	w.run(w.newPlan(r, kind, g, true))
}

// drained: a channel runs dry while its top ups fail.
func (w *world) drained(r *rand.Rand, n int) {
	kind := []string{std2, dht2}[r.Intn(2)]
	for i := 0; i < n && w.k.Violations() < 20; i++ {
		p := w.newPlan(r, kind, w.gates[0], true)
		if r.Intn(4) > 0 {
			p.breaks = 2
		}
		w.run(p)
	}
}

func history(w *world, seq, steps int) {
	k := w.k
	r := k.Sub("history", seq)
	w.start(r, 2+r.Intn(5))
	defer w.close()
	if w.small {
		w.drained(r, 40)
	}
	for i := 0; i < steps && k.Violations() < 20; i++ {
		if r.Intn(40) == 0 && len(w.gates) < 9 {
			w.unpaid(r)
		}
		if r.Intn(30) == 0 {
			w.rekey(r)
		}
		if r.Intn(60) == 0 { // one that is not active
			id := w.unknown.ID
			_, e1 := w.cl.FindOffersStandardDiscovery(fakes.NewCID(r), id)
			_, e2 := w.cl.FindOffersStandardDiscoveryV2(fakes.NewCID(r), id, 3)
			_, e3 := w.cl.FindOffersDHTDiscovery(fakes.NewCID(r), id, 3)
			_, e4 := w.cl.FindOffersDHTDiscoveryV2(fakes.NewCID(r), id, 3, 3)
			if e1 == nil || e2 == nil || e3 == nil || e4 == nil {
				k.Violate("inactive", nil, "a gateway that is not active was searched without an error: %v %v %v %v", e1, e2, e3, e4)
			}
		}
		p := w.newPlan(r, kinds[r.Intn(len(kinds))], w.gates[r.Intn(len(w.gates))], r.Intn(5) == 0)
		if p.demand == 0 && (p.kind == std2 || p.kind == dht2) && r.Intn(3) == 0 {
			p.breaks, p.spare = 1+(2+r.Intn(4))/3, r.Intn(3)/2
		} else if r.Intn(3) == 0 {
			p.mutate, p.outer1, p.outer2, p.demand = true, "", "", 0
			for _, x := range p.parts {
				x.fault1, x.fault2, x.payReq, x.hidden = "", "", false, false
			}
		}
		w.run(p)
	}
	if b := w.chain.Wrong(); len(b) > 0 {
		k.Violate("chain", b, "the chain was sent what it cannot accept: %s", b[0])
	}
}

// concurrent: many searches at once; the vouchers arrive in an order in which each can be redeemed.
func concurrent(w *world, seq, rounds int) {
	k := w.k
	r := k.Sub("concurrent", seq)
	w.start(r, 3)
	defer w.close()
	var order kit.Interleavings
	w.chain.Slow(time.Duration(r.Intn(3)) * time.Millisecond)
	for round := 0; round < rounds && k.Violations() < 20; round++ {
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for i := 0; i < 8; i++ {
			r := k.Sub("searcher", (seq*1000+round)*10+i)
			var ps []*plan
			for j := 0; j < 4; j++ {
				ps = append(ps, w.newPlan(r, []string{std2, dht2, std2, dht2, std, dht}[r.Intn(6)], w.gates[r.Intn(2)], r.Intn(3) > 0))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for _, p := range ps {
					w.run(p)
					order.Add(p.kind)
				}
			}()
		}
		wg.Add(1)
		go func() { // meanwhile another gateway comes and goes
			defer wg.Done()
			<-gate
			id := []*nodeid.NodeID{w.gates[2].ID}
			for j := 0; j < 5; j++ {
				w.cl.RemoveActiveGateways(id)
				w.cl.AddActiveGateways(id)
			}
		}()
		close(gate)
		wg.Wait()
		k.Count("rounds", 1)
		k.Eval(order.Key())
	}
}

func worlds(k *kit.K, n int) (l []*world) {
	for i := 0; i < n; i++ {
		l = append(l, newWorld(k, k.Sub("world", i), i%2 == 1))
	}
	return
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C21", func(k *kit.K) {
		if k.Args["mode"] == "concurrent" {
			k.Floor("rounds", 8)
			k.Floor("payments", 100)
			for i, w := range worlds(k, k.N(3, 20)) {
				concurrent(w, i, k.N(4, 20))
			}
			return
		}
		for _, kind := range kinds {
			k.Floor("answered "+kind, 50)
			k.Floor("failed "+kind, 20)
			k.Floor("hostile "+kind, 30)
		}
		for _, b := range bads {
			k.Floor("offers "+b, 10)
		}
		for _, f := range clkit.Faults {
			k.Floor("first answer "+f, 1)
		}
		k.Floor("parts faulty", 50)
		k.Floor("offers of hostile answers", 100)
		k.Floor("offers returned", 500)
		k.Floor("chain out of order", 3)
		k.Floor("offers under a key that was good once", 20)
		k.Floor("providers with another key", 10)
		k.Floor("gateways with another key", 10)
		k.Floor("payments", 200)
		k.Floor("payment 2 prevented", 3)
		for i, w := range worlds(k, k.N(8, 60)) {
			history(w, i, k.N(250, 400))
		}
	})
}
