//go:build go1.22

// C28: the real gateway program catching up: told to, it asks every provider for the offers of its range, takes the genuine
// ones, and acknowledges exactly what it then has.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
)

var ring = new(big.Int).Lsh(big.NewInt(1), 256)

func num(h string) *big.Int {
	n, ok := new(big.Int).SetString(h, 16)
	if !ok {
		panic("harness: " + h)
	}
	return n
}

// cw is the way from a to b clockwise.
func cw(a, b string) *big.Int { return new(big.Int).Mod(new(big.Int).Sub(num(b), num(a)), ring) }

func circ(a, b string) *big.Int {
	x := cw(a, b)
	if y := new(big.Int).Sub(ring, x); y.Cmp(x) < 0 {
		return y
	}
	return x
}

// part is one publication inside a list.
type part struct {
	what   string
	m      *svc.Msg
	nonce  int64
	offers []*cidoffer.CIDOffer
	deals  []*svc.Deal
	good   bool
	either bool // may be acknowledged or not
}

// how a provider treats one request
var outers = []string{"unsigned", "signed by another", "another kind", "hang up", "garbage", "alien"}

type prov struct {
	*svc.Peer
	party *svc.Party
	old   *svc.Party // before it changed its key
	w     *world

	mu    sync.Mutex
	outer string
	parts []*part
	asked int
	bad   string // what the gateway did wrong
	done  bool   // the exchange is over
}

type world struct {
	k     *kit.K
	reg   *fakes.Register
	gw    *svc.Node
	mk    *svc.Market
	provs []*prov
	gates map[string]bool
	cids  []*cid.ContentID
	never map[string]string // digests of offers that must not be known
	log   []string
}

func (w *world) note(format string, a ...interface{}) {
	w.log = append(w.log, fmt.Sprintf(format, a...))
	if len(w.log) > 80 {
		w.log = w.log[1:]
	}
}

func (w *world) rep() interface{} { return append([]string{}, w.log...) }

func newWorld(k *kit.K, r *rand.Rand, nprov, ngate, ncids int) *world {
	w := &world{k: k, reg: fakes.NewRegister(), mk: svc.NewMarket(), gates: map[string]bool{}, never: map[string]string{}}
	for i := 0; i < ncids; i++ {
		w.cids = append(w.cids, fakes.NewCID(r))
	}
	w.gw = svc.Start(k, "gateway", r, w.reg.URL, nil)
	for i := 0; i < nprov; i++ {
		w.addProvider(r)
	}
	for i := 0; i < ngate; i++ {
		w.addGate(r)
	}
	if r.Intn(2) == 0 {
		w.reg.SetGateway(fakes.GatewayEntry(w.gw.ID.ToString(), w.gw.Key, w.gw.GW, w.gw.Prov, w.gw.REST, w.gw.Admin))
	}
	w.reg.Junk(r, r.Intn(3)*r.Intn(5))
	w.gw.MustInit(nil)
	w.gw.Refresh()
	return w
}

func (w *world) close() {
	w.gw.Stop()
	for _, p := range w.provs {
		p.Close()
	}
	w.reg.Close()
}

func (w *world) addGate(r *rand.Rand) {
	p := svc.NewParty(r)
	w.gates[p.ID.ToString()] = true
	w.reg.SetGateway(fakes.GatewayEntry(p.ID.ToString(), p.Key, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1"))
}

func (w *world) addProvider(r *rand.Rand) {
	p := &prov{w: w}
	p.Peer = svc.NewPeer(r, p.answer)
	p.party = &svc.Party{ID: p.ID, Key: p.Key, Pub: p.Pub, Ver: p.Ver}
	w.provs = append(w.provs, p)
	w.reg.SetProvider(fakes.ProviderEntry(p.ID.ToString(), p.Key, p.Addr, p.Addr, p.Addr))
}

// rekey: a provider registers again, with another key.
func (w *world) rekey(r *rand.Rand) {
	p := w.provs[r.Intn(len(w.provs))]
	p.mu.Lock()
	defer p.mu.Unlock()
	p.old = p.party.Rekey(r)
	p.Key, p.Pub = p.party.Key, p.party.Pub
	w.reg.SetProvider(fakes.ProviderEntry(p.ID.ToString(), p.Key, p.Addr, p.Addr, p.Addr))
	w.note("provider %s registers another key", p.ID.ToString())
	w.k.Count("providers with another key", 1)
}

// checkRange compares the range asked for with the gateways around this one.
func (w *world) checkRange(lo, hi string) string {
	me := w.gw.ID.ToString()
	var others []string
	for g := range w.gates {
		others = append(others, g)
	}
	sort.Slice(others, func(i, j int) bool { return circ(me, others[i]).Cmp(circ(me, others[j])) < 0 })
	near := map[string]bool{}
	for i, g := range others {
		if i < 16 {
			near[g] = true
		}
	}
	if !near[lo] || !near[hi] {
		return fmt.Sprintf("the range asked for, %s to %s, does not begin and end with one of the %d nearest gateways", lo, hi, len(near))
	}
	span := cw(lo, hi)
	for _, g := range others {
		if in := cw(lo, g).Cmp(span) <= 0; in != near[g] {
			return fmt.Sprintf("gateway %s is in the range asked for: %v, is one of the %d nearest: %v", g, in, len(near), near[g])
		}
	}
	return ""
}

// answer is one exchange, as the provider sees it.
func (p *prov) answer(c *svc.Conn, m *svc.Msg) *svc.Msg {
	p.mu.Lock()
	defer p.mu.Unlock()
	w := p.w
	if m.GetMessageType() != fcrmessages.GatewayListDHTOfferRequestType {
		p.bad = "it was sent " + svc.Text(m)
		return nil
	}
	p.asked++
	id, lo, hi, _, _, _, _, err := fcrmessages.DecodeGatewayListDHTOfferRequest(m)
	switch {
	case err != nil:
		p.bad = "the request cannot be read: " + err.Error()
	case m.Verify(w.gw.Pub) != nil:
		p.bad = "the request is not signed by the gateway"
	case id.ToString() != w.gw.ID.ToString():
		p.bad = "the request is in the name of " + id.ToString()
	default:
		p.bad = w.checkRange(lo.ToString(), hi.ToString())
	}
	if p.bad != "" {
		return nil
	}
	var l []fcrmessages.FCRMessage
	for _, x := range p.parts {
		l = append(l, *x.m)
	}
	list, err := fcrmessages.EncodeGatewayListDHTOfferResponse(l)
	fakes.Must(err)
	if p.outer != "unsigned" {
		fakes.Must(list.Sign(p.Key, p.Ver))
	}
	defer func() { p.done = true }()
	switch p.outer {
	case "signed by another":
		fakes.Must(list.Sign(w.gw.Key, w.gw.Ver))
	case "another kind":
		list = p.party.Sign(fcrmessages.EncodeGatewayListDHTOfferAck(l))
	case "under the old key":
		fakes.Must(list.Sign(p.old.Key, p.old.Ver))
	case "hang up":
		return nil
	case "garbage":
		c.C.Write([]byte{0, 0, 0, 5, 1, 2, 3, 4, 5})
		list = nil
	case "alien":
		other := w.provs[0]
		if other == p {
			other = w.provs[len(w.provs)-1]
		}
		if other != p {
			fakes.Must(list.Sign(other.Key, other.Ver))
		} else {
			list = svc.Resigned(list, "")
		}
	}
	for _, x := range p.parts {
		for _, d := range x.offers {
			if x.good || x.either {
				x.deals = append(x.deals, w.mk.Sent(p.party, d))
			}
		}
	}
	if list != nil {
		if err := c.Send(list); err != nil {
			p.bad = "the gateway closed the connection after its request"
			return nil
		}
	}
	ack, err := c.Recv(40 * time.Second)
	if p.outer != "" {
		if err == nil {
			p.bad = "a list that is no list (" + p.outer + ") was answered " + svc.Text(ack)
		}
		w.k.Count("lists refused", 1)
		w.k.Count("lists "+p.outer, 1)
		return nil
	}
	if err != nil {
		p.bad = "the list was not acknowledged: " + err.Error()
		return nil
	}
	if err := ack.Verify(w.gw.Pub); err != nil {
		p.bad = "the acknowledgement of the list is not signed by the gateway"
		return nil
	}
	acks, err := fcrmessages.DecodeGatewayListDHTOfferAck(ack)
	if err != nil {
		p.bad = "the acknowledgement of the list cannot be read: " + svc.Text(ack)
		return nil
	}
	i := 0
	for _, x := range p.parts {
		if !x.good && !x.either {
			continue
		}
		if i < len(acks) {
			nonce, _, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(&acks[i])
			if err == nil && nonce == x.nonce && w.gw.CheckDHTAck(&acks[i], x.m, x.nonce) {
				for _, d := range x.deals {
					w.mk.Acked(d)
				}
				i++
				w.k.Count("publications acknowledged", 1)
				w.k.Count("offers acknowledged", len(x.deals))
				continue
			}
		}
		if x.good {
			p.bad = fmt.Sprintf("a genuine publication (nonce %d, %d offers) was not acknowledged in its place; there are %d acknowledgements", x.nonce, len(x.offers), len(acks))
			return nil
		}
	}
	if i != len(acks) {
		nonce, _, _ := fcrmessages.DecodeProviderPublishDHTOfferResponse(&acks[i])
		what := "something else"
		for _, x := range p.parts {
			if x.nonce == nonce {
				what = x.what
			}
		}
		p.bad = fmt.Sprintf("an acknowledgement too many, of nonce %d: %s", nonce, what)
		return nil
	}
	w.k.Count("lists acknowledged", 1)
	return svc.Quiet
}

func (w *world) offers(r *rand.Rand, by *svc.Party, n int) []*cidoffer.CIDOffer {
	var l []*cidoffer.CIDOffer
	for i := 0; i < n; i++ {
		expiry := time.Now().Add(time.Hour).Unix()
		l = append(l, by.OfferWith([]*cid.ContentID{w.cids[r.Intn(len(w.cids))]}, r.Uint64(), expiry, r.Uint64()))
	}
	return l
}

// known is an offer of the provider the gateway has been given.
func (w *world) known(r *rand.Rand, p *prov) *cidoffer.CIDOffer {
	deals := w.mk.Deals()
	for _, i := range r.Perm(len(deals)) {
		if d := deals[i]; d.By == p.party && d.Pub == p.party.Pub {
			return d.Offer
		}
	}
	return nil
}

// makePart draws a publication, good or not.
func (w *world) makePart(r *rand.Rand, p *prov) *part {
	x := &part{what: "good", good: true}
	w.k.Count("publications listed", 1)
	x.nonce = r.Int63()
	switch r.Intn(6) {
	case 0:
		x.nonce = -x.nonce
	case 1:
		x.nonce = int64(r.Intn(3))
	}
	x.offers = w.offers(r, p.party, r.Intn(6))
	if r.Intn(12) == 0 {
		x.offers = w.offers(r, p.party, 50+r.Intn(2)*70)
	}
	by := p.party
	other := svc.NewParty(r)
	if r.Intn(2) == 0 && len(w.provs) > 1 {
		for other.ID.ToString() == p.ID.ToString() || other.Pub == nil {
			break
		}
		if q := w.provs[r.Intn(len(w.provs))]; q != p {
			other = q.party
		}
	}
	var earlier *cidoffer.CIDOffer
	if r.Intn(2) == 0 {
		kinds := []string{"unsigned", "signed by another", "another's offer", "another's offer in its own name", "forged", "forged among good", "offer unsigned", "expired", "a group publication", "garbage", "in the name of another", "signature of a neighbour"}
		known := w.known(r, p)
		if p.old != nil {
			kinds = append(kinds, "old key", "old key", "offer under the old key", "publication under the old key")
		}
		if known != nil {
			kinds = append(kinds, "known offer signed by another", "known offer unsigned", "signature of a known offer")
		}
		x.what = kinds[r.Intn(len(kinds))]
		x.good = false
		if len(x.offers) == 0 && x.what != "garbage" {
			x.offers = w.offers(r, p.party, 1)
		}
		if x.what == "signature of a neighbour" {
			x.offers = append(x.offers, w.offers(r, p.party, 1)...)
		}
		if known != nil {
			o := *known
			earlier = &o
		}
	}
	j := 0
	if len(x.offers) > 0 {
		j = r.Intn(len(x.offers))
	}
	spoil := func(o *cidoffer.CIDOffer) {
		x.offers[j] = o
		w.never[cidoffer.EncodeMessageDigest(o.GetMessageDigest())] = x.what
	}
	var kept []*cidoffer.CIDOffer // what may be known of a bad publication
	switch x.what {
	case "old key", "offer under the old key":
		spoil(w.offers(r, p.old, 1)[0])
	case "in the name of another":
		y := *other
		y.Key, y.Pub = p.party.Key, p.party.Pub
		spoil(w.offers(r, &y, 1)[0])
	case "signature of a neighbour":
		at := (j + 1) % len(x.offers)
		if j > 0 && r.Intn(3) > 0 {
			at = j - 1
		}
		x.offers[j].SetSignature(x.offers[at].GetSignature())
		spoil(x.offers[j])
	case "signature of a known offer":
		x.offers[j].SetSignature(earlier.GetSignature())
		spoil(x.offers[j])
	case "known offer signed by another":
		fakes.Must(earlier.Sign(other.Key, other.Ver))
		x.offers[j] = earlier
	case "known offer unsigned":
		earlier.SetSignature("")
		x.offers[j] = earlier
	case "another's offer":
		spoil(w.offers(r, other, 1)[0])
	case "another's offer in its own name":
		o := w.offers(r, other, 1)[0]
		spoil(svc.Forge(o, func(id *nodeid.NodeID, cids []cid.ContentID, price uint64, expiry int64, qos uint64) (*nodeid.NodeID, []cid.ContentID, uint64, int64, uint64) {
			return p.ID, cids, price, expiry, qos
		}))
	case "forged", "forged among good":
		if x.what == "forged among good" {
			x.offers = append(x.offers, w.offers(r, p.party, 3)...)
			j = r.Intn(len(x.offers))
		} else {
			x.offers, j = x.offers[:1], 0
		}
		f := r.Intn(4)
		c := w.cids[r.Intn(len(w.cids))]
		spoil(svc.Forge(x.offers[j], func(id *nodeid.NodeID, cids []cid.ContentID, price uint64, expiry int64, qos uint64) (*nodeid.NodeID, []cid.ContentID, uint64, int64, uint64) {
			switch f {
			case 0:
				price++
			case 1:
				expiry++
			case 2:
				qos++
			case 3:
				if cids[0].ToString() == c.ToString() {
					price--
				}
				cids = []cid.ContentID{*c}
			}
			return id, cids, price, expiry, qos
		}))
	case "offer unsigned":
		o := x.offers[j]
		o, err := cidoffer.NewCIDOffer(p.ID, o.GetCIDs(), o.GetPrice(), o.GetExpiry(), o.GetQoS())
		fakes.Must(err)
		spoil(o)
	case "expired":
		x.either = true
		o := x.offers[j]
		x.offers[j] = p.party.OfferWith([]*cid.ContentID{&o.GetCIDs()[0]}, o.GetPrice(), time.Now().Unix()-int64(1+r.Intn(100)), o.GetQoS())
	}
	for _, o := range x.offers {
		if w.never[cidoffer.EncodeMessageDigest(o.GetMessageDigest())] == "" {
			kept = append(kept, o)
		}
	}
	var l []cidoffer.CIDOffer
	for _, o := range x.offers {
		l = append(l, *o)
	}
	m, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(p.ID, x.nonce, l)
	fakes.Must(err)
	switch x.what {
	case "unsigned":
	case "signed by another":
		fakes.Must(m.Sign(other.Key, other.Ver))
	case "old key", "publication under the old key":
		fakes.Must(m.Sign(p.old.Key, p.old.Ver))
	case "a group publication":
		m = by.Sign(fcrmessages.EncodeProviderPublishGroupOfferRequest(p.ID, x.nonce, &l[0]))
	case "garbage":
		m = by.Sign(fakes.RandMessage(r, other.Key, 0), nil)
		if m.GetMessageType() == fcrmessages.ProviderPublishDHTOfferRequestType || m.GetMessageType() == fcrmessages.ProviderPublishGroupOfferRequestType {
			m = by.Sign(fcrmessages.EncodeGatewayPingRequest(p.ID, 1, time.Now().Unix()))
		}
	default:
		fakes.Must(m.Sign(p.Key, p.Ver))
	}
	x.m = m
	if !x.good && !x.either { // genuine offers may be taken from a publication that is not acknowledged
		for _, o := range kept {
			w.mk.Sent(p.party, o)
		}
		x.offers = nil
		w.k.Count("bad publications listed", 1)
		w.k.Count("publications "+x.what, 1)
	}
	return x
}

func (w *world) askAdmin(refresh bool) bool {
	m, err := fcrmessages.EncodeGatewayAdminListDHTOfferRequest(refresh)
	fakes.Must(err)
	fakes.Must(m.Sign(w.gw.Key, w.gw.Ver))
	a := w.gw.Post(w.gw.Admin, m)
	if a.Msg == nil || a.Msg.Verify(w.gw.Pub) != nil {
		if w.gw.Alive() {
			w.k.Violate("admin:refused", w.rep(), "told to catch up, the gateway answered %d %.300s %v", a.Status, a.Body, a.Err)
		}
		return false
	}
	got, err := fcrmessages.DecodeGatewayAdminListDHTOfferResponse(a.Msg)
	if err != nil || got != refresh {
		w.k.Violate("admin:wrong", w.rep(), "told to catch up: %v, the gateway answered %v %v", refresh, got, err)
		return false
	}
	return true
}

// catchUp is one round: every provider is asked once.
func (w *world) catchUp(r *rand.Rand, plain bool) {
	w.reg.Junk(r, r.Intn(2)*r.Intn(3))
	w.gw.Refresh()
	for _, p := range w.provs {
		outer := ""
		var parts []*part
		if !plain && r.Intn(4) == 0 {
			outer = outers[r.Intn(len(outers))]
		}
		if !plain && p.old != nil && r.Intn(8) == 0 {
			outer = "under the old key"
		}
		n := r.Intn(6)
		if r.Intn(40) == 0 {
			n = 30 + r.Intn(20)
			w.k.Count("lists of very many publications", 1)
		}
		for j := n; j > 0; j-- {
			x := w.makePart(r, p)
			if plain {
				for !x.good {
					x = w.makePart(r, p)
				}
			}
			parts = append(parts, x)
		}
		p.mu.Lock()
		p.parts, p.outer, p.asked, p.bad, p.done = parts, outer, 0, "", false
		p.mu.Unlock()
		what := ""
		for _, x := range parts {
			what += fmt.Sprintf(" %s(%d)", x.what, len(x.offers))
		}
		w.note("catch up from %.8s: %s [%s ]", p.ID.ToString(), outer, what)
		w.k.Eval(fmt.Sprintf("%s/%s/%s/%d", p.ID.ToString(), outer, what, len(w.log)))
	}
	if !w.askAdmin(true) {
		return
	}
	fakes.Eventually(60*time.Second, func() bool {
		for _, p := range w.provs {
			p.mu.Lock()
			over := p.done || p.bad != ""
			p.mu.Unlock()
			if !over {
				return !w.gw.Alive()
			}
		}
		return true
	})
	time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
	if !w.gw.Alive() {
		return
	}
	for _, p := range w.provs {
		p.mu.Lock()
		if p.asked != 1 {
			w.k.Violate("asked", w.rep(), "told to catch up, the gateway asked provider %s %d times", p.ID.ToString(), p.asked)
		} else if p.bad != "" {
			w.k.Violate("exchange", w.rep(), "provider %s (%s): %s", p.ID.ToString(), p.outer, p.bad)
		}
		p.mu.Unlock()
	}
	w.k.Count("rounds", 1)
	w.k.Sample("round", w.rep())
}

// idle: told not to, it asks nobody.
func (w *world) idle(r *rand.Rand) {
	for _, p := range w.provs {
		p.mu.Lock()
		p.asked, p.bad, p.outer = 0, "", "hang up"
		p.mu.Unlock()
	}
	if !w.askAdmin(false) {
		return
	}
	time.Sleep(50 * time.Millisecond)
	for _, p := range w.provs {
		p.mu.Lock()
		if p.asked != 0 {
			w.k.Violate("asked:idle", w.rep(), "told not to catch up, the gateway asked provider %s", p.ID.ToString())
		}
		p.mu.Unlock()
	}
	w.k.Count("not told to", 1)
}

// lookAll asks for what it has, in the way clients do. The market knows what must and may be there.
func (w *world) lookAll(r *rand.Rand) {
	for _, c := range w.cids {
		if !w.gw.Alive() {
			return
		}
		w.gw.LookupClient(w.mk, c, r.Int63(), w.rep())
	}
}

func history(k *kit.K, i, rounds int) {
	r := k.Sub("history", i)
	nprov := 1 + r.Intn(5)
	if i%6 == 5 {
		nprov = 20
	}
	w := newWorld(k, r, nprov, 2+r.Intn(4)*(1+r.Intn(9)), 3+r.Intn(8))
	defer w.close()
	for j := 0; j < rounds && w.gw.Alive(); j++ {
		switch r.Intn(8) {
		case 0:
			w.idle(r)
		case 1:
			w.addGate(r)
		case 2:
			if len(w.provs) < 8 {
				w.addProvider(r)
			}
		case 4:
			w.rekey(r)
		case 3:
			if r.Intn(2) == 0 {
				w.gw.Restart()
				w.gw.MustInit(nil)
				w.note("restart")
				w.k.Count("restarts", 1)
			}
		}
		w.catchUp(r, r.Intn(4) == 0)
		w.lookAll(r)
	}
	if w.gw.Alive() {
		w.gw.Restart()
		w.gw.MustInit(nil)
		w.note("restart")
		w.gw.Refresh()
		w.lookAll(r)
	}
	k.Count("histories", 1)
}

// concurrent: the gateway is told to catch up by several admins while providers publish and clients ask.
func concurrent(k *kit.K, i, each int) {
	r := k.Sub("concurrent", i)
	w := newWorld(k, r, 5, 6, 6)
	defer w.close()
	for _, p := range w.provs {
		for j := 0; j < 4; j++ {
			x := w.makePart(r, p)
			for !x.good || len(x.offers) > 10 {
				x = w.makePart(r, p)
			}
			p.parts = append(p.parts, x)
		}
	}
	var order kit.Interleavings
	var wg sync.WaitGroup
	run := func(name string, f func(r *rand.Rand)) {
		wg.Add(1)
		r := k.Sub("actor/"+name, i)
		go func() {
			defer wg.Done()
			for j := 0; j < each && w.gw.Alive(); j++ {
				f(r)
				order.Add(name)
			}
		}()
	}
	for a := 0; a < 2; a++ {
		run(fmt.Sprint("admin", a), func(r *rand.Rand) { w.askAdmin(true) })
	}
	for a := 0; a < 2; a++ {
		run(fmt.Sprint("client", a), func(r *rand.Rand) {
			w.gw.LookupClient(w.mk, w.cids[r.Intn(len(w.cids))], r.Int63(), nil)
		})
	}
	for _, p := range w.provs[:2] {
		p := p
		c, err := svc.Dial(w.gw.Prov)
		fakes.Must(err)
		defer c.C.Close()
		run("provider "+p.ID.ToString()[:4], func(r *rand.Rand) {
			acked, a, err := w.gw.PublishDHT(w.mk, c, p.party, w.offers(r, p.party, 1+r.Intn(3)), r.Int63())
			if !acked && w.gw.Alive() {
				k.Violate("concurrent:refused", nil, "a genuine publication during the catching up was answered %s %v", svc.Text(a), err)
			}
			k.Count("publications meanwhile", 1)
		})
	}
	wg.Wait()
	want := 2 * each
	fakes.Eventually(60*time.Second, func() bool {
		for _, p := range w.provs {
			p.mu.Lock()
			over := p.asked >= want || p.bad != ""
			p.mu.Unlock()
			if !over {
				return !w.gw.Alive()
			}
		}
		return true
	})
	time.Sleep(50 * time.Millisecond)
	if !w.gw.Alive() {
		return
	}
	for _, p := range w.provs {
		p.mu.Lock()
		if p.bad != "" {
			k.Violate("concurrent:exchange", nil, "provider %s: %s", p.ID.ToString(), p.bad)
		} else if p.asked != want {
			k.Violate("concurrent:asked", nil, "told to catch up %d times, the gateway asked provider %s %d times", want, p.ID.ToString(), p.asked)
		}
		p.mu.Unlock()
	}
	w.lookAll(r)
	k.Eval(order.Key())
	k.Count("histories", 1)
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C28", func(k *kit.K) {
		if os.Getenv("VERIF_SCRATCH") == "" {
			k.Inconclusive("no scratch directory")
			return
		}
		k.Floor("histories", 1)
		k.Floor("offers acknowledged", 100)
		k.Floor("offers served", 200)
		if k.Args["mode"] == "concurrent" {
			for i := 0; i < k.N(2, 10); i++ {
				concurrent(k, i, k.N(10, 30))
			}
			return
		}
		k.Floor("bad publications listed", 50)
		k.Floor("lists acknowledged", 30)
		k.Floor("lists refused", 10)
		k.Floor("not told to", 1)
		k.Parallel("histories", 6, func(i int) {
			for j := 0; j < k.N(1, 8); j++ {
				history(k, i+6*j, k.N(10, 25))
			}
		})
	})
}
