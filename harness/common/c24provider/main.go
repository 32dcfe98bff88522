//go:build go1.22

// C24: the real provider program publishing to gateways that answer well, badly or not at all: what it publishes where,
// what it holds acknowledged, and what it tells its admin, clients and gateways that come later.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
)

var ring = new(big.Int).Lsh(big.NewInt(1), 256)

func num(h string) *big.Int {
	n, ok := new(big.Int).SetString(h, 16)
	if !ok {
		panic("harness: " + h)
	}
	return n
}

func circ(a, b string) *big.Int {
	x := new(big.Int).Mod(new(big.Int).Sub(num(b), num(a)), ring)
	y := new(big.Int).Sub(ring, x)
	if x.Cmp(y) < 0 {
		return x
	}
	return y
}

// pair is a publication and a valid acknowledgement of it.
type pair struct{ req, ack *svc.Msg }

// exchange is one publication a gate got.
type exchange struct {
	req    *svc.Msg
	group  bool
	digest string
	cids   []string
	ack    *svc.Msg // what it answered
	valid  bool     // whether that is an acknowledgement
	how    string
}

// gate is a gateway in the register.
type gate struct {
	*svc.Peer
	w     *world
	id    string
	mu    sync.Mutex
	mode  string
	log   []*exchange // since the last time it was taken
	all   []*exchange
	old   *svc.Party // before it changed its key
	stale bool       // its connection broke while idle: the next publication may be lost
	down  bool
}

// book is what the provider holds acknowledged for one CID by one gate.
type book struct {
	any  []*pair // one of these
	must bool
}

type world struct {
	k      *kit.K
	reg    *fakes.Register
	pv     *svc.Node
	gates  []*gate
	byID   map[string]*gate
	delays bool
	modes  []string

	mu     sync.Mutex
	stored map[string]*cidoffer.CIDOffer // DHT offers that were accepted, by digest
	maybe  map[string]*cidoffer.CIDOffer // DHT offers that may be stored
	books  map[string]*book              // cid + gate
	sent   map[string]map[string]int     // gate -> digest -> times acknowledged
	listed map[string]map[string]bool    // gate -> digest: acknowledged in answer to a list
	cids   []*cid.ContentID
}

func newWorld(k *kit.K, r *rand.Rand, gates int, timeout string) *world {
	w := &world{k: k, reg: fakes.NewRegister(), byID: map[string]*gate{}, stored: map[string]*cidoffer.CIDOffer{}, maybe: map[string]*cidoffer.CIDOffer{},
		books: map[string]*book{}, sent: map[string]map[string]int{}, listed: map[string]map[string]bool{}}
	w.pv = svc.Start(k, "provider", r, w.reg.URL, map[string]string{"TCP_INACTIVITY_TIMEOUT": timeout, "TCP_LONG_INACTIVITY_TIMEOUT": "20s"})
	for i := 0; i < gates; i++ {
		w.join(r)
	}
	w.reg.Junk(r, r.Intn(3)*r.Intn(5))
	w.pv.MustInit(nil)
	w.pv.Refresh()
	return w
}

func (w *world) join(r *rand.Rand) *gate {
	g := &gate{w: w, mode: "good"}
	g.Peer = svc.NewPeer(r, g.answer)
	g.id = g.ID.ToString()
	w.gates = append(w.gates, g)
	w.byID[g.id] = g
	w.sent[g.id], w.listed[g.id] = map[string]int{}, map[string]bool{}
	w.reg.SetGateway(fakes.GatewayEntry(g.id, g.Key, "127.0.0.1:1", g.Addr, "127.0.0.1:1", "127.0.0.1:1"))
	return g
}

func (w *world) close() {
	w.pv.Stop()
	for _, g := range w.gates {
		g.Close()
	}
	w.reg.Close()
}

var badModes = []string{"unsigned", "other-key", "provider-key", "other-signature", "other-body", "cut-signature", "kind", "refusal", "hangup", "old-key"}

// answer is what a gate says to a publication.
func (g *gate) answer(_ *svc.Conn, m *svc.Msg) *svc.Msg {
	w, k := g.w, g.w.k
	r := rand.New(rand.NewSource(time.Now().UnixNano()))
	g.mu.Lock()
	mode := g.mode
	if mode == "mixed" {
		mode = "good"
		if r.Intn(4) == 0 {
			mode = badModes[r.Intn(len(badModes))]
		}
	}
	g.mu.Unlock()
	e := &exchange{req: m, how: mode}
	if err := m.Verify(w.pv.Pub); err != nil {
		k.Violate("publish:unsigned", svc.Text(m), "a publication is not signed by the provider: %v", err)
	}
	other := w.gates[0]
	if other == g {
		other = w.gates[1]
	}
	var a *svc.Msg
	var err error
	switch m.GetMessageType() {
	case fcrmessages.ProviderPublishGroupOfferRequestType:
		id, _, o, derr := fcrmessages.DecodeProviderPublishGroupOfferRequest(m)
		if derr != nil {
			k.Violate("publish:undecodable", svc.Text(m), "a publication cannot be decoded: %v", derr)
			return nil
		}
		w.genuine(id, o)
		e.group = true
		e.note(o)
		dig := cidoffer.EncodeMessageDigest(o.GetMessageDigest())
		if mode == "other-body" || mode == "other-signature" {
			d := o.GetMessageDigest()
			d[r.Intn(len(d))] ^= 1 << uint(r.Intn(8))
			dig = cidoffer.EncodeMessageDigest(d)
		}
		a, err = fcrmessages.EncodeProviderPublishGroupOfferResponse(*g.ID, dig)
	case fcrmessages.ProviderPublishDHTOfferRequestType:
		id, nonce, os, derr := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
		if derr != nil {
			k.Violate("publish:undecodable", svc.Text(m), "a publication cannot be decoded: %v", derr)
			return nil
		}
		if len(os) != 1 {
			k.Violate("publish:many", svc.Text(m), "a publication to one gateway has %d DHT offers", len(os))
			return nil
		}
		w.genuine(id, &os[0])
		e.note(&os[0])
		a = g.ack(m, nonce)
		switch mode {
		case "other-signature":
			sig, serr := fcrcrypto.SignMessage(other.Key, other.Ver, m.GetMessageBody())
			fakes.Must(serr)
			a, err = fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig)
		case "other-body":
			sig, serr := fcrcrypto.SignMessage(g.Key, g.Ver, append([]byte{' '}, m.GetMessageBody()...))
			fakes.Must(serr)
			a, err = fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig)
		}
	default:
		k.Violate("publish:kind", svc.Text(m), "a gateway was sent a message of type %d", m.GetMessageType())
		return nil
	}
	fakes.Must(err)
	fakes.Must(a.Sign(g.Key, g.Ver))
	if w.delays {
		time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
	}
	switch mode {
	case "good":
		e.valid = true
	case "unsigned":
		a = svc.Resigned(a, "")
	case "other-key":
		fakes.Must(a.Sign(other.Key, other.Ver))
	case "old-key":
		by := g.old
		if by == nil {
			by = &svc.Party{ID: other.ID, Key: other.Key, Pub: other.Pub, Ver: other.Ver}
		} else {
			k.Count("acknowledgements under an old key", 1)
		}
		if !e.group {
			nonce, _, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(a)
			fakes.Must(err)
			a = ackBy(by, m, nonce)
		}
		fakes.Must(a.Sign(by.Key, by.Ver))
	case "provider-key":
		fakes.Must(a.Sign(w.pv.Key, w.pv.Ver))
	case "cut-signature":
		a = svc.Resigned(a, a.GetSignature()[:30])
	case "kind":
		if e.group {
			a = g.ack(m, 1)
		} else {
			a, err = fcrmessages.EncodeProviderPublishGroupOfferResponse(*g.ID, e.digest)
		}
		fakes.Must(err)
		fakes.Must(a.Sign(g.Key, g.Ver))
	case "refusal":
		a, err = fcrmessages.EncodeInvalidMessageResponse()
		fakes.Must(err)
	case "hangup":
		a = nil
	case "silent":
		g.put(e)
		g.set("good") // from the next one on
		time.Sleep(9 * time.Second)
		return a
	}
	e.ack = a
	g.put(e)
	return a
}

func (g *gate) put(e *exchange) {
	g.mu.Lock()
	g.log = append(g.log, e)
	g.all = append(g.all, e)
	g.mu.Unlock()
}

func (g *gate) set(mode string) { g.mu.Lock(); g.mode = mode; g.mu.Unlock() }

func (g *gate) take() []*exchange {
	g.mu.Lock()
	defer g.mu.Unlock()
	l := g.log
	g.log = nil
	return l
}

// ack acknowledges a publication of DHT offers.
func (g *gate) ack(m *svc.Msg, nonce int64) *svc.Msg {
	return ackBy(&svc.Party{Key: g.Key, Ver: g.Ver}, m, nonce)
}

func ackBy(p *svc.Party, m *svc.Msg, nonce int64) *svc.Msg {
	sig, err := fcrcrypto.SignMessage(p.Key, p.Ver, m.GetMessageBody())
	fakes.Must(err)
	return p.Sign(fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig))
}

// rekey: a gateway registers again, with another key.
func (w *world) rekey(r *rand.Rand, g *gate) {
	p := &svc.Party{ID: g.ID, Key: g.Key, Pub: g.Pub, Ver: g.Ver}
	g.old = p.Rekey(r)
	g.Key, g.Pub = p.Key, p.Pub
	w.reg.SetGateway(fakes.GatewayEntry(g.id, g.Key, "127.0.0.1:1", g.Addr, "127.0.0.1:1", "127.0.0.1:1"))
	w.pv.Refresh()
	w.k.Count("gateways with another key", 1)
}

func (e *exchange) note(o *cidoffer.CIDOffer) {
	e.digest = cidoffer.EncodeMessageDigest(o.GetMessageDigest())
	for _, c := range o.GetCIDs() {
		e.cids = append(e.cids, c.ToString())
	}
}

// genuine checks an offer the provider gave away.
func (w *world) genuine(id *nodeid.NodeID, o *cidoffer.CIDOffer) {
	if id.ToString() != w.pv.ID.ToString() || o.GetProviderID().ToString() != w.pv.ID.ToString() {
		w.k.Violate("offer:name", nil, "provider %s publishes an offer of %s as %s", w.pv.ID.ToString(), o.GetProviderID().ToString(), id.ToString())
	}
	if err := o.Verify(w.pv.Pub); err != nil {
		w.k.Violate("offer:unsigned", o.GetCIDs()[0].ToString(), "the provider publishes an offer that it has not signed: %v", err)
	}
}

func same(a, b *svc.Msg) bool { return svc.Text(a) == svc.Text(b) }

// want is an offer the admin asks for.
type want struct {
	o      *cidoffer.CIDOffer
	digest string
}

var seq int64
var seqLock sync.Mutex

func (w *world) want(r *rand.Rand, cids []cid.ContentID, expiry int64) *want {
	seqLock.Lock()
	seq++
	qos := uint64(seq)
	seqLock.Unlock()
	if r.Intn(20) == 0 {
		qos += 1 << 62
	}
	o, err := cidoffer.NewCIDOffer(w.pv.ID, cids, uint64(fakes.RandInt64(r)), expiry, qos)
	fakes.Must(err)
	return &want{o, cidoffer.EncodeMessageDigest(o.GetMessageDigest())}
}

func (w *world) newCID(r *rand.Rand) *cid.ContentID {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.cids) > 3 && r.Intn(4) == 0 {
		return w.cids[r.Intn(len(w.cids))]
	}
	c := fakes.NewCID(r)
	w.cids = append(w.cids, c)
	return c
}

// nearest are the gates a CID must be published to.
func (w *world) nearest(c string) []*gate {
	l := append([]*gate(nil), w.gates...)
	sort.Slice(l, func(i, j int) bool { return circ(c, l[i].id).Cmp(circ(c, l[j].id)) < 0 })
	if len(l) > 16 {
		l = l[:16]
	}
	return l
}

func expiry(r *rand.Rand) int64 { return time.Now().Unix() + 3600 + int64(r.Intn(1000000)) }

func (w *world) admin(m *svc.Msg, err error) *svc.Answer {
	fakes.Must(err)
	fakes.Must(m.Sign(w.pv.Key, w.pv.Ver))
	return w.pv.Post(w.pv.Admin, m)
}

// postDHT asks the provider to publish offers and returns whether it says it did.
func (w *world) postDHT(l []*want) bool {
	var cs []cid.ContentID
	var ps, qs []uint64
	var es []int64
	for _, x := range l {
		cs, ps, es, qs = append(cs, x.o.GetCIDs()[0]), append(ps, x.o.GetPrice()), append(es, x.o.GetExpiry()), append(qs, x.o.GetQoS())
	}
	w.mu.Lock()
	for _, x := range l {
		w.maybe[x.digest] = x.o
	}
	w.mu.Unlock()
	a := w.admin(fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(cs, ps, es, qs))
	if a.Msg == nil || a.Msg.Verify(w.pv.Pub) != nil {
		return false
	}
	ok, err := fcrmessages.DecodeProviderAdminPublishDHTOfferResponse(a.Msg)
	if !ok || err != nil {
		return false
	}
	w.mu.Lock()
	for _, x := range l {
		w.stored[x.digest] = x.o
	}
	w.mu.Unlock()
	return true
}

func (w *world) postGroup(x *want) bool {
	a := w.admin(fcrmessages.EncodeProviderAdminPublishGroupOfferRequest(x.o.GetCIDs(), x.o.GetPrice(), x.o.GetExpiry(), x.o.GetQoS()))
	if a.Msg == nil || a.Msg.Verify(w.pv.Pub) != nil {
		return false
	}
	ok, err := fcrmessages.DecodeProviderAdminPublishGroupOfferResponse(a.Msg)
	return ok && err == nil
}

// settle compares what each gate got with what it was meant to get, and books the acknowledgements.
func (w *world) settle(what string, t0 time.Time, meant map[*gate][]string) {
	k := w.k
	if !w.pv.Alive() {
		return
	}
	slow := kit.Stalled(t0) > time.Second
	for _, g := range w.gates {
		got := g.take()
		left := append([]string(nil), meant[g]...)
		for _, e := range got {
			at := -1
			for i, d := range left {
				if d == e.digest {
					at = i
					break
				}
			}
			if at < 0 {
				k.Violate("publish:not-meant", what, "%s: gateway %s got an offer that it was not meant to get, or got it twice", what, g.id)
				continue
			}
			left = append(left[:at], left[at+1:]...)
			k.Count("publications to "+e.how, 1)
			if !e.valid {
				continue
			}
			w.sent[g.id][e.digest]++
			if !e.group {
				w.books[e.cids[0]+g.id] = &book{any: []*pair{{e.req, e.ack}}, must: !slow}
			}
		}
		if len(left) > 0 && !g.down && !(g.stale && len(left) == 1) && !slow {
			k.Violate("publish:missing", what, "%s: gateway %s (%s) did not get %d of %d offers meant for it", what, g.id, g.mode, len(left), len(meant[g]))
		}
		if len(meant[g]) > 0 {
			g.stale = false
		}
	}
}

// askAck asks as a client whether a gateway acknowledged an offer for a CID.
func (w *world) askAck(c *cid.ContentID, g *nodeid.NodeID) (found bool, p *pair, ok bool) {
	req, err := fcrmessages.EncodeClientDHTOfferAckRequest(c, g)
	fakes.Must(err)
	a := w.pv.Post(w.pv.REST, req)
	if a.Msg == nil {
		if w.pv.Alive() {
			w.k.Violate("ack:refused", a.Body, "a client asking for an acknowledgement was answered %d %.300s %v", a.Status, a.Body, a.Err)
		}
		return
	}
	if err := a.Msg.Verify(w.pv.Pub); err != nil {
		w.k.Violate("ack:unsigned", svc.Text(a.Msg), "the answer to a client is not signed by the provider: %v", err)
		return
	}
	gc, gg, found, m, ack, err := fcrmessages.DecodeClientDHTOfferAckResponse(a.Msg)
	if err != nil || gc.ToString() != c.ToString() || gg.ToString() != g.ToString() {
		w.k.Violate("ack:mixed-up", svc.Text(a.Msg), "the answer to a client is of another question: %v", err)
		return
	}
	return found, &pair{m, ack}, true
}

func (w *world) checkAck(c *cid.ContentID, g *gate) {
	found, p, ok := w.askAck(c, g.ID)
	if !ok {
		return
	}
	b := w.books[c.ToString()+g.id]
	if b == nil {
		if found {
			w.k.Violate("ack:invented", svc.Text(p.ack), "the provider tells a client that gateway %s acknowledged an offer for %s, which it did not", g.id, c.ToString())
		}
		w.k.Count("acknowledgements that there are none", 1)
		return
	}
	if !found {
		if b.must {
			w.k.Violate("ack:lost", c.ToString(), "gateway %s acknowledged an offer for %s, of which the provider knows nothing", g.id, c.ToString())
		}
		return
	}
	w.k.Count("acknowledgements shown to clients", 1)
	for _, x := range b.any {
		if same(x.req, p.req) && same(x.ack, p.ack) {
			return
		}
	}
	w.k.Violate("ack:other", []string{svc.Text(p.req), svc.Text(p.ack)}, "the acknowledgement by gateway %s of the offer for %s that a client is shown is not what the gateway last said", g.id, c.ToString())
}

// published asks as the admin what was published to some gateways, or to all.
func (w *world) published(ids []nodeid.NodeID) (map[string]int, bool) {
	a := w.admin(fcrmessages.EncodeProviderAdminGetPublishedOfferRequest(ids))
	if a.Msg == nil || a.Msg.Verify(w.pv.Pub) != nil {
		if w.pv.Alive() {
			w.k.Violate("published:refused", a.Body, "the admin asking for the published offers was answered %d %.300s %v", a.Status, a.Body, a.Err)
		}
		return nil, false
	}
	exists, os, err := fcrmessages.DecodeProviderAdminGetPublishedOfferResponse(a.Msg)
	if err != nil || exists != (len(os) > 0) {
		w.k.Violate("published:undecodable", svc.Text(a.Msg), "the list of published offers (%d, exists %v) cannot be decoded: %v", len(os), exists, err)
		return nil, false
	}
	m := map[string]int{}
	for i := range os {
		if err := os[i].Verify(w.pv.Pub); err != nil {
			w.k.Violate("published:unsigned", svc.Text(a.Msg), "a published offer is not signed by the provider: %v", err)
		}
		m[cidoffer.EncodeMessageDigest(os[i].GetMessageDigest())]++
	}
	return m, true
}

func (w *world) checkPublished(r *rand.Rand) {
	var ids []nodeid.NodeID
	must, may := map[string]int{}, map[string]int{}
	n := r.Intn(5)
	for _, i := range r.Perm(len(w.gates)) {
		g := w.gates[i]
		if n > 0 {
			if len(ids) == n {
				break
			}
			ids = append(ids, *g.ID)
		}
		for d, x := range w.sent[g.id] {
			must[d] += x
		}
		for d := range w.listed[g.id] {
			may[d] += 1 << 20
		}
	}
	if n > 0 && r.Intn(3) == 0 { // one nobody knows, first, last or alone
		x := *fakes.NewNode(r)
		switch r.Intn(3) {
		case 0:
			ids = append(ids, x)
		case 1:
			ids = append([]nodeid.NodeID{x}, ids...)
		case 2:
			ids, must, may = []nodeid.NodeID{x}, nil, nil
		}
	}
	got, ok := w.published(ids)
	if !ok {
		return
	}
	for d, x := range got {
		if x > must[d]+may[d] {
			w.k.Violate("published:invented", d, "the provider tells its admin %d times of an offer as published to %d gateways asked for, which was acknowledged %d times", x, len(ids), must[d])
		}
	}
	for d, x := range must {
		if got[d] < x {
			w.k.Violate("published:lost", d, "an offer acknowledged by %d of the gateways asked for is listed %d times", x, got[d])
		}
	}
	w.k.Count("lists of published offers", 1)
}

func between(lo, hi, c string) bool {
	if lo <= hi {
		return lo <= c && c <= hi
	}
	return c >= lo || c <= hi
}

func (w *world) live(lo, hi string, t time.Time) (must, may map[string]*cidoffer.CIDOffer) {
	w.mu.Lock()
	defer w.mu.Unlock()
	must, may = map[string]*cidoffer.CIDOffer{}, map[string]*cidoffer.CIDOffer{}
	for d, o := range w.maybe {
		c := o.GetCIDs()[0]
		if between(lo, hi, c.ToString()) {
			may[d] = o
		}
	}
	for d, o := range w.stored {
		c := o.GetCIDs()[0]
		if between(lo, hi, c.ToString()) && o.GetExpiry() > t.Unix()+60 {
			must[d] = o
		}
	}
	return
}

var ackModes = []string{"good", "good", "good", "good", "short", "long", "unsigned", "other-key", "inner-unsigned", "inner-other-key", "inner-other-body", "inner-kind", "hangup", "kind"}

// list asks as a new gateway for the offers in a range, and acknowledges them in some way.
func (w *world) list(r *rand.Rand, g *gate, mode string, lo, hi *cid.ContentID, seqd bool) {
	k := w.k
	conn, err := svc.Dial(w.pv.GW)
	if err != nil {
		if w.pv.Alive() {
			panic(fmt.Sprintf("harness: dial: %v", err))
		}
		return
	}
	defer conn.C.Close()
	me := &svc.Party{ID: g.ID, Key: g.Key, Pub: g.Pub, Ver: g.Ver}
	proof := fakes.RandProof(r)
	req := me.Sign(fcrmessages.EncodeGatewayListDHTOfferRequest(g.ID, lo, hi, fakes.RandString(r), fakes.RandString(r), fakes.RandString(r), proof))
	t0 := time.Now()
	must0, _ := w.live(lo.ToString(), hi.ToString(), t0.Add(time.Minute))
	if conn.Send(req) != nil {
		return
	}
	a, err := conn.Recv(60 * time.Second)
	if !w.pv.Alive() {
		return
	}
	_, may := w.live(lo.ToString(), hi.ToString(), t0)
	if svc.IsRefusal(a, err) {
		k.Violate("list:refused", req, "a gateway asking for the offers from %s to %s is refused: %v", lo.ToString(), hi.ToString(), err)
		return
	}
	if err := a.Verify(w.pv.Pub); err != nil {
		k.Violate("list:unsigned", svc.Text(a), "the list of offers is not signed by the provider: %v", err)
		return
	}
	msgs, err := fcrmessages.DecodeGatewayListDHTOfferResponse(a)
	if err != nil {
		k.Violate("list:undecodable", svc.Text(a), "the list of offers cannot be decoded: %v", err)
		return
	}
	got := map[string]int{}
	total := 0
	var cids [][]string
	for i := range msgs {
		if err := msgs[i].Verify(w.pv.Pub); err != nil {
			k.Violate("list:unsigned", svc.Text(&msgs[i]), "a publication in a list is not signed by the provider: %v", err)
			return
		}
		id, _, os, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&msgs[i])
		if err != nil || len(os) == 0 || len(os) > 50 {
			k.Violate("list:undecodable", svc.Text(&msgs[i]), "a publication in a list has %d offers: %v", len(os), err)
			return
		}
		var cs []string
		for j := range os {
			w.genuine(id, &os[j])
			got[cidoffer.EncodeMessageDigest(os[j].GetMessageDigest())]++
			c := os[j].GetCIDs()[0]
			cs = append(cs, c.ToString())
			total++
		}
		cids = append(cids, cs)
	}
	for d, n := range got {
		if may[d] == nil {
			k.Violate("list:not-meant", d, "a gateway asking for offers from %s to %s is told of one that was not published, or is not in there", lo.ToString(), hi.ToString())
		} else if n > 1 {
			k.Violate("list:twice", d, "a gateway is told of the same offer %d times", n)
		}
		if o := may[d]; o != nil && o.GetExpiry() < t0.Unix()-1 {
			k.Violate("list:expired", d, "a gateway is told of an expired offer")
		}
	}
	if total > 500 {
		k.Violate("list:limit", total, "a gateway is told of %d offers at once", total)
	}
	if len(may) <= 500 {
		for d := range must0 {
			if got[d] == 0 {
				k.Violate("list:missing", d, "a gateway asking for the offers from %s to %s is not told of one for %s (%d told)", lo.ToString(), hi.ToString(), must0[d].GetCIDs()[0], total)
			}
		}
	} else if total < 500 && len(must0) >= 500 {
		k.Violate("list:missing", total, "of %d offers a gateway is told of %d", len(must0), total)
	}
	k.Count("offers listed to gateways", total)
	if total > 50 {
		k.Count("lists of several messages", 1)
	}
	// the acknowledgements
	var acks []svc.Msg
	for i := range msgs {
		_, nonce, _, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&msgs[i])
		fakes.Must(err)
		acks = append(acks, *g.ack(&msgs[i], nonce))
	}
	other := w.gates[r.Intn(len(w.gates))]
	for other == g {
		other = w.gates[r.Intn(len(w.gates))]
	}
	bad := len(acks) // the first acknowledgement that is none
	if strings.HasPrefix(mode, "inner") && len(acks) > 0 {
		bad = r.Intn(len(acks))
		m := &msgs[bad]
		x := &acks[bad]
		switch mode {
		case "inner-unsigned":
			*x = *svc.Resigned(x, "")
		case "inner-other-key":
			*x = *other.ack(m, 1)
			if g.old != nil && r.Intn(2) == 0 {
				*x = *ackBy(g.old, m, 1)
			}
		case "inner-other-body":
			sig, err := fcrcrypto.SignMessage(g.Key, g.Ver, append(m.GetMessageBody(), ' '))
			fakes.Must(err)
			y, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(1, sig)
			fakes.Must(err)
			fakes.Must(y.Sign(g.Key, g.Ver))
			*x = *y
		case "inner-kind":
			y, err := fcrmessages.EncodeProviderPublishGroupOfferResponse(*g.ID, "")
			fakes.Must(err)
			fakes.Must(y.Sign(g.Key, g.Ver))
			*x = *y
		}
	}
	switch mode {
	case "short":
		if len(acks) > 0 {
			acks = acks[:len(acks)-1]
			bad = 0
		}
	case "long":
		acks = append(acks, *g.ack(req, 1))
		bad = 0
	}
	k.Count("lists acknowledged: "+mode, 1)
	if mode == "hangup" {
		bad = 0
	} else {
		am, err := fcrmessages.EncodeGatewayListDHTOfferAck(acks)
		fakes.Must(err)
		if mode == "kind" {
			am = req
			bad = 0
		}
		fakes.Must(am.Sign(g.Key, g.Ver))
		switch mode {
		case "unsigned":
			am, bad = svc.Resigned(am, ""), 0
		case "other-key":
			fakes.Must(am.Sign(other.Key, other.Ver))
			if g.old != nil && r.Intn(2) == 0 {
				fakes.Must(am.Sign(g.old.Key, g.old.Ver))
			}
			bad = 0
		}
		w.mu.Lock()
		for i := 0; i < bad; i++ {
			for _, c := range cids[i] {
				b := w.books[c+g.id]
				if b == nil {
					b = &book{}
					w.books[c+g.id] = b
				}
				if seqd && bad == len(msgs) {
					b.any, b.must = nil, true
				}
			}
		}
		for i := 0; i < bad; i++ {
			for _, c := range cids[i] {
				b := w.books[c+g.id]
				b.any = append(b.any, &pair{&msgs[i], &acks[i]})
			}
		}
		for d := range got {
			w.listed[g.id][d] = true
		}
		w.mu.Unlock()
		if conn.Send(am) != nil {
			return
		}
	}
	// a later request on the same connection is answered after the acknowledgements were dealt with
	if mode != "hangup" {
		n := me.Sign(fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(g.ID, r.Intn(2) == 0))
		var b *svc.Msg
		err := conn.Send(n)
		if err == nil {
			b, err = conn.Recv(60 * time.Second)
		}
		if mode == "good" && len(msgs) > 0 && svc.IsRefusal(b, err) && w.pv.Alive() {
			k.Violate("list:dropped", nil, "after good acknowledgements of a list the gateway's next request is refused: %v", err)
		}
	}
	k.Eval(fmt.Sprintf("list %s %s %s", lo.ToString(), hi.ToString(), mode))
}

// forged sends requests between nodes that must be refused.
func (w *world) forged(r *rand.Rand) {
	g := w.gates[r.Intn(len(w.gates))]
	o := svc.NewParty(r)
	me := &svc.Party{ID: g.ID, Key: g.Key, Pub: g.Pub, Ver: g.Ver}
	lo, hi := whole()
	mk := func(id *nodeid.NodeID, p *svc.Party) *svc.Msg {
		if r.Intn(3) == 0 {
			return p.Sign(fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(id, true))
		}
		return p.Sign(fcrmessages.EncodeGatewayListDHTOfferRequest(id, lo, hi, "b", "t", "m", fakes.RandProof(r)))
	}
	var m *svc.Msg
	var how string
	switch r.Intn(4) {
	case 0:
		how, m = "unknown gateway", mk(o.ID, o)
	case 1:
		how, m = "other key", mk(g.ID, o)
	case 2:
		how, m = "unsigned", svc.Resigned(mk(g.ID, me), "")
	case 3:
		how = "signature of another request"
		m = svc.Resigned(mk(g.ID, me), me.Sign(fcrmessages.EncodeGatewayListDHTOfferRequest(g.ID, hi, lo, "b", "t", "n", fakes.RandProof(r))).GetSignature())
	}
	a, err := svc.Ask(w.pv.GW, m)
	if !w.pv.Alive() {
		return
	}
	if !svc.IsRefusal(a, err) {
		w.k.Violate("forged:"+how, svc.Text(m), "a request of a gateway (%s) is answered: %s", how, svc.Text(a))
	}
	w.k.Count("forged requests refused", 1)
}

func whole() (lo, hi *cid.ContentID) {
	lo, err := cid.NewContentIDFromHexString(strings.Repeat("00", 32))
	fakes.Must(err)
	hi, err = cid.NewContentIDFromHexString(strings.Repeat("ff", 32))
	fakes.Must(err)
	return lo, hi
}

func history(k *kit.K, n, ops int) {
	r := k.Sub("history", n)
	gates := 2 + r.Intn(6)
	if n%3 == 1 {
		gates = 17 + r.Intn(8)
	}
	w := newWorld(k, r, gates, "5s")
	defer w.close()
	silent := 0
	for i := 0; i < ops && w.pv.Alive() && k.Violations() == 0; i++ {
		t0 := time.Now()
		switch p := r.Intn(20); {
		case p < 5: // publish DHT offers
			var l []*want
			meant := map[*gate][]string{}
			for j := 0; j < 1+r.Intn(4); j++ {
				x := w.want(r, []cid.ContentID{*w.newCID(r)}, expiry(r))
				l = append(l, x)
				c := x.o.GetCIDs()[0]
				for _, g := range w.nearest(c.ToString()) {
					meant[g] = append(meant[g], x.digest)
				}
			}
			stale := false
			if r.Intn(6) == 0 { // one that has expired: all are refused
				l[r.Intn(len(l))] = w.want(r, []cid.ContentID{*w.newCID(r)}, time.Now().Unix()-1-int64(r.Intn(1000000)))
				meant, stale = nil, true
			}
			ok := w.postDHT(l)
			if !w.pv.Alive() {
				return
			}
			if ok == stale {
				k.Violate("publish:verdict", i, "asked to publish %d DHT offers (one expired: %v), the provider says it did: %v", len(l), stale, ok)
			}
			if stale {
				k.Count("expired offers refused", 1)
			}
			w.settle("DHT", t0, meant)
			k.Eval(fmt.Sprintf("dht %d %v %s", len(l), stale, l[0].digest))
		case p < 8: // publish a group offer
			var cs []cid.ContentID
			m := 1 + r.Intn(6)
			if r.Intn(5) == 0 {
				m = 20 + r.Intn(180)
			}
			for j := 0; j < m; j++ {
				if j < 6 {
					cs = append(cs, *w.newCID(r))
				} else {
					cs = append(cs, *fakes.NewCID(r))
				}
			}
			x := w.want(r, cs, expiry(r))
			bad := m == 1
			if r.Intn(6) == 0 {
				x, bad = w.want(r, cs, time.Now().Unix()-1-int64(r.Intn(1000000))), true
			}
			meant := map[*gate][]string{}
			if !bad {
				for _, g := range w.gates {
					meant[g] = []string{x.digest}
				}
			}
			ok := w.postGroup(x)
			if !w.pv.Alive() {
				return
			}
			if ok == bad {
				k.Violate("publish:verdict", i, "asked to publish a group offer of %d CIDs that expires in %d s, the provider says it did: %v", m, x.o.GetExpiry()-time.Now().Unix(), ok)
			}
			w.settle("group", t0, meant)
			k.Eval("group " + x.digest)
		case p < 9: // lists that do not fit each other
			cs := []cid.ContentID{*fakes.NewCID(r), *fakes.NewCID(r)}[:r.Intn(3)]
			ps, qs := []uint64{1, 2}[:r.Intn(3)], []uint64{1, 2}[:r.Intn(3)]
			es := []int64{expiry(r), expiry(r)}[:r.Intn(3)]
			if len(cs) > 0 && len(cs) == len(ps) && len(cs) == len(qs) && len(cs) == len(es) {
				continue
			}
			a := w.admin(fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(cs, ps, es, qs))
			if a.Msg != nil {
				k.Violate("publish:verdict", i, "lists of %d CIDs, %d prices, %d expiries and %d QoS are published", len(cs), len(ps), len(es), len(qs))
			}
			w.settle("misfit", t0, nil)
		case p < 12: // a gateway changes
			g := w.gates[r.Intn(len(w.gates))]
			switch q := r.Intn(12); {
			case g.down:
			case q < 5:
				g.set("good")
			case q < 10:
				g.set(badModes[r.Intn(len(badModes))])
			case q == 10:
				g.Hangup()
				time.Sleep(5 * time.Millisecond)
				g.stale = true
			case len(w.gates) > 4:
				if r.Intn(2) == 0 && silent < 1 {
					silent++
					g.set("silent")
				} else {
					g.Close()
					g.down = true
				}
			}
		case p < 13:
			if r.Intn(2) == 0 {
				w.rekey(r, w.gates[r.Intn(len(w.gates))])
				continue
			}
			if len(w.gates) < 24 {
				g := w.join(r)
				w.pv.Refresh()
				w.list(r, g, ackModes[r.Intn(len(ackModes))], fakes.NewCID(r), fakes.NewCID(r), true)
			}
		case p < 15:
			lo, hi := whole()
			if r.Intn(2) == 0 {
				lo, hi = fakes.NewCID(r), fakes.NewCID(r)
			}
			if r.Intn(4) == 0 && len(w.cids) > 0 {
				lo = w.cids[r.Intn(len(w.cids))]
				hi = lo
			}
			w.list(r, w.gates[r.Intn(len(w.gates))], ackModes[r.Intn(len(ackModes))], lo, hi, true)
		case p < 16:
			w.forged(r)
		case p < 17:
			w.checkPublished(r)
		default:
			for j := 0; j < 4; j++ {
				c := fakes.NewCID(r)
				if len(w.cids) > 0 && r.Intn(8) > 0 {
					c = w.cids[r.Intn(len(w.cids))]
				}
				w.checkAck(c, w.gates[r.Intn(len(w.gates))])
			}
		}
	}
	if !w.pv.Alive() {
		return
	}
	for _, c := range w.cids {
		for _, g := range w.gates {
			if w.books[c.ToString()+g.id] != nil || r.Intn(8) == 0 {
				w.checkAck(c, g)
			}
		}
	}
	for i := 0; i < 8; i++ {
		w.checkPublished(r)
	}
}

// many lists more offers than go into one answer.
func many(k *kit.K, n, offers int) {
	r := k.Sub("many", n)
	w := newWorld(k, r, 2, "20s")
	defer w.close()
	for done := 0; done < offers && k.Violations() == 0; {
		var l []*want
		meant := map[*gate][]string{}
		t0 := time.Now()
		for i := 0; i < 60+r.Intn(60); i++ {
			x := w.want(r, []cid.ContentID{*w.newCID(r)}, expiry(r))
			l = append(l, x)
			for _, g := range w.gates {
				meant[g] = append(meant[g], x.digest)
			}
		}
		if !w.postDHT(l) {
			if w.pv.Alive() {
				k.Violate("publish:verdict", len(l), "%d DHT offers cannot be published", len(l))
			}
			return
		}
		w.settle("DHT", t0, meant)
		done += len(l)
		lo, hi := whole()
		w.list(r, w.gates[r.Intn(2)], "good", lo, hi, true)
		w.list(r, w.gates[r.Intn(2)], ackModes[r.Intn(len(ackModes))], fakes.NewCID(r), fakes.NewCID(r), true)
		for _, mode := range ackModes {
			if strings.HasPrefix(mode, "inner") && r.Intn(2) == 0 { // in the middle of several messages
				w.list(r, w.gates[r.Intn(2)], mode, lo, hi, true)
			}
		}
	}
	for i := 0; i < 200 && w.pv.Alive(); i++ {
		w.checkAck(w.cids[r.Intn(len(w.cids))], w.gates[r.Intn(2)])
	}
	w.checkPublished(r)
}

func concurrent(k *kit.K, n, each int) {
	r := k.Sub("concurrent", n)
	w := newWorld(k, r, 5, "20s")
	w.delays = true
	defer w.close()
	for _, g := range w.gates[1:] {
		g.set("mixed")
	}
	var order kit.Interleavings
	var mu sync.Mutex
	meant := map[string]bool{}
	t0 := time.Now()
	k.Parallel("concurrent", 10, func(i int) {
		r := k.Sub("concurrent-worker", n*100+i)
		for j := 0; j < each && w.pv.Alive(); j++ {
			switch {
			case i < 3:
				var l []*want
				for m := 0; m < 1+r.Intn(3); m++ {
					l = append(l, w.want(r, []cid.ContentID{*w.newCID(r)}, expiry(r)))
				}
				ok := w.postDHT(l)
				if !ok && w.pv.Alive() {
					k.Violate("publish:verdict", j, "asked to publish %d DHT offers, the provider did not", len(l))
				}
				mu.Lock()
				for _, x := range l {
					meant[x.digest] = true
				}
				mu.Unlock()
			case i < 5:
				x := w.want(r, []cid.ContentID{*fakes.NewCID(r), *fakes.NewCID(r)}, expiry(r))
				if !w.postGroup(x) && w.pv.Alive() {
					k.Violate("publish:verdict", j, "asked to publish a group offer, the provider did not")
				}
				mu.Lock()
				meant[x.digest] = true
				mu.Unlock()
			case i < 7:
				lo, hi := whole()
				if r.Intn(2) == 0 {
					lo, hi = fakes.NewCID(r), fakes.NewCID(r)
				}
				w.list(r, w.gates[r.Intn(len(w.gates))], ackModes[r.Intn(len(ackModes))], lo, hi, false)
			case i == 7:
				w.pv.Refresh()
				w.forged(r)
			case i == 8:
				if m, ok := w.published(nil); ok {
					k.Count("lists of published offers", 1)
					_ = m
				}
			default:
				w.mu.Lock()
				var c *cid.ContentID
				if len(w.cids) > 0 {
					c = w.cids[r.Intn(len(w.cids))]
				}
				w.mu.Unlock()
				if c == nil {
					continue
				}
				g := w.gates[r.Intn(len(w.gates))]
				if found, p, ok := w.askAck(c, g.ID); ok && found {
					k.Count("acknowledgements shown to clients", 1)
					if p.req.Verify(w.pv.Pub) != nil || p.ack.Verify(g.Pub) != nil {
						k.Violate("ack:other", svc.Text(p.ack), "a client is shown an acknowledgement by gateway %s that is not signed by both", g.id)
					}
				}
			}
			order.Add(fmt.Sprint(i))
			k.Eval(fmt.Sprintf("c%d.%d.%d", n, i, j))
		}
	})
	k.Eval("order " + order.Key())
	if !w.pv.Alive() || k.Violations() > 0 {
		return
	}
	slow := kit.Stalled(t0) > 5*time.Second
	for _, g := range w.gates {
		got := map[string]int{}
		for _, e := range g.all {
			got[e.digest]++
			if !meant[e.digest] {
				k.Violate("publish:not-meant", e.digest, "gateway %s got an offer nobody asked to publish", g.id)
			}
			k.Count("publications to "+e.how, 1)
			if !e.valid {
				continue
			}
			w.sent[g.id][e.digest]++
			if !e.group {
				b := w.books[e.cids[0]+g.id]
				if b == nil {
					b = &book{}
					w.books[e.cids[0]+g.id] = b
				}
				b.must = !slow
				b.any = append(b.any, &pair{e.req, e.ack})
			}
		}
		for d := range meant {
			if got[d] != 1 && !slow {
				k.Violate("publish:missing", d, "gateway %s got an offer %d times", g.id, got[d])
			}
		}
	}
	for _, c := range w.cids {
		for _, g := range w.gates {
			w.checkAck(c, g)
		}
	}
	if !slow {
		w.checkPublished(r)
	}
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C24", func(k *kit.K) {
		if os.Getenv("VERIF_SCRATCH") == "" {
			k.Inconclusive("no scratch directory")
			return
		}
		k.Floor("publications to good", 100)
		k.Floor("acknowledgements shown to clients", 100)
		k.Floor("offers listed to gateways", 100)
		k.Floor("forged requests refused", 5)
		if k.Args["mode"] == "concurrent" {
			for i := 0; i < k.N(2, 10); i++ {
				concurrent(k, i, k.N(12, 40))
			}
			return
		}
		k.Floor("acknowledgements that there are none", 50)
		k.Floor("lists of published offers", 5)
		k.Floor("lists of several messages", 5)
		k.Floor("expired offers refused", 1)
		for _, m := range badModes {
			k.Floor("publications to "+m, 1)
		}
		k.Parallel("many", k.N(1, 3), func(i int) { many(k, i, 700) })
		k.Parallel("histories", 6, func(i int) {
			for j := 0; j < k.N(1, 8); j++ {
				history(k, i+6*j, k.N(120, 400))
			}
		})
	})
}
