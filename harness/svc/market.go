//go:build go1.22

package svc

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"
	"github.com/filecoin-project/lotus/chain/types"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/lotus"
)

// Party is somebody with an ID and a key: a provider or a gateway known from the register.
type Party struct {
	ID  *nodeid.NodeID
	Key *fcrcrypto.KeyPair
	Pub *fcrcrypto.KeyPair
	Ver *fcrcrypto.KeyVersion
}

// NewParty draws one.
func NewParty(r *rand.Rand) *Party {
	p := &Party{ID: fakes.NewNode(r), Key: fakes.KeyFrom(r), Ver: fcrcrypto.DecodeKeyVersion(uint32(r.Intn(3) + 1))}
	p.Pub = fakes.Pub(p.Key)
	return p
}

// Rekey gives the party another key, and returns it as it was.
func (p *Party) Rekey(r *rand.Rand) *Party {
	old := *p
	p.Key = fakes.KeyFrom(r)
	p.Pub = fakes.Pub(p.Key)
	return &old
}

// Sign signs a message.
func (p *Party) Sign(m *Msg, err error) *Msg {
	fakes.Must(err)
	fakes.Must(m.Sign(p.Key, p.Ver))
	return m
}

// OfferWith makes a signed offer.
func (p *Party) OfferWith(cids []*cid.ContentID, price uint64, expiry int64, qos uint64) *cidoffer.CIDOffer {
	var cs []cid.ContentID
	for _, c := range cids {
		cs = append(cs, *c)
	}
	o, err := cidoffer.NewCIDOffer(p.ID, cs, price, expiry, qos)
	fakes.Must(err)
	fakes.Must(o.Sign(p.Key, p.Ver))
	return o
}

var offerSeq atomic.Int64

// Offer makes a signed offer that no other draw gives.
func (p *Party) Offer(r *rand.Rand, cids ...*cid.ContentID) *cidoffer.CIDOffer {
	price := uint64(r.Intn(1000000))
	if r.Intn(3) == 0 {
		price = r.Uint64()
	}
	return p.OfferWith(cids, price, time.Now().Unix()+3600+int64(r.Intn(100000)), uint64(offerSeq.Add(1)))
}

// Forge is the same signature under other contents.
func Forge(o *cidoffer.CIDOffer, f func(id *nodeid.NodeID, cids []cid.ContentID, price uint64, expiry int64, qos uint64) (*nodeid.NodeID, []cid.ContentID, uint64, int64, uint64)) *cidoffer.CIDOffer {
	n, err := cidoffer.NewCIDOffer(f(o.GetProviderID(), append([]cid.ContentID(nil), o.GetCIDs()...), o.GetPrice(), o.GetExpiry(), o.GetQoS()))
	fakes.Must(err)
	n.SetSignature(o.GetSignature())
	return n
}

// Deal is an offer sent to a gateway.
type Deal struct {
	Offer       *cidoffer.CIDOffer
	By          *Party
	Pub         *fcrcrypto.KeyPair // the key of By it was sent under
	Digest      string
	sent, acked int64
	refused     bool
}

// Market is what a gateway may and must know.
type Market struct {
	mu    sync.Mutex
	clock int64
	deals []*Deal
	byDig map[string]*Deal
}

// NewMarket is empty.
func NewMarket() *Market { return &Market{byDig: map[string]*Deal{}} }

// Tick is a moment in the order of events.
func (m *Market) Tick() int64 { m.mu.Lock(); defer m.mu.Unlock(); m.clock++; return m.clock }

// Sent notes that an offer is about to be published: from now on it may be known.
func (m *Market) Sent(by *Party, o *cidoffer.CIDOffer) *Deal {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.clock++
	d := cidoffer.EncodeMessageDigest(o.GetMessageDigest())
	if x := m.byDig[d]; x != nil {
		return x
	}
	x := &Deal{Offer: o, By: by, Pub: by.Pub, Digest: d, sent: m.clock}
	m.deals = append(m.deals, x)
	m.byDig[d] = x
	return x
}

// Acked notes that it was acknowledged: from now on it must be known.
func (m *Market) Acked(d *Deal) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.clock++
	if d.acked == 0 {
		d.acked = m.clock
	}
}

// Deals lists what was sent.
func (m *Market) Deals() []*Deal {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]*Deal(nil), m.deals...)
}

// Known returns the acknowledged offers for a CID.
func (m *Market) Known(c *cid.ContentID) []*Deal {
	m.mu.Lock()
	defer m.mu.Unlock()
	var l []*Deal
	for _, d := range m.deals {
		if d.acked != 0 && d.has(c) {
			l = append(l, d)
		}
	}
	return l
}

func (d *Deal) has(c *cid.ContentID) bool {
	for _, x := range d.Offer.GetCIDs() {
		if x.ToString() == c.ToString() {
			return true
		}
	}
	return false
}

// Has tells whether the offer has the CID.
func (d *Deal) Has(c *cid.ContentID) bool { return d.has(c) }

// expected gives what an answer to a question asked between two moments must and may contain.
func (m *Market) expected(c *cid.ContentID, from, to int64, t0, t1 time.Time) (must, may map[string]*Deal) {
	m.mu.Lock()
	defer m.mu.Unlock()
	must, may = map[string]*Deal{}, map[string]*Deal{}
	for _, d := range m.deals {
		if !d.has(c) || d.sent > to {
			continue
		}
		if d.Offer.GetExpiry() >= t0.Unix() {
			may[d.Digest] = d
			if d.acked != 0 && d.acked < from && d.Offer.GetExpiry() > t1.Unix()+1 {
				must[d.Digest] = d
			}
		}
	}
	return
}

// digestOf finds the offer a sub-offer is of: everything but the other CIDs is in it.
func (m *Market) dealOf(s *cidoffer.SubCIDOffer) *Deal {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, d := range m.deals {
		o := d.Offer
		if o.GetSignature() == s.GetSignature() && o.GetPrice() == s.GetPrice() && o.GetExpiry() == s.GetExpiry() && o.GetQoS() == s.GetQoS() &&
			o.GetProviderID().ToString() == s.GetProviderID().ToString() {
			return d
		}
	}
	return nil
}

// CheckSubs compares sub-offers given for a CID with what is expected.
func (m *Market) CheckSubs(k *kit.K, key string, rep interface{}, c *cid.ContentID, subs []cidoffer.SubCIDOffer, must, may map[string]*Deal) {
	seen := map[string]bool{}
	for i := range subs {
		s := &subs[i]
		d := m.dealOf(s)
		if d == nil {
			k.Violate(key+":unknown-offer", rep, "the answer has an offer nobody published: %s", js(s))
			continue
		}
		if s.GetSubCID().ToString() != c.ToString() {
			k.Violate(key+":other-cid", rep, "asked for %s the answer has an offer for %s", c.ToString(), s.GetSubCID().ToString())
			continue
		}
		if err := s.Verify(d.Pub); err != nil {
			k.Violate(key+":unverifiable", rep, "the answer has a sub-offer that does not verify: %v", err)
		}
		if err := s.VerifyMerkleProof(); err != nil {
			k.Violate(key+":unverifiable", rep, "the answer has a sub-offer whose proof does not verify: %v", err)
		}
		if may[d.Digest] == nil {
			k.Violate(key+":unexpected-offer", rep, "the answer has an offer that was refused, expired or not asked for: expiry %d (now %d), digest %s", d.Offer.GetExpiry(), time.Now().Unix(), d.Digest)
		}
		if seen[d.Digest] {
			k.Violate(key+":twice", rep, "the answer has the same offer twice")
		}
		seen[d.Digest] = true
	}
	for dig := range must {
		if !seen[dig] {
			k.Violate(key+":missing", rep, "the answer has %d offers and lacks one that was acknowledged before: %s", len(subs), dig)
			break
		}
	}
}

// CheckDigests does the same for digests.
func (m *Market) CheckDigests(k *kit.K, key string, rep interface{}, digests []string, must, may map[string]*Deal) {
	seen := map[string]bool{}
	for _, d := range digests {
		if may[d] == nil {
			k.Violate(key+":unexpected-digest", rep, "the answer has the digest %s, of no offer that could be meant", d)
		}
		if seen[d] {
			k.Violate(key+":twice", rep, "the answer has the same digest twice")
		}
		seen[d] = true
	}
	for dig := range must {
		if !seen[dig] {
			k.Violate(key+":missing", rep, "the answer has %d digests and lacks that of an offer acknowledged before", len(digests))
			break
		}
	}
}

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

// Text renders a message for a report.
func Text(m *Msg) string {
	if m == nil {
		return "<none>"
	}
	return fmt.Sprintf("type %d signature %.20s body %.1500s", m.GetMessageType(), m.GetSignature(), m.GetMessageBody())
}

// IsRefusal: what a node answers to a request between nodes that it does not accept.
func IsRefusal(m *Msg, err error) bool {
	return err != nil || m.GetMessageType() == fcrmessages.InvalidMessageResponseType
}

// PublishGroup sends one offer and checks the answer; it returns whether it was acknowledged.
func (n *Node) PublishGroup(mk *Market, c *Conn, by *Party, o *cidoffer.CIDOffer, nonce int64) (acked bool, answer *Msg, err error) {
	req := by.Sign(fcrmessages.EncodeProviderPublishGroupOfferRequest(by.ID, nonce, o))
	d := mk.Sent(by, o)
	if err = c.Send(req); err != nil {
		return
	}
	answer, err = c.Recv(60 * time.Second)
	if IsRefusal(answer, err) {
		return
	}
	acked = n.CheckGroupAck(answer, o)
	if acked {
		mk.Acked(d)
	}
	return
}

// CheckGroupAck tells whether an answer is a valid acknowledgement of a group offer; a wrong one is a violation.
func (n *Node) CheckGroupAck(answer *Msg, o *cidoffer.CIDOffer) bool {
	if err := answer.Verify(n.Pub); err != nil {
		n.K.Violate("ack:unsigned", Text(answer), "the acknowledgement of a group offer is not signed by the gateway: %v", err)
		return false
	}
	id, dig, err := fcrmessages.DecodeProviderPublishGroupOfferResponse(answer)
	if err != nil {
		n.K.Violate("ack:undecodable", Text(answer), "the acknowledgement of a group offer cannot be decoded: %v", err)
		return false
	}
	if id.ToString() != n.ID.ToString() {
		n.K.Violate("ack:gateway", Text(answer), "gateway %s acknowledges as %s", n.ID.ToString(), id.ToString())
		return false
	}
	if dig != cidoffer.EncodeMessageDigest(o.GetMessageDigest()) {
		n.K.Violate("ack:digest", Text(answer), "the acknowledgement is of another offer")
		return false
	}
	return true
}

// PublishDHT sends offers and checks the answer.
func (n *Node) PublishDHT(mk *Market, c *Conn, by *Party, os []*cidoffer.CIDOffer, nonce int64) (acked bool, answer *Msg, err error) {
	var l []cidoffer.CIDOffer
	for _, o := range os {
		l = append(l, *o)
	}
	req := by.Sign(fcrmessages.EncodeProviderPublishDHTOfferRequest(by.ID, nonce, l))
	var ds []*Deal
	for _, o := range os {
		ds = append(ds, mk.Sent(by, o))
	}
	if err = c.Send(req); err != nil {
		return
	}
	answer, err = c.Recv(60 * time.Second)
	if IsRefusal(answer, err) {
		return
	}
	acked = n.CheckDHTAck(answer, req, nonce)
	if acked {
		for _, d := range ds {
			mk.Acked(d)
		}
	}
	return
}

// CheckDHTAck tells whether an answer is a valid acknowledgement; a wrong one is a violation.
func (n *Node) CheckDHTAck(answer, req *Msg, nonce int64) bool {
	if err := answer.Verify(n.Pub); err != nil {
		n.K.Violate("ack:unsigned", Text(answer), "the acknowledgement of DHT offers is not signed by the gateway: %v", err)
		return false
	}
	got, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(answer)
	if err != nil {
		n.K.Violate("ack:undecodable", Text(answer), "the acknowledgement of DHT offers cannot be decoded: %v", err)
		return false
	}
	if got != nonce {
		n.K.Violate("ack:nonce", Text(answer), "the acknowledgement has nonce %d, the publication had %d", got, nonce)
	}
	ok, err := fcrcrypto.VerifyMessage(n.Pub, sig, req.GetMessageBody())
	if err != nil || !ok {
		n.K.Violate("ack:signature", Text(answer), "the acknowledgement does not contain the gateway's signature over the publication: %v %v", ok, err)
		return false
	}
	return true
}

// LookupClient asks for the offers for a CID as a client does (first version: free of charge).
func (n *Node) LookupClient(mk *Market, c *cid.ContentID, nonce int64, rep interface{}) []cidoffer.SubCIDOffer {
	req, err := fcrmessages.EncodeClientStandardDiscoverRequest(c, nonce, time.Now().Unix()+100, "", "")
	fakes.Must(err)
	from, t0 := mk.Tick(), time.Now()
	a := n.Post(n.REST, req)
	to, t1 := mk.Tick(), time.Now()
	if a.Err != nil || a.Msg == nil {
		if n.Alive() {
			n.K.Violate("lookup:refused", rep, "a lookup was answered %d %.500s %v", a.Status, a.Body, a.Err)
		}
		return nil
	}
	if err := a.Msg.Verify(n.Pub); err != nil {
		n.K.Violate("lookup:unsigned", rep, "the answer to a lookup is not signed by the gateway: %v", err)
		return nil
	}
	pc, gotNonce, found, subs, funded, err := fcrmessages.DecodeClientStandardDiscoverResponse(a.Msg)
	if err != nil {
		n.K.Violate("lookup:undecodable", rep, "the answer to a lookup cannot be decoded: %v", err)
		return nil
	}
	n.lookup(mk, "lookup", rep, c, nonce, pc, gotNonce, found, subs, funded, from, to, t0, t1)
	return subs
}

func (n *Node) lookup(mk *Market, key string, rep interface{}, c *cid.ContentID, nonce int64, pc *cid.ContentID, gotNonce int64, found bool, subs []cidoffer.SubCIDOffer, funded []bool, from, to int64, t0, t1 time.Time) {
	if pc.ToString() != c.ToString() || gotNonce != nonce {
		n.K.Violate(key+":mixed-up", rep, "asked for %s nonce %d, answered for %s nonce %d", c.ToString(), nonce, pc.ToString(), gotNonce)
		return
	}
	if found != (len(subs) > 0) || len(funded) != len(subs) {
		n.K.Violate(key+":inconsistent", rep, "found is %v with %d offers and %d payment channel flags", found, len(subs), len(funded))
	}
	must, may := mk.expected(c, from, to, t0, t1)
	mk.CheckSubs(n.K, key, rep, c, subs, must, may)
	n.K.Count("lookups", 1)
	n.K.Count("offers served", len(subs))
}

// LookupGateway asks as another gateway does (first version).
func (n *Node) LookupGateway(mk *Market, conn *Conn, by *Party, c *cid.ContentID, nonce int64, rep interface{}) {
	req := by.Sign(fcrmessages.EncodeGatewayDHTDiscoverRequest(by.ID, c, nonce, time.Now().Unix()+100, "", ""))
	from, t0 := mk.Tick(), time.Now()
	err := conn.Send(req)
	var a *Msg
	if err == nil {
		a, err = conn.Recv(60 * time.Second)
	}
	to, t1 := mk.Tick(), time.Now()
	if IsRefusal(a, err) {
		if n.Alive() {
			n.K.Violate("dht-lookup:refused", rep, "a lookup by a registered gateway was refused: %v %v", Text(a), err)
		}
		return
	}
	if err := a.Verify(n.Pub); err != nil {
		n.K.Violate("dht-lookup:unsigned", rep, "the answer to a lookup is not signed by the gateway: %v", err)
		return
	}
	pc, gotNonce, found, subs, funded, err := fcrmessages.DecodeGatewayDHTDiscoverResponse(a)
	if err != nil {
		n.K.Violate("dht-lookup:undecodable", rep, "the answer to a lookup cannot be decoded: %v", err)
		return
	}
	n.lookup(mk, "dht-lookup", rep, c, nonce, pc, gotNonce, found, subs, funded, from, to, t0, t1)
}

// Purse pays a recipient over one channel.
type Purse struct {
	mu    sync.Mutex
	Acc   *lotus.Account
	Chan  *lotus.Channel
	lanes map[uint64]*purseLane
}

type purseLane struct {
	nonce uint64
	total *big.Int
}

// NewPurse opens a channel.
func NewPurse(chain *lotus.Node, to *lotus.Account, balance int64) *Purse {
	a := chain.NewAccount()
	return &Purse{Acc: a, Chan: chain.Open(a, to, big.NewInt(balance)), lanes: map[uint64]*purseLane{}}
}

// Addr of the channel.
func (p *Purse) Addr() string { return p.Chan.Addr.String() }

// Next makes the voucher that pays so much more in a lane.
func (p *Purse) Next(lane uint64, amount int64) string {
	p.mu.Lock()
	defer p.mu.Unlock()
	l := p.lanes[lane]
	if l == nil {
		l = &purseLane{0, new(big.Int)}
		p.lanes[lane] = l
	}
	l.total.Add(l.total, big.NewInt(amount))
	v := p.Voucher(p.Acc, lane, l.nonce, l.total)
	l.nonce++
	return v
}

// Voucher makes any voucher for the channel.
func (p *Purse) Voucher(by *lotus.Account, lane, nonce uint64, total *big.Int) string {
	sv := &paych.SignedVoucher{ChannelAddr: p.Chan.Addr, Lane: lane, Nonce: nonce, Amount: types.BigInt{Int: new(big.Int).Set(total)}}
	by.SignVoucher(sv)
	return lotus.Encode(sv)
}

// Total paid in all lanes.
func (p *Purse) Total() *big.Int {
	p.mu.Lock()
	defer p.mu.Unlock()
	t := new(big.Int)
	for _, l := range p.lanes {
		t.Add(t, l.total)
	}
	return t
}

// Shuffled copies and shuffles digests.
func Shuffled(r *rand.Rand, l []string) []string {
	c := append([]string(nil), l...)
	r.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
	return c
}

// SortedText joins strings in order.
func SortedText(l []string) string {
	c := append([]string(nil), l...)
	sort.Strings(c)
	return strings.Join(c, ",")
}
