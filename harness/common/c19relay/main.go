//go:build go1.22

// C19: the real gateway program, asked by clients to ask others: it asks exactly the gateways meant, passes on what they
// said and nothing else, reports the rest as not reached, and pays what it must and no more.
package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/lotus"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
)

var ring = new(big.Int).Lsh(big.NewInt(1), 256)

func num(h string) *big.Int {
	b, err := hex.DecodeString(h)
	fakes.Must(err)
	return new(big.Int).SetBytes(b)
}

func circ(a, b string) *big.Int {
	x := new(big.Int).Mod(new(big.Int).Sub(num(b), num(a)), ring)
	y := new(big.Int).Sub(ring, x)
	if x.Cmp(y) < 0 {
		return x
	}
	return y
}

// exchange is one request a peer got, and what it answered.
type exchange struct {
	req, answer *svc.Msg
	at          string // the CID
	how         string
}

type peer struct {
	*svc.Peer
	w    *world
	id   string
	mu   sync.Mutex
	mode string // how it behaves
	log  []*exchange
	due  *big.Int // what the gateway may have promised at most
	bad  int      // requests that may have failed
	wal  *lotus.Account
	down bool
	told map[string]bool
}

type world struct {
	k      *kit.K
	reg    *fakes.Register
	chain  *lotus.Node
	gw     *svc.Node
	mk     *svc.Market
	peers  []*peer
	byID   map[string]*peer
	search *big.Int
	offer  *big.Int
	top    *big.Int
	delays bool
	faulty bool // the chain fails: questions may be refused
	pay    sync.Mutex
}

func (p *peer) set(mode string) { p.mu.Lock(); p.mode = mode; p.mu.Unlock() }

func (p *peer) take() []*exchange {
	p.mu.Lock()
	defer p.mu.Unlock()
	l := p.log
	p.log = nil
	return l
}

func digestFor(id, c string, n int64) string {
	var d [cidoffer.CIDOfferDigestSize]byte
	copy(d[:], fmt.Sprintf("%.12s%.12s%d", id, c, n))
	return cidoffer.EncodeMessageDigest(d)
}

// answer is what the peer says.
func (p *peer) answer(_ *svc.Conn, m *svc.Msg) *svc.Msg {
	w, k := p.w, p.w.k
	e := &exchange{req: m}
	p.mu.Lock()
	mode := p.mode
	p.mu.Unlock()
	if err := m.Verify(w.gw.Pub); err != nil {
		k.Violate("relay:unsigned", svc.Text(m), "a gateway was asked with a message that is not signed by the gateway: %v", err)
	}
	var a *svc.Msg
	var err error
	var price *big.Int
	var ch, voucher string
	r := rand.New(rand.NewSource(time.Now().UnixNano()))
	switch m.GetMessageType() {
	case fcrmessages.GatewayDHTDiscoverRequestType:
		id, c, nonce, ttl, _, _, derr := fcrmessages.DecodeGatewayDHTDiscoverRequest(m)
		fakes.Must(derr)
		p.identity(id, ttl)
		e.at = c.ToString()
		a, err = fcrmessages.EncodeGatewayDHTDiscoverResponse(c, nonce, false, []cidoffer.SubCIDOffer{}, []bool{})
	case fcrmessages.GatewayDHTDiscoverRequestV2Type:
		var id *nodeid.NodeID
		var c *cid.ContentID
		var nonce, ttl int64
		id, c, nonce, ttl, ch, voucher, err = fcrmessages.DecodeGatewayDHTDiscoverRequestV2(m)
		fakes.Must(err)
		p.identity(id, ttl)
		e.at, price = c.ToString(), w.search
		a, err = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(c, nonce, true, []string{digestFor(p.id, e.at, r.Int63())}, []bool{false}, false, "")
	case fcrmessages.GatewayDHTDiscoverOfferRequestType:
		var c *cid.ContentID
		var nonce int64
		var digests []string
		c, nonce, digests, ch, voucher, err = fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(m)
		fakes.Must(err)
		e.at = c.ToString() + fmt.Sprint(nonce) + strings.Join(digests, ",")
		price = new(big.Int).Mul(w.offer, big.NewInt(int64(len(digests))))
		a, err = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(c, nonce, false, []cidoffer.SubCIDOffer{}, []bool{}, false, "")
	default:
		k.Violate("relay:kind", svc.Text(m), "a gateway was sent a message of type %d", m.GetMessageType())
		return nil
	}
	fakes.Must(err)
	if price != nil {
		p.paid(ch, voucher, price)
	}
	fakes.Must(a.Sign(p.Key, p.Ver))
	e.how = mode
	if w.delays {
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
	}
	switch mode {
	case "honest":
	case "unsigned":
		a = svc.Resigned(a, "")
	case "other-key":
		o := w.peers[0]
		if o == p {
			o = w.peers[1]
		}
		fakes.Must(a.Sign(o.Key, o.Ver))
	case "gateway-key":
		fakes.Must(a.Sign(w.gw.Key, w.gw.Ver))
	case "cut-signature":
		a = svc.Resigned(a, a.GetSignature()[:20])
	case "refusal":
		a, err = fcrmessages.EncodeInvalidMessageResponse()
		fakes.Must(err)
	case "hangup":
		a = nil
	case "silent":
		p.mu.Lock()
		p.log = append(p.log, e)
		p.mu.Unlock()
		time.Sleep(8 * time.Second)
		return nil
	}
	e.answer = a
	p.mu.Lock()
	p.log = append(p.log, e)
	p.mu.Unlock()
	return a
}

func (p *peer) identity(id *nodeid.NodeID, ttl int64) {
	if id.ToString() != p.w.gw.ID.ToString() {
		p.w.k.Violate("relay:name", nil, "gateway %s asks others as %s", p.w.gw.ID.ToString(), id.ToString())
	}
	if ttl < time.Now().Unix()-1 {
		p.w.k.Violate("relay:expired", nil, "a gateway was asked with a question that has expired")
	}
}

// paid checks the voucher that came with a request.
func (p *peer) paid(ch, voucher string, price *big.Int) {
	w, k := p.w, p.w.k
	if price.Sign() == 0 {
		return
	}
	sv, err := paych.DecodeSignedVoucher(voucher)
	if err != nil {
		k.Violate("pay:voucher", voucher, "a gateway was asked with a voucher that cannot be read: %v", err)
		return
	}
	if !strings.HasPrefix(ch, "f") && !strings.HasPrefix(ch, "t") || sv.ChannelAddr.String()[1:] != ch[1:] {
		k.Violate("pay:channel", ch, "a gateway was asked with a voucher for channel %s that is said to be for %s", sv.ChannelAddr, ch)
	}
	w.pay.Lock() // peers may share an account
	defer w.pay.Unlock()
	var c *lotus.Channel
	for _, x := range w.chain.Between(w.gw.Wal, p.wal) {
		if x.Addr == sv.ChannelAddr {
			c = x
		}
	}
	if c == nil {
		k.Violate("pay:channel", ch, "a gateway was asked with a voucher for channel %s, which is not from the gateway to it", sv.ChannelAddr)
		return
	}
	before := w.chain.Redeemed(c)
	if err := w.chain.Redeem(c.Addr.String(), voucher); err != nil {
		k.Violate("pay:redeem", voucher, "a gateway was asked with a voucher that it cannot redeem: %v", err)
		return
	}
	got := new(big.Int).Sub(w.chain.Redeemed(c), before)
	if got.Cmp(price) < 0 {
		k.Violate("pay:short", nil, "a gateway was asked for a price of %s and paid %s", price, got)
	}
	k.Count("vouchers redeemed", 1)
	if rest := new(big.Int).Mod(w.chain.BalanceOf(c), w.top); rest.Sign() != 0 {
		k.Violate("pay:topup", nil, "a channel of the gateway holds %s, with every top up being of %s", w.chain.BalanceOf(c), w.top)
	}
}

func newWorld(k *kit.K, r *rand.Rand, peers int, timeout string) *world {
	w := &world{k: k, reg: fakes.NewRegister(), chain: lotus.New(r), mk: svc.NewMarket(), byID: map[string]*peer{}, search: big.NewInt(int64(1 + r.Intn(100000))), offer: big.NewInt(int64(1 + r.Intn(10000)))}
	top := new(big.Int).Mul(w.search, big.NewInt(int64(3+r.Intn(20))))
	top.Add(top, new(big.Int).Mul(w.offer, big.NewInt(40)))
	w.gw = svc.Start(k, "gateway", r, w.reg.URL, map[string]string{"SEARCH_PRICE": w.search.String(), "OFFER_PRICE": w.offer.String(), "TOPUP_AMOUNT": top.String(), "TCP_INACTIVITY_TIMEOUT": timeout})
	w.top = top
	for i := 0; i < peers; i++ {
		w.join(r)
	}
	// the gateway is in the register, too
	w.reg.SetGateway(fakes.GatewayEntry(w.gw.ID.ToString(), w.gw.Key, w.gw.GW, w.gw.Prov, w.gw.REST, w.gw.Admin))
	w.reg.Junk(r, r.Intn(3)*r.Intn(5))
	w.gw.MustInit(w.chain)
	w.gw.Refresh()
	return w
}

func (w *world) join(r *rand.Rand) *peer {
	p := &peer{w: w, mode: "honest", due: new(big.Int)}
	if len(w.peers) > 0 && r.Intn(4) == 0 { // of the same owner
		p.wal = w.peers[r.Intn(len(w.peers))].wal
		w.k.Count("gateways of one owner", 1)
	} else {
		p.wal = w.chain.NewAccount()
	}
	p.Peer = svc.NewPeer(r, p.answer)
	p.id = p.ID.ToString()
	e := fakes.GatewayEntry(p.id, p.Key, p.Addr, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1")
	e.Address = p.wal.Addr.String()
	w.reg.SetGateway(e)
	w.peers = append(w.peers, p)
	w.byID[p.id] = p
	return p
}

func (w *world) close() {
	w.gw.Stop()
	for _, p := range w.peers {
		p.Close()
	}
	w.reg.Close()
	w.chain.Close()
}

// nearest tells which peers must be asked for n gateways near a CID.
func (w *world) nearest(c string, n int64) []*peer {
	l := append([]*peer(nil), w.peers...)
	sort.Slice(l, func(i, j int) bool { return circ(c, l[i].id).Cmp(circ(c, l[j].id)) < 0 })
	if n > 16 {
		n = 16
	}
	if n < 0 {
		n = 0
	}
	if int(n) < len(l) {
		l = l[:n]
	}
	return l
}

func same(a, b *svc.Msg) bool {
	x, _ := a.FCRMsgToBytes()
	y, _ := b.FCRMsgToBytes()
	return bytes.Equal(x, y)
}

// check compares an answer with what the peers meant heard and said since the last question.
func (w *world) check(q *svc.Query, p *svc.Reply, meant []*peer, lists [][]string, unknown []string) {
	k := w.k
	key := q.Kind
	if !w.gw.Alive() {
		return
	}
	if (p.Msg == nil || p.PayReq) && w.faulty {
		for _, x := range w.peers {
			x.take()
			x.mu.Lock()
			if x.mode != "honest" {
				x.bad++
			}
			x.mu.Unlock()
		}
		k.Count("refused while the chain failed", 1)
		return
	}
	if p.Msg == nil || p.PayReq {
		k.Violate("refused:"+key, q.String(), "a paid question (%s) was refused: %s", q, p.Status)
		return
	}
	if len(p.Contacted) != len(p.Responses) {
		k.Violate("inconsistent:"+key, q.String(), "%d gateways contacted, %d responses", len(p.Contacted), len(p.Responses))
		return
	}
	heard := map[string][]*exchange{}
	for _, x := range w.peers {
		for _, e := range x.take() {
			heard[x.id] = append(heard[x.id], e)
		}
	}
	times := map[string]int{}
	for _, x := range meant {
		times[x.id]++
	}
	reported := map[string]int{}
	used := map[*exchange]bool{}
	for i, c := range p.Contacted {
		id := c.ToString()
		reported[id]++
		x := w.byID[id]
		if times[id] == 0 || x == nil {
			k.Violate("not-meant:"+key, q.String(), "gateway %s was contacted, which was not meant (%s)", id, q)
			continue
		}
		if err := p.Responses[i].Verify(x.Pub); err != nil {
			k.Violate("response:unsigned:"+key, q.String(), "the response passed on for a gateway is not signed by it: %v", err)
			continue
		}
		found := false
		for _, e := range heard[id] {
			if e.answer != nil && !used[e] && same(e.answer, &p.Responses[i]) {
				used[e], found = true, true
				if want := w.at(q, lists, meant, x); want != nil && !want[e.at] {
					k.Violate("question:"+key, q.String(), "a gateway was asked for %.400s instead of one of %v", e.at, want)
				}
				break
			}
		}
		if !found {
			k.Violate("response:"+key, q.String(), "the response passed on for gateway %s is not what it said: %s", id, svc.Text(&p.Responses[i]))
		}
		k.Count("responses passed on", 1)
	}
	for _, c := range p.Failed {
		reported[c.ToString()]++
		if times[c.ToString()] == 0 {
			k.Violate("not-meant:"+key, q.String(), "gateway %s is reported as not reached, which was not meant", c.ToString())
		}
		k.Count("gateways not reached", 1)
	}
	for _, x := range meant {
		if q.Kind != svc.DHTOffers && reported[x.id] != times[x.id] {
			k.Violate("unreported:"+key, q.String(), "gateway %s was meant %d times and is reported %d times", x.id, times[x.id], reported[x.id])
		}
		if reported[x.id] > times[x.id] {
			k.Violate("twice:"+key, q.String(), "gateway %s was meant %d times and is reported %d times", x.id, times[x.id], reported[x.id])
		}
	}
	for id, es := range heard {
		if len(es) > times[id] {
			k.Violate("asked-too-often:"+key, q.String(), "gateway %s was meant %d times and asked %d times", id, times[id], len(es))
		}
	}
	// who behaves must be passed on
	for _, x := range meant {
		n := 0
		for _, c := range p.Contacted {
			if c.ToString() == x.id {
				n++
			}
		}
		x.mu.Lock()
		honest := x.mode == "honest" && !x.down
		if !honest {
			x.bad++
		} else if x.bad > 0 { // its old connection may have been found broken
			x.bad = 0
			honest = false
		}
		x.mu.Unlock()
		if honest && n == 0 {
			k.Violate("lost:"+key, q.String(), "gateway %s answered well, and is not passed on (asked %d times)", x.id, len(heard[x.id]))
		}
	}
	k.Count("answered "+key, 1)
	k.Eval(q.String())
}

// at is what a peer may be asked for a question.
func (w *world) at(q *svc.Query, lists [][]string, meant []*peer, x *peer) map[string]bool {
	if q.Kind != svc.DHTOffers {
		return map[string]bool{q.C.ToString(): true}
	}
	m := map[string]bool{}
	for i, p := range meant {
		if p == x {
			m[q.C.ToString()+fmt.Sprint(q.Nonce)+strings.Join(lists[i], ",")] = true
		}
	}
	return m
}

func (w *world) spend(p *peer, v *big.Int) { p.mu.Lock(); p.due.Add(p.due, v); p.mu.Unlock() }

// books: what was promised to each peer is never more than the price of what was meant for it.
func (w *world) books() {
	due := map[*lotus.Account]*big.Int{}
	for _, p := range w.peers {
		if due[p.wal] == nil {
			due[p.wal] = new(big.Int)
		}
		p.mu.Lock()
		due[p.wal].Add(due[p.wal], p.due)
		p.mu.Unlock()
	}
	for _, p := range w.peers {
		got := new(big.Int)
		for _, c := range w.chain.Between(w.gw.Wal, p.wal) {
			got.Add(got, w.chain.Redeemed(c))
		}
		if got.Cmp(due[p.wal]) > 0 {
			w.k.Violate("pay:over", nil, "the questions meant for gateway %s (and others of its owner) were worth %s, it was paid %s", p.id, due[p.wal], got)
		}
	}
	w.k.Count("books checked", len(w.peers))
}

// ask makes a question, and everything that goes with it.
func (w *world) make(r *rand.Rand, kind string, purse *svc.Purse) (q *svc.Query, meant []*peer, lists [][]string, unknown []string) {
	q = &svc.Query{Kind: kind, C: fakes.NewCID(r), Nonce: fakes.RandInt64(r)}
	pay := new(big.Int)
	switch kind {
	case svc.DHT1, svc.DHT2:
		q.Num = int64(r.Intn(len(w.peers) + 3))
		switch r.Intn(12) {
		case 0:
			q.Num = 40
		case 1:
			q.Num = 16
		case 2:
			q.Num = -int64(r.Intn(3))
		}
		meant = w.nearest(q.C.ToString(), q.Num)
		if q.Num > 0 {
			pay.Mul(w.search, big.NewInt(q.Num))
		}
		if kind == svc.DHT2 {
			for _, p := range meant {
				w.spend(p, w.search)
			}
		}
	case svc.DHTOffers:
		n := 0
		for i := r.Intn(6); i >= 0; i-- {
			var l []string
			for j := r.Intn(5); j >= 0; j-- {
				l = append(l, digestFor("x", "y", r.Int63()))
			}
			n += len(l)
			q.Lists = append(q.Lists, l)
			if r.Intn(6) == 0 {
				x := fakes.NewNode(r)
				q.Targets = append(q.Targets, *x)
				unknown = append(unknown, x.ToString())
				continue
			}
			p := w.peers[r.Intn(len(w.peers))]
			q.Targets = append(q.Targets, *p.ID)
			meant = append(meant, p)
			lists = append(lists, l)
			w.spend(p, new(big.Int).Mul(w.offer, big.NewInt(int64(len(l)))))
		}
		pay.Mul(w.offer, big.NewInt(int64(n)))
	}
	if q.Paid() {
		v := pay.Int64()
		if v == 0 {
			v = 1
		}
		q.Chan, q.Voucher = purse.Addr(), purse.Next(0, v)
	}
	return
}

var dhtKinds = []string{svc.DHT1, svc.DHT2, svc.DHT2, svc.DHTOffers}

func history(k *kit.K, seq, steps int) {
	r := k.Sub("history", seq)
	w := newWorld(k, r, 3+r.Intn(8), "3s")
	defer w.close()
	purse := svc.NewPurse(w.chain, w.gw.Wal, 1<<60)
	modes := []string{"unsigned", "other-key", "gateway-key", "cut-signature", "refusal", "hangup"}
	silent := 0
	for i := 0; i < steps && w.gw.Alive() && k.Violations() == 0; i++ {
		switch r.Intn(9) {
		case 8: // the chain fails, also for one that has no channel yet; what is left over from it must not last
			if len(w.peers) >= 20 {
				break
			}
			w.join(r)
			w.gw.Refresh()
			w.faulty = true
			method := []string{"MpoolPush", "MpoolGetNonce", "GasEstimateGasLimit"}[r.Intn(3)]
			w.chain.Fail(method, errors.New("failing"))
			for _, kind := range []string{svc.DHT2, svc.DHTOffers} {
				q, meant, lists, unknown := w.make(r, kind, purse)
				w.check(q, w.gw.Ask(w.mk, q), meant, lists, unknown)
			}
			w.chain.Fail(method, nil)
			w.faulty = false
			k.Count("failures of the chain", 1)
		case 0:
			p := w.peers[r.Intn(len(w.peers))]
			p.set(modes[r.Intn(len(modes))])
		case 1, 2:
			p := w.peers[r.Intn(len(w.peers))]
			p.set("honest")
		case 3:
			p := w.peers[r.Intn(len(w.peers))]
			if silent < 2 {
				p.set("silent")
				silent++
				q, meant, lists, unknown := w.make(r, dhtKinds[r.Intn(len(dhtKinds))], purse)
				w.check(q, w.gw.Ask(w.mk, q), meant, lists, unknown)
				p.set("honest")
				continue
			}
		case 4:
			if len(w.peers) < 20 {
				w.join(r)
				w.gw.Refresh()
			}
		case 5:
			if r.Intn(4) == 0 {
				p := w.peers[r.Intn(len(w.peers))]
				if !p.down {
					p.Close()
					p.mu.Lock()
					p.down = true
					p.mu.Unlock()
				}
			}
		case 6:
			p := w.peers[r.Intn(len(w.peers))]
			p.Hangup() // while idle: found broken with the next request
			p.mu.Lock()
			p.bad++
			p.mu.Unlock()
		}
		q, meant, lists, unknown := w.make(r, dhtKinds[r.Intn(len(dhtKinds))], purse)
		w.check(q, w.gw.Ask(w.mk, q), meant, lists, unknown)
		w.books()
	}
}

func concurrent(k *kit.K, seq, each int) {
	r := k.Sub("concurrent", seq)
	w := newWorld(k, r, 7, "20s")
	w.delays = true
	defer w.close()
	var order kit.Interleavings
	k.Parallel("concurrent", 8, func(i int) {
		r := k.Sub("concurrent-worker", seq*100+i)
		purse := svc.NewPurse(w.chain, w.gw.Wal, 1<<60)
		for j := 0; j < each && w.gw.Alive(); j++ {
			if i == 7 && j%3 == 0 {
				w.gw.Refresh()
			}
			kind := dhtKinds[r.Intn(len(dhtKinds))]
			q, meant, lists, _ := w.make(r, kind, purse)
			p := w.gw.Ask(w.mk, q)
			if !w.gw.Alive() {
				return
			}
			if p.Msg == nil || len(p.Contacted) != len(p.Responses) {
				k.Violate("refused:"+kind, q.String(), "a paid question (%s) was refused: %s", q, p.Status)
				continue
			}
			want, got := map[string]int{}, map[string]int{}
			for _, x := range meant {
				want[x.id]++
			}
			for n, c := range p.Contacted {
				id := c.ToString()
				got[id]++
				x := w.byID[id]
				if x == nil || want[id] == 0 {
					k.Violate("not-meant:"+kind, q.String(), "gateway %s was contacted, which was not meant", id)
					continue
				}
				if err := p.Responses[n].Verify(x.Pub); err != nil {
					k.Violate("response:unsigned:"+kind, q.String(), "the response passed on for a gateway is not signed by it: %v", err)
					continue
				}
				var at *cid.ContentID
				var nonce int64
				var err error
				switch kind {
				case svc.DHT1:
					at, _, _, _, _, err = fcrmessages.DecodeGatewayDHTDiscoverResponse(&p.Responses[n])
				case svc.DHT2:
					at, _, _, _, _, _, _, err = fcrmessages.DecodeGatewayDHTDiscoverResponseV2(&p.Responses[n])
				default:
					at, nonce, _, _, _, _, _, err = fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(&p.Responses[n])
				}
				if err != nil || at.ToString() != q.C.ToString() || kind == svc.DHTOffers && nonce != q.Nonce {
					k.Violate("response:mixed-up:"+kind, q.String(), "the response passed on belongs to another question: %v %s", err, svc.Text(&p.Responses[n]))
				}
				k.Count("responses passed on", 1)
			}
			for id, n := range want {
				if got[id] != n {
					k.Violate("lost:"+kind, q.String(), "gateway %s was meant %d times and is passed on %d times; not reached %d (%s)", id, n, got[id], len(p.Failed), q)
				}
			}
			order.Add(fmt.Sprint(i))
			k.Count("answered "+kind, 1)
			k.Eval(q.String())
			_ = lists
		}
	})
	w.books()
	k.Eval("order " + order.Key())
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C19", func(k *kit.K) {
		if os.Getenv("VERIF_SCRATCH") == "" {
			k.Inconclusive("no scratch directory")
			return
		}
		for _, kind := range []string{svc.DHT1, svc.DHT2, svc.DHTOffers} {
			k.Floor("answered "+kind, 10)
		}
		k.Floor("responses passed on", 100)
		k.Floor("vouchers redeemed", 50)
		if k.Args["mode"] == "concurrent" {
			for i := 0; i < k.N(2, 8); i++ {
				concurrent(k, i, k.N(20, 40))
			}
			return
		}
		k.Floor("gateways not reached", 10)
		k.Floor("failures of the chain", 5)
		k.Floor("refused while the chain failed", 4)
		k.Floor("gateways of one owner", 4)
		k.Parallel("histories", k.N(4, 8), func(i int) {
			for j := 0; j < k.N(1, 4); j++ {
				history(k, i*100+j, k.N(40, 100))
			}
		})
	})
}
