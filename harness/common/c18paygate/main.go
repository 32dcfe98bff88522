//go:build go1.22

// C18: the real gateway program in front of clients and gateways that pay, underpay and cheat: a paid service is given
// exactly for a voucher that is worth its price when it arrives.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/lotus"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
)

var kinds = []string{svc.Client2, svc.ClientOffers, svc.GW2, svc.GWOffers, svc.DHT2, svc.DHTOffers}

type world struct {
	k             *kit.K
	reg           *fakes.Register
	chain         *lotus.Node
	gw            *svc.Node
	mk            *svc.Market
	prov, asker   *svc.Party
	cids          []*cid.ContentID
	search, offer *big.Int
	stranger      *lotus.Account
	peer          *svc.Peer // the only other gateway
}

func price(r *rand.Rand, large bool) *big.Int {
	if large { // more than 64 bits hold, or a few times it
		p := new(big.Int).Lsh(big.NewInt(1), uint(60+r.Intn(30)))
		return p.Add(p, big.NewInt(r.Int63()))
	}
	if r.Intn(3) == 0 {
		return big.NewInt(int64(1 + r.Intn(5)))
	}
	return big.NewInt(int64(10 + r.Intn(100000)))
}

func newWorld(k *kit.K, r *rand.Rand, seq int) *world {
	w := &world{k: k, reg: fakes.NewRegister(), chain: lotus.New(r), mk: svc.NewMarket(), prov: svc.NewParty(r), search: price(r, seq%2 == 1), offer: price(r, seq%4 > 1)}
	w.stranger = w.chain.NewAccount()
	w.peer = svc.NewPeer(r, func(c *svc.Conn, m *svc.Msg) *svc.Msg { return nil })
	w.asker = &svc.Party{ID: w.peer.ID, Key: w.peer.Key, Pub: w.peer.Pub, Ver: w.peer.Ver}
	w.reg.SetProvider(fakes.ProviderEntry(w.prov.ID.ToString(), w.prov.Key, "127.0.0.1:1", "127.0.0.1:2", "127.0.0.1:3"))
	w.gw = svc.Start(k, "gateway", r, w.reg.URL, map[string]string{"SEARCH_PRICE": w.search.String(), "OFFER_PRICE": w.offer.String(), "TOPUP_AMOUNT": new(big.Int).Mul(big.NewInt(100), new(big.Int).Add(w.search, w.offer)).String()})
	w.reg.Junk(r, r.Intn(3)*r.Intn(5))
	w.gw.MustInit(w.chain)
	g := fakes.GatewayEntry(w.asker.ID.ToString(), w.asker.Key, w.peer.Addr, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1")
	g.Address = w.chain.NewAccount().Addr.String()
	w.reg.SetGateway(g)
	w.gw.Refresh()
	c, err := svc.Dial(w.gw.Prov)
	fakes.Must(err)
	defer c.C.Close()
	for i := 0; i < 3; i++ {
		w.cids = append(w.cids, fakes.NewCID(r))
		for j := 0; j < 4; j++ {
			if ok, _, _ := w.gw.PublishGroup(w.mk, c, w.prov, w.prov.Offer(r, w.cids[i]), 1); !ok {
				k.Violate("publication-refused", nil, "a genuine publication was refused")
			}
		}
	}
	return w
}

func (w *world) close() { w.gw.Stop(); w.peer.Close(); w.reg.Close(); w.chain.Close() }

// question of a kind, and its price.
func (w *world) question(r *rand.Rand, kind string) (*svc.Query, *big.Int) {
	q := &svc.Query{Kind: kind, C: w.cids[r.Intn(len(w.cids))], Nonce: fakes.RandInt64(r), By: w.asker}
	n := 0
	digests := func() (l []string) {
		for _, d := range w.mk.Deals() {
			if d.Has(q.C) && r.Intn(3) > 0 {
				l = append(l, d.Digest)
			}
		}
		for i := r.Intn(3); i > 0; i-- { // to be paid for all the same
			l = append(l, cidoffer.EncodeMessageDigest([cidoffer.CIDOfferDigestSize]byte{byte(r.Intn(256))}))
		}
		if r.Intn(3) == 0 && len(l) > 0 { // asked for twice, charged twice
			for i := 1 + r.Intn(3); i > 0; i-- {
				l = append(l, l[r.Intn(len(l))])
			}
		}
		n += len(l)
		return svc.Shuffled(r, l)
	}
	switch kind {
	case svc.ClientOffers, svc.GWOffers:
		q.Digests = digests()
		return q, new(big.Int).Mul(w.offer, big.NewInt(int64(n)))
	case svc.DHTOffers:
		for i := r.Intn(4); i >= 0; i-- { // gateways that cannot be reached: nothing is spent on them
			q.Targets = append(q.Targets, *fakes.NewNode(r))
			if r.Intn(5) == 0 {
				q.Lists = append(q.Lists, []string{})
				continue
			}
			q.Lists = append(q.Lists, digests())
		}
		return q, new(big.Int).Mul(w.offer, big.NewInt(int64(n)))
	case svc.DHT2:
		q.Num = int64(r.Intn(20))
		q.C = fakes.NewCID(r)
		return q, new(big.Int).Mul(w.search, big.NewInt(q.Num))
	}
	return q, new(big.Int).Set(w.search)
}

func twice(l []string) bool {
	seen := map[string]bool{}
	for _, d := range l {
		if seen[d] {
			return true
		}
		seen[d] = true
	}
	return false
}

func served(q *svc.Query, p *svc.Reply) bool { return p.Msg != nil && !p.PayReq }

// ask asks and checks that it is served, or not.
func (w *world) ask(q *svc.Query, want bool, what string, price, worth *big.Int) {
	k := w.k
	p := w.gw.Ask(w.mk, q)
	if !w.gw.Alive() {
		return
	}
	got := served(q, p)
	rep := fmt.Sprintf("%s; price %s, voucher (%s) worth %v", q, price, what, worth)
	k.Eval(rep)
	switch {
	case got && !want:
		k.Violate("unpaid:"+q.Kind+":"+what, rep, "a service with price %s was given for a voucher (%s) worth %v: %s\n%s", price, what, worth, q, svc.Text(p.Msg))
	case !got && want:
		k.Violate("refused:"+q.Kind, rep, "a service with price %s was refused for a voucher (%s) worth %v: %s\n%s", price, what, worth, q, p.Status)
	case got:
		if q.Relayed() {
			if len(p.Contacted) > 0 && q.Kind == svc.DHTOffers {
				k.Violate("contacted:"+q.Kind, rep, "gateways that do not exist were contacted")
			}
		} else if !twice(q.Digests) {
			w.gw.CheckServed(w.mk, q, p)
		}
		k.Count("served "+q.Kind, 1)
		w.peer.Take()
	default:
		if asked := w.peer.Take(); len(asked) > 0 {
			k.Violate("unpaid-relay:"+q.Kind, rep, "an underpaid question was refused, but another gateway was asked: %s", svc.Text(asked[0]))
		}
		if p.Msg != nil && (len(p.Subs)+len(p.Digests)+len(p.Responses)+len(p.Contacted) > 0 || p.Found && q.ForOffers()) {
			k.Violate("unpaid-answer:"+q.Kind, rep, "the refusal of an underpaid question has offers: %s", svc.Text(p.Msg))
		}
		if p.Msg != nil && p.PayChan != q.Chan {
			k.Violate("refusal-channel:"+q.Kind, rep, "paid over channel %q, payment is demanded over %q", q.Chan, p.PayChan)
		}
		k.Count("unserved "+q.Kind, 1)
		k.Count("unserved "+what, 1)
	}
}

type account struct {
	p *svc.Purse
	l *svc.Ledger
}

func (w *world) account(balance *big.Int) *account {
	a := &account{p: svc.NewPurse(w.chain, w.gw.Wal, 1), l: svc.NewLedger(balance)}
	w.chain.Do(func() { a.p.Chan.Balance.Set(balance) })
	return a
}

func history(k *kit.K, seq, steps int) {
	r := k.Sub("history", seq)
	w := newWorld(k, r, seq)
	defer w.close()
	unit := new(big.Int).Add(w.search, w.offer)
	big0 := new(big.Int).Mul(unit, big.NewInt(100000))
	accs := []*account{w.account(big0), w.account(new(big.Int).Mul(unit, big.NewInt(30)))}
	type old struct {
		ch, v string
	}
	var used []old
	for i := 0; i < steps && w.gw.Alive(); i++ {
		a := accs[r.Intn(len(accs))]
		q, price := w.question(r, kinds[r.Intn(len(kinds))])
		lane := uint64(r.Intn(3))
		nonce, total := a.l.State(lane)
		q.Chan = a.p.Addr()
		pay := new(big.Int).Set(price)
		what := "exact"
		genuine, malformed := true, false
		by := a.p.Acc
		switch r.Intn(17) {
		case 16:
			if q.Kind == svc.Client2 || q.Kind == svc.ClientOffers || q.Kind == svc.DHT2 || q.Kind == svc.GW2 {
				what, malformed = "too late", true // it is not even looked at
				q.TTL = -[]int64{1, 1, 100, 1 << 30}[r.Intn(4)]
			}
		case 0, 1:
			what, pay = "one less", pay.Sub(pay, big.NewInt(1))
		case 2:
			what, pay = "one more", pay.Add(pay, big.NewInt(1))
		case 3:
			what, pay = "half", pay.Rsh(pay, 1)
		case 4:
			what, pay = "one", big.NewInt(1)
		case 5:
			what, pay = "nothing", new(big.Int)
		case 6:
			what, pay = "more", pay.Mul(pay, big.NewInt(int64(2+r.Intn(5))))
		case 7:
			if nonce > 0 {
				what, nonce = "old nonce", nonce-1
			}
		case 8:
			what, nonce = "later nonce", nonce+uint64(r.Intn(4))
		case 9:
			what, pay = "over the balance", new(big.Int).Add(pay, new(big.Int).Sub(a.l.Balance, a.l.Credited))
		case 10:
			what, genuine, by = "stranger's", false, w.stranger
		case 11:
			if len(used) > 0 {
				u := used[r.Intn(len(used))]
				q.Chan, q.Voucher = u.ch, u.v
				what, genuine = "used before", false
			}
		case 12: // for another channel
			what, genuine = "for another channel", false
			b := accs[0]
			if a == b {
				b = accs[1]
			}
			q.Voucher = b.p.Voucher(b.p.Acc, lane, 1<<20, new(big.Int).Mul(unit, big.NewInt(1<<40)))
		case 13:
			what, genuine = "garbage", false
			q.Voucher = "?" + fakes.RandString(r)
			if r.Intn(2) == 0 {
				q.Chan = fakes.RandString(r)
			}
		case 14:
			if r.Intn(3) == 0 {
				add := new(big.Int).Mul(unit, big.NewInt(20))
				w.chain.Do(func() { a.p.Chan.Balance.Add(a.p.Chan.Balance, add) })
				a.l.Balance.Add(a.l.Balance, add)
			}
		case 15: // it is refused, and the voucher stays good
			if q.Kind == svc.DHTOffers {
				what, malformed = "lists missing", true
				q.Lists = q.Lists[:r.Intn(len(q.Lists))]
			}
		}
		total.Add(total, pay)
		var worth *big.Int
		if malformed {
			q.Voucher = a.p.Voucher(a.p.Acc, lane, nonce, total)
		} else if genuine {
			worth = a.l.Submit(lane, nonce, total)
			q.Voucher = a.p.Voucher(a.p.Acc, lane, nonce, total)
			if worth != nil {
				used = append(used, old{q.Chan, q.Voucher})
			}
		} else if q.Voucher == "" {
			q.Voucher = a.p.Voucher(by, lane, nonce, total)
		}
		w.ask(q, worth != nil && worth.Cmp(price) >= 0, what, price, worth)
	}
}

// concurrent: one voucher presented many times at once buys one service; and a channel buys no more than it holds.
func concurrent(k *kit.K, seq, rounds int) {
	r := k.Sub("concurrent", seq)
	w := newWorld(k, r, seq)
	defer w.close()
	var order kit.Interleavings
	unit := new(big.Int).Add(w.search, w.offer)
	for round := 0; round < rounds && w.gw.Alive(); round++ {
		// the same voucher, worth any of the services, from all sides
		a := w.account(new(big.Int).Mul(unit, big.NewInt(1000)))
		worth := new(big.Int).Mul(unit, big.NewInt(60))
		v := a.p.Voucher(a.p.Acc, 0, 0, worth)
		if round%2 == 1 { // the channel is known before
			q, p := w.question(r, svc.Client2)
			q.Chan, q.Voucher = a.p.Addr(), a.p.Voucher(a.p.Acc, 5, 0, p)
			w.ask(q, true, "exact", p, p)
		}
		var n atomic.Int64
		var wg sync.WaitGroup
		gate := make(chan struct{})
		var mu sync.Mutex
		var who []string
		for i := 0; i < 10; i++ {
			q, _ := w.question(r, kinds[r.Intn(len(kinds))])
			q.Chan, q.Voucher = a.p.Addr(), v
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				if served(q, w.gw.Ask(w.mk, q)) {
					n.Add(1)
					order.Add(q.Kind)
					mu.Lock()
					who = append(who, q.String())
					mu.Unlock()
				}
			}()
		}
		close(gate)
		wg.Wait()
		if !w.gw.Alive() {
			return
		}
		k.Count("vouchers presented at once", 1)
		k.Eval(fmt.Sprintf("at once %d %d %d", seq, round, n.Load()) + v)
		if n.Load() != 1 {
			k.Violate(map[bool]string{true: "served-twice", false: "served-never"}[n.Load() > 1], who, "one voucher presented 10 times at once bought %d services: %s", n.Load(), strings.Join(who, " / "))
		}
		// many vouchers in lanes of their own: what the channel holds, and no more
		holds := 5 + r.Intn(8)
		b := w.account(new(big.Int).Add(new(big.Int).Mul(w.search, big.NewInt(int64(holds))), new(big.Int).Sub(w.search, big.NewInt(1))))
		n.Store(0)
		gate = make(chan struct{})
		for i := 0; i < 20; i++ {
			kind := []string{svc.Client2, svc.GW2}[i%2]
			q, p := w.question(r, kind)
			q.Chan, q.Voucher = b.p.Addr(), b.p.Voucher(b.p.Acc, uint64(i), 0, p)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				if served(q, w.gw.Ask(w.mk, q)) {
					n.Add(1)
					order.Add(q.Kind)
				}
			}()
		}
		close(gate)
		wg.Wait()
		if !w.gw.Alive() {
			return
		}
		k.Count("channels exhausted", 1)
		if int(n.Load()) != holds {
			k.Violate("channel-overdrawn", nil, "a channel that holds %d searches bought %d", holds, n.Load())
		}
	}
	k.Eval("order " + order.Key())
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C18", func(k *kit.K) {
		if os.Getenv("VERIF_SCRATCH") == "" {
			k.Inconclusive("no scratch directory")
			return
		}
		if k.Args["mode"] == "concurrent" {
			k.Floor("vouchers presented at once", 10)
			k.Floor("channels exhausted", 10)
			for i := 0; i < k.N(2, 10); i++ {
				concurrent(k, i, k.N(12, 40))
			}
			return
		}
		for _, kind := range kinds {
			k.Floor("served "+kind, 20)
			k.Floor("unserved "+kind, 20)
		}
		for _, what := range []string{"one less", "one", "nothing", "old nonce", "over the balance", "stranger's", "used before", "for another channel", "garbage", "lists missing", "too late"} {
			k.Floor("unserved "+what, 5)
		}
		for i := 0; i < k.N(4, 24); i++ {
			history(k, i, k.N(220, 600))
		}
	})
}
