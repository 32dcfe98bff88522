//go:build go1.22

// C17: the real gateway program, asked about offers in every way the protocol has: each answer is signed, echoes the
// question, and has exactly the offers accepted and unexpired; questions that are not genuine get none.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/lotus"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
)

type world struct {
	k     *kit.K
	reg   *fakes.Register
	chain *lotus.Node
	gw    *svc.Node
	mk    *svc.Market
	provs []*svc.Party
	gws   []*svc.Party
	cids  []*cid.ContentID
	old   map[*svc.Party]*svc.Party // gateways before they changed their keys
}

func provider(p *svc.Party) *register.ProviderRegister {
	return fakes.ProviderEntry(p.ID.ToString(), p.Key, "127.0.0.1:1", "127.0.0.1:2", "127.0.0.1:3")
}

func newWorld(k *kit.K, r *rand.Rand, ncids int) *world {
	w := &world{k: k, reg: fakes.NewRegister(), chain: lotus.New(r), mk: svc.NewMarket(), old: map[*svc.Party]*svc.Party{}}
	for i := 0; i < 3; i++ {
		p, g := svc.NewParty(r), svc.NewParty(r)
		w.provs, w.gws = append(w.provs, p), append(w.gws, g)
		w.reg.SetProvider(provider(p))
		w.reg.SetGateway(fakes.GatewayEntry(g.ID.ToString(), g.Key, "127.0.0.1:1", "127.0.0.1:2", "127.0.0.1:3", "127.0.0.1:4"))
	}
	for i := 0; i < ncids; i++ {
		w.cids = append(w.cids, fakes.NewCID(r))
	}
	w.gw = svc.Start(k, "gateway", r, w.reg.URL, map[string]string{"SEARCH_PRICE": "1000", "OFFER_PRICE": "100"})
	w.reg.Junk(r, r.Intn(3)*r.Intn(5))
	w.gw.MustInit(w.chain)
	w.gw.Refresh()
	return w
}

func (w *world) close() { w.gw.Stop(); w.reg.Close(); w.chain.Close() }

func (w *world) purse() *svc.Purse { return svc.NewPurse(w.chain, w.gw.Wal, 1<<50) }

func (w *world) publish(r *rand.Rand, mayFail bool) {
	p := w.provs[r.Intn(len(w.provs))]
	c, err := svc.Dial(w.gw.Prov)
	if err != nil {
		return
	}
	defer c.C.Close()
	n := 1 + r.Intn(5)
	var cids []*cid.ContentID
	for _, i := range r.Perm(len(w.cids)) {
		if len(cids) < n {
			cids = append(cids, w.cids[i])
		}
	}
	expiry := time.Now().Unix() + 100000
	if r.Intn(3) == 0 {
		expiry = time.Now().Unix() + 1 + int64(r.Intn(4))
	}
	price := uint64(r.Int63n(1 << uint(1+r.Intn(60))))
	var ok bool
	if r.Intn(2) == 0 {
		ok, _, _ = w.gw.PublishGroup(w.mk, c, p, p.OfferWith(cids, price, expiry, uint64(r.Int63())), 1)
	} else {
		var os []*cidoffer.CIDOffer
		for _, x := range cids {
			os = append(os, p.OfferWith([]*cid.ContentID{x}, price, expiry, uint64(r.Int63())))
		}
		ok, _, _ = w.gw.PublishDHT(w.mk, c, p, os, 1)
	}
	if ok {
		w.k.Count("publications", 1)
	} else if !mayFail && w.gw.Alive() {
		w.k.Violate("publication-refused", nil, "a genuine publication was refused")
	}
}

// digests to ask for: those of the CID, those of others, unknown and malformed ones.
func (w *world) digests(r *rand.Rand, c *cid.ContentID) []string {
	var l []string
	for _, d := range w.mk.Deals() {
		if d.Has(c) && r.Intn(2) == 0 || r.Intn(40) == 0 {
			l = append(l, d.Digest)
		}
		if len(l) > 40 {
			break
		}
	}
	if r.Intn(3) > 0 {
		b := make([]byte, 32)
		r.Read(b)
		var d [cidoffer.CIDOfferDigestSize]byte
		copy(d[:], b)
		good := cidoffer.EncodeMessageDigest(d)
		bad := []string{good, "", "zz", good[:10], good + "00", strings.Repeat("x", len(good)), strings.ToUpper(good), "0x" + good}
		for i := 0; i <= r.Intn(3); i++ {
			l = append(l, bad[r.Intn(len(bad))])
		}
	}
	return svc.Shuffled(r, l)
}

func (w *world) query(r *rand.Rand, kind string, purse *svc.Purse) *svc.Query {
	q := &svc.Query{Kind: kind, C: w.cids[r.Intn(len(w.cids))], Nonce: fakes.RandInt64(r), By: w.gws[r.Intn(len(w.gws))]}
	if r.Intn(12) == 0 {
		q.C = fakes.NewCID(r)
	}
	switch r.Intn(6) {
	case 0:
		q.TTL = 1 << 40
	case 1:
		q.TTL = 30
	}
	pay := int64(1000)
	if q.ForOffers() {
		q.Digests = w.digests(r, q.C)
		pay = int64(len(q.Digests)) * 100
	}
	if q.Paid() {
		if r.Intn(3) == 0 {
			pay += int64(r.Intn(500))
		}
		if pay == 0 {
			pay = 1
		}
		q.Chan, q.Voucher = purse.Addr(), purse.Next(uint64(r.Intn(3)), pay)
	} else if r.Intn(4) == 0 {
		q.Chan, q.Voucher = fakes.RandString(r), fakes.RandString(r)
	}
	return q
}

// refusal makes a question that must get no answer with anything in it.
func (w *world) refusal(r *rand.Rand, q *svc.Query) string {
	if q.ByClient() {
		q.TTL = -[]int64{1, 100, 1 << 30, time.Now().Unix() + 5}[r.Intn(4)]
		return "expired"
	}
	kinds := []string{"unsigned", "unknown", "other-key", "own-key", "expired", "altered"}
	if q.Kind == svc.GWOffers {
		return "" // needs no more than the payment
	}
	if w.old[q.By] != nil {
		kinds = append(kinds, "old-key", "old-key")
	}
	what := kinds[r.Intn(len(kinds))]
	switch what {
	case "old-key":
		q.Signer = w.old[q.By]
	case "unsigned":
		q.Signer = &svc.Party{}
	case "unknown":
		q.By = svc.NewParty(r)
	case "other-key":
		for q.Signer == nil || q.Signer == q.By {
			q.Signer = w.gws[r.Intn(len(w.gws))]
		}
	case "own-key":
		q.Signer = &svc.Party{ID: w.gw.ID, Key: w.gw.Key, Ver: w.gw.Ver}
	case "expired":
		q.TTL = -[]int64{1, 100, 1 << 30, time.Now().Unix() + 5}[r.Intn(4)]
	case "altered":
		q.Alter = func(m *svc.Msg) *svc.Msg {
			x := *q
			x.Alter, x.Nonce = nil, q.Nonce+1
			if r.Intn(2) == 0 {
				x.C = w.cids[0]
			}
			return svc.Resigned(x.Message(), m.GetSignature())
		}
	}
	return what
}

func (w *world) serve(r *rand.Rand, q *svc.Query) {
	p := w.gw.Ask(w.mk, q)
	w.gw.CheckServed(w.mk, q, p)
	w.k.Count("served "+q.Kind, 1)
	w.k.Eval(fmt.Sprintf("served %s %s", q, svc.SortedText(q.Digests)))
}

func history(k *kit.K, seq, steps int) {
	r := k.Sub("history", seq)
	w := newWorld(k, r, 8)
	defer w.close()
	purse := w.purse()
	for i := 0; i < steps && w.gw.Alive(); i++ {
		if i < 10 || r.Intn(8) == 0 {
			w.publish(r, false)
			continue
		}
		q := w.query(r, svc.Kinds[r.Intn(len(svc.Kinds))], purse)
		if r.Intn(4) == 0 {
			what := w.refusal(r, q)
			if what == "" {
				continue
			}
			p := w.gw.Ask(w.mk, q)
			if p.Msg != nil {
				k.Violate("answered:"+q.Kind+":"+what, q.String(), "a question that is not valid (%s: %s) was answered: %s", what, q, svc.Text(p.Msg))
			}
			k.Count("refused "+what, 1)
			k.Eval("refused " + what + q.String())
			continue
		}
		w.serve(r, q)
		if r.Intn(30) == 0 {
			w.rekey(r)
		}
	}
	for i := 0; i < 4 && w.gw.Alive(); i++ { // offers expire
		time.Sleep(1200 * time.Millisecond)
		for j := 0; j < 6; j++ {
			w.serve(r, w.query(r, []string{svc.ClientOffers, svc.GWOffers, svc.Client1, svc.GW2}[r.Intn(4)], purse))
		}
	}
}

// rekey: a gateway registers again, with another key.
func (w *world) rekey(r *rand.Rand) {
	g := w.gws[r.Intn(len(w.gws))]
	w.old[g] = g.Rekey(r)
	w.reg.SetGateway(fakes.GatewayEntry(g.ID.ToString(), g.Key, "127.0.0.1:1", "127.0.0.1:2", "127.0.0.1:3", "127.0.0.1:4"))
	w.gw.Refresh()
	w.k.Count("gateways with another key", 1)
}

// large: far more offers of one CID, and a far wider offer, than a test has.
func large(k *kit.K, seq, m int) {
	r := k.Sub("large", seq)
	w := newWorld(k, r, 2)
	defer w.close()
	purse := w.purse()
	c := w.cids[0]
	expiry := time.Now().Unix() + 100000
	send := func(fn func(conn *svc.Conn, p *svc.Party) bool) {
		conn, err := svc.Dial(w.gw.Prov)
		if err != nil {
			return
		}
		defer conn.C.Close()
		if !fn(conn, w.provs[r.Intn(len(w.provs))]) && w.gw.Alive() {
			k.Violate("publication-refused", nil, "a genuine publication was refused")
		}
	}
	for i := 0; i < m; i += 60 {
		send(func(conn *svc.Conn, p *svc.Party) bool {
			var os []*cidoffer.CIDOffer
			for j := i; j < i+60; j++ {
				os = append(os, p.OfferWith([]*cid.ContentID{c}, uint64(j), expiry, uint64(r.Int63())))
			}
			ok, _, _ := w.gw.PublishDHT(w.mk, conn, p, os, 1)
			return ok
		})
	}
	wide := []*cid.ContentID{w.cids[1]}
	for len(wide) < m {
		wide = append(wide, fakes.NewCID(r))
	}
	wide = append(wide, c)
	send(func(conn *svc.Conn, p *svc.Party) bool {
		ok, _, _ := w.gw.PublishGroup(w.mk, conn, p, p.OfferWith(wide, 7, expiry, 8), 1)
		return ok
	})
	for _, kind := range svc.Kinds {
		for _, x := range []*cid.ContentID{c, wide[0], wide[m/2]} {
			if !w.gw.Alive() {
				return
			}
			q := &svc.Query{Kind: kind, C: x, Nonce: fakes.RandInt64(r), By: w.gws[r.Intn(len(w.gws))]}
			pay := int64(1000)
			if q.ForOffers() {
				for _, d := range w.mk.Deals() {
					if d.Has(x) {
						q.Digests = append(q.Digests, d.Digest)
					}
				}
				pay = int64(len(q.Digests)) * 100
			}
			if q.Paid() {
				q.Chan, q.Voucher = purse.Addr(), purse.Next(0, pay)
			}
			w.serve(r, q)
			k.Count("served from very many offers", 1)
		}
	}
}

func concurrent(k *kit.K, seq, each int) {
	r := k.Sub("concurrent", seq)
	w := newWorld(k, r, 10)
	defer w.close()
	for i := 0; i < 12; i++ {
		w.publish(r, false)
	}
	var order kit.Interleavings
	shared := w.purse()
	var mu sync.Mutex
	k.Parallel("concurrent", 9, func(i int) {
		r := k.Sub("concurrent-worker", seq*100+i)
		if i == 8 {
			for j := 0; j < each/2 && w.gw.Alive(); j++ {
				w.publish(r, true)
				w.gw.Refresh()
			}
			return
		}
		purse := w.purse()
		var conn *svc.Conn
		defer func() {
			if conn != nil {
				conn.C.Close()
			}
		}()
		for j := 0; j < each && w.gw.Alive(); j++ {
			kind := svc.Kinds[r.Intn(len(svc.Kinds))]
			if i == 0 { // over a purse others use too: but one voucher at a time
				mu.Lock()
				w.serve(r, w.query(r, kind, shared))
				mu.Unlock()
				continue
			}
			if i == 1 {
				mu.Lock()
				w.serve(r, w.query(r, kind, shared))
				mu.Unlock()
				continue
			}
			q := w.query(r, kind, purse)
			q.Conn = func() (*svc.Conn, error) {
				if conn == nil || r.Intn(5) == 0 {
					if conn != nil {
						conn.C.Close()
						conn = nil
					}
					var err error
					if conn, err = svc.Dial(w.gw.GW); err != nil {
						conn = nil
						return nil, err
					}
				}
				return conn, nil
			}
			w.serve(r, q)
			order.Add(fmt.Sprint(i))
		}
	})
	k.Eval("order " + order.Key())
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C17", func(k *kit.K) {
		if os.Getenv("VERIF_SCRATCH") == "" {
			k.Inconclusive("no scratch directory")
			return
		}
		for _, kind := range svc.Kinds {
			k.Floor("served "+kind, 20)
		}
		k.Floor("offers served", 200)
		if k.Args["mode"] == "concurrent" {
			for i := 0; i < k.N(2, 12); i++ {
				concurrent(k, i, k.N(25, 60))
			}
			return
		}
		for _, what := range []string{"expired", "unsigned", "unknown", "other-key", "altered"} {
			k.Floor("refused "+what, 4)
		}
		for i := 0; i < k.N(3, 20); i++ {
			history(k, i, k.N(300, 700))
		}
		large(k, 0, k.N(360, 1500))
		k.Floor("served from very many offers", int64(3*len(svc.Kinds)))
	})
}
