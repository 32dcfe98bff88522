//go:build go1.22

// C16: the real gateway program, given publications of offers by honest and hostile providers: an acknowledgement is given,
// and the offer served, exactly for those that are genuine; also across restarts and with many providers at once.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
)

type world struct {
	k     *kit.K
	reg   *fakes.Register
	gw    *svc.Node
	mk    *svc.Market
	provs []*svc.Party
	cids  []*cid.ContentID
	late  *svc.Party                // registered while the gateway runs
	old   map[*svc.Party]*svc.Party // before they changed their keys
}

func providerEntry(p *svc.Party) *register.ProviderRegister {
	return fakes.ProviderEntry(p.ID.ToString(), p.Key, "127.0.0.1:1", "127.0.0.1:2", "127.0.0.1:3")
}

func newWorld(k *kit.K, r *rand.Rand, nprov, ncids int) *world {
	w := &world{k: k, reg: fakes.NewRegister(), mk: svc.NewMarket(), late: svc.NewParty(r), old: map[*svc.Party]*svc.Party{}}
	for i := 0; i < nprov; i++ {
		p := svc.NewParty(r)
		w.provs = append(w.provs, p)
		w.reg.SetProvider(providerEntry(p))
	}
	for i := 0; i < ncids; i++ {
		w.cids = append(w.cids, fakes.NewCID(r))
	}
	w.gw = svc.Start(k, "gateway", r, w.reg.URL, nil)
	w.reg.Junk(r, r.Intn(3)*r.Intn(5))
	w.gw.MustInit(nil)
	w.gw.Refresh()
	return w
}

func (w *world) close() { w.gw.Stop(); w.reg.Close() }

func (w *world) pick(r *rand.Rand, n int) []*cid.ContentID {
	var l []*cid.ContentID
	for _, i := range r.Perm(len(w.cids))[:n] {
		l = append(l, w.cids[i])
	}
	return l
}

func cidsOf(p ...*cidoffer.CIDOffer) map[string]*cid.ContentID {
	m := map[string]*cid.ContentID{}
	for _, o := range p {
		for _, c := range o.GetCIDs() {
			c := c
			m[c.ToString()] = &c
		}
	}
	return m
}

// hostile makes a publication that must not be accepted.
func (w *world) hostile(r *rand.Rand) (what string, m *svc.Msg, offers []*cidoffer.CIDOffer) {
	p, q := w.provs[0], w.provs[1]
	if r.Intn(2) == 0 {
		p, q = q, p
	}
	dht := r.Intn(2) == 0
	n := 1 + r.Intn(4)
	if dht {
		for i := 0; i < n; i++ {
			offers = append(offers, p.Offer(r, w.pick(r, 1)...))
		}
	} else {
		offers = append(offers, p.Offer(r, w.pick(r, n)...))
	}
	bad := r.Intn(len(offers))
	id, signer, sign := p.ID, p, true
	var after func(m *svc.Msg) *svc.Msg
	type fields = func(id *nodeid.NodeID, cids []cid.ContentID, price uint64, expiry int64, qos uint64) (*nodeid.NodeID, []cid.ContentID, uint64, int64, uint64)
	forge := func(f fields) { offers[bad] = svc.Forge(offers[bad], f) }
	kinds := []string{"unsigned", "signed-by-other", "signed-by-gateway", "unregistered", "offer-signed-by-other", "offer-of-other", "own-offer-as-other", "unsigned-offer",
		"price", "expiry", "qos", "cid", "provider-of-offer", "added-cid", "signature-of-other-offer", "altered-body", "signature-of-other-message", "signature-cut",
		"request-as-other", "empty-signature-version"}
	if w.old[p] != nil {
		kinds = append(kinds, "old-key", "old-key", "old-key-offer", "old-key-offer", "old-key-request", "old-key-request")
	}
	// an offer of the provider the gateway has been told of, one of another provider
	var known, theirs *cidoffer.CIDOffer
	for _, i := range r.Perm(len(w.mk.Deals())) {
		d := w.mk.Deals()[i]
		if dht && len(d.Offer.GetCIDs()) != 1 {
			continue
		}
		if d.By == p && d.Pub == p.Pub {
			known = d.Offer
		} else if d.By == q && d.Pub == q.Pub {
			theirs = d.Offer
		}
	}
	if len(offers) > 1 {
		kinds = append(kinds, "signature-of-neighbour", "signature-of-neighbour")
	}
	if known != nil {
		kinds = append(kinds, "known-unsigned", "known-signed-by-other", "known-signature-of-new", "signature-of-known")
	}
	if theirs != nil {
		kinds = append(kinds, "known-of-other", "known-of-other-signed", "signature-of-known-of-other")
	}
	what = kinds[r.Intn(len(kinds))]
	switch what {
	case "signature-of-neighbour":
		at := (bad + 1) % len(offers)
		if bad > 0 && r.Intn(3) > 0 {
			at = bad - 1
		}
		offers[bad].SetSignature(offers[at].GetSignature())
	case "known-unsigned", "known-signed-by-other", "known-signature-of-new":
		o := *known
		switch what {
		case "known-unsigned":
			o.SetSignature("")
		case "known-signed-by-other":
			fakes.Must(o.Sign(q.Key, q.Ver))
		default:
			o.SetSignature(offers[bad].GetSignature())
		}
		offers[bad] = &o
	case "signature-of-known":
		offers[bad].SetSignature(known.GetSignature())
	case "known-of-other":
		o := *theirs
		offers[bad] = &o
	case "known-of-other-signed":
		o := *theirs
		fakes.Must(o.Sign(p.Key, p.Ver))
		offers[bad] = &o
	case "signature-of-known-of-other":
		offers[bad].SetSignature(theirs.GetSignature())
	case "unsigned":
		sign = false
	case "signed-by-other":
		signer = q
	case "old-key":
		signer = w.old[p]
		for _, o := range offers {
			fakes.Must(o.Sign(signer.Key, signer.Ver))
		}
	case "old-key-offer":
		fakes.Must(offers[bad].Sign(w.old[p].Key, w.old[p].Ver))
	case "old-key-request":
		signer = w.old[p]
	case "signed-by-gateway":
		signer = &svc.Party{ID: w.gw.ID, Key: w.gw.Key, Ver: w.gw.Ver}
	case "unregistered":
		x := svc.NewParty(r)
		id, signer = x.ID, x
		for i, o := range offers {
			var l []*cid.ContentID
			for _, c := range cidsOf(o) {
				l = append(l, c)
			}
			offers[i] = x.Offer(r, l...)
		}
	case "offer-signed-by-other":
		fakes.Must(offers[bad].Sign(q.Key, q.Ver))
	case "offer-of-other": // genuine, but not theirs to publish
		var l []*cid.ContentID
		for _, c := range cidsOf(offers[bad]) {
			l = append(l, c)
		}
		offers[bad] = q.Offer(r, l...)
	case "own-offer-as-other": // in the name of another, signed by oneself
		var cs []cid.ContentID
		for _, c := range cidsOf(offers[bad]) {
			cs = append(cs, *c)
		}
		o, err := cidoffer.NewCIDOffer(q.ID, cs, 1, time.Now().Unix()+9999, uint64(r.Int63()))
		fakes.Must(err)
		fakes.Must(o.Sign(p.Key, p.Ver))
		offers[bad] = o
	case "unsigned-offer":
		offers[bad].SetSignature("")
	case "price":
		forge(func(a *nodeid.NodeID, b []cid.ContentID, c uint64, d int64, e uint64) (*nodeid.NodeID, []cid.ContentID, uint64, int64, uint64) {
			return a, b, c + 1, d, e
		})
	case "expiry":
		forge(func(a *nodeid.NodeID, b []cid.ContentID, c uint64, d int64, e uint64) (*nodeid.NodeID, []cid.ContentID, uint64, int64, uint64) {
			return a, b, c, d + 1, e
		})
	case "qos":
		forge(func(a *nodeid.NodeID, b []cid.ContentID, c uint64, d int64, e uint64) (*nodeid.NodeID, []cid.ContentID, uint64, int64, uint64) {
			return a, b, c, d, e + 1<<40
		})
	case "cid":
		forge(func(a *nodeid.NodeID, b []cid.ContentID, c uint64, d int64, e uint64) (*nodeid.NodeID, []cid.ContentID, uint64, int64, uint64) {
			b[r.Intn(len(b))] = *fakes.NewCID(r)
			return a, b, c, d, e
		})
	case "added-cid":
		forge(func(a *nodeid.NodeID, b []cid.ContentID, c uint64, d int64, e uint64) (*nodeid.NodeID, []cid.ContentID, uint64, int64, uint64) {
			return a, append(b, *fakes.NewCID(r)), c, d, e
		})
	case "provider-of-offer":
		forge(func(a *nodeid.NodeID, b []cid.ContentID, c uint64, d int64, e uint64) (*nodeid.NodeID, []cid.ContentID, uint64, int64, uint64) {
			return q.ID, b, c, d, e
		})
	case "signature-of-other-offer":
		offers[bad].SetSignature(p.Offer(r, w.pick(r, 1)...).GetSignature())
	case "request-as-other":
		id = q.ID
	case "altered-body":
		after = func(m *svc.Msg) *svc.Msg {
			x := w.encode(dht, id, 5, offers)
			return svc.Resigned(x, m.GetSignature())
		}
	case "signature-of-other-message":
		after = func(m *svc.Msg) *svc.Msg {
			var o []*cidoffer.CIDOffer
			for range offers {
				o = append(o, p.Offer(r, w.pick(r, 1)...))
			}
			x := signer.Sign(w.encode(dht, id, 1, o), nil)
			return svc.Resigned(m, x.GetSignature())
		}
	case "signature-cut":
		after = func(m *svc.Msg) *svc.Msg {
			s := m.GetSignature()
			return svc.Resigned(m, s[:r.Intn(len(s))])
		}
	case "empty-signature-version":
		after = func(m *svc.Msg) *svc.Msg { return svc.Resigned(m, "00000001") }
	}
	m = w.encode(dht, id, 1, offers)
	if sign {
		signer.Sign(m, nil)
	}
	if after != nil {
		m = after(m)
	}
	if dht {
		what = "dht:" + what
	} else {
		what = "group:" + what
	}
	return
}

func (w *world) encode(dht bool, id *nodeid.NodeID, nonce int64, offers []*cidoffer.CIDOffer) *svc.Msg {
	var m *svc.Msg
	var err error
	if dht {
		var l []cidoffer.CIDOffer
		for _, o := range offers {
			l = append(l, *o)
		}
		m, err = fcrmessages.EncodeProviderPublishDHTOfferRequest(id, nonce, l)
	} else {
		m, err = fcrmessages.EncodeProviderPublishGroupOfferRequest(id, nonce, offers[0])
	}
	fakes.Must(err)
	return m
}

func (w *world) honest(r *rand.Rand, c *svc.Conn, p *svc.Party, mayFail bool) (ok bool) {
	var acked bool
	var a *svc.Msg
	var err error
	var offers []*cidoffer.CIDOffer
	nonce := fakes.RandInt64(r)
	exp := func(o *cidoffer.CIDOffer) *cidoffer.CIDOffer {
		if r.Intn(8) == 0 { // expires soon, or never
			var l []*cid.ContentID
			for i := range o.GetCIDs() {
				l = append(l, &o.GetCIDs()[i])
			}
			e := time.Now().Unix() + 1 + int64(r.Intn(4))
			if r.Intn(2) == 0 {
				e = 1<<62 + int64(r.Intn(1000))
			}
			return p.OfferWith(l, o.GetPrice(), e, o.GetQoS())
		}
		return o
	}
	if known := w.mk.Deals(); r.Intn(8) == 0 && len(known) > 0 && known[len(known)-1].By == p && known[len(known)-1].Pub == p.Pub {
		offers = append(offers, known[len(known)-1].Offer) // once more
	}
	if r.Intn(2) == 0 {
		if offers == nil {
			offers = append(offers, exp(p.Offer(r, w.pick(r, 1+r.Intn(5))...)))
		}
		acked, a, err = w.gw.PublishGroup(w.mk, c, p, offers[0], nonce)
	} else {
		if offers == nil || len(offers[0].GetCIDs()) != 1 {
			offers = nil
			for i := 0; i <= r.Intn(4); i++ {
				offers = append(offers, exp(p.Offer(r, w.pick(r, 1)...)))
			}
		}
		acked, a, err = w.gw.PublishDHT(w.mk, c, p, offers, nonce)
	}
	if acked {
		w.k.Count("accepted publications", 1)
		w.k.Eval(fmt.Sprintf("accepted %s", cidoffer.EncodeMessageDigest(offers[0].GetMessageDigest())))
		return true
	}
	if mayFail {
		w.k.Count("publications refused under contention", 1)
		return false
	}
	if w.gw.Alive() {
		w.k.Violate("honest-refused", svc.Text(a), "a genuine publication of %d offers was not acknowledged: %s %v", len(offers), svc.Text(a), err)
	}
	return false
}

func history(k *kit.K, seq, steps int) {
	r := k.Sub("history", seq)
	w := newWorld(k, r, 3, 9)
	defer w.close()
	conn, err := svc.Dial(w.gw.Prov)
	fakes.Must(err)
	hasLate := false
	for i := 0; i < steps && w.gw.Alive(); i++ {
		switch x := r.Intn(20); {
		case x < 7:
			w.honest(r, conn, w.provs[r.Intn(len(w.provs))], false)
		case x < 13:
			what, m, offers := w.hostile(r)
			a, err := svc.Ask(w.gw.Prov, m)
			if !svc.IsRefusal(a, err) {
				k.Violate("acked:"+strings.SplitN(what, ":", 2)[1], svc.Text(m), "a publication that is not genuine (%s) was answered %s", what, svc.Text(a))
			}
			k.Count("refused publications", 1)
			k.Eval("refused " + what + m.GetSignature())
			for _, c := range cidsOf(offers...) {
				w.gw.LookupClient(w.mk, c, int64(i), map[string]string{"after": what, "publication": svc.Text(m)})
			}
		case x < 18:
			w.gw.LookupClient(w.mk, w.cids[r.Intn(len(w.cids))], fakes.RandInt64(r), nil)
		case x < 19:
			if !hasLate { // a provider nobody knows yet, then known
				o := w.late.Offer(r, w.pick(r, 2)...)
				m := w.late.Sign(w.encode(false, w.late.ID, 1, []*cidoffer.CIDOffer{o}), nil)
				if a, err := svc.Ask(w.gw.Prov, m); !svc.IsRefusal(a, err) {
					k.Violate("acked:not-yet-registered", svc.Text(m), "a publication by a provider that is not registered was answered %s", svc.Text(a))
				}
				w.reg.SetProvider(providerEntry(w.late))
				w.gw.Refresh()
				w.provs = append(w.provs, w.late)
				hasLate = true
				w.honest(r, conn, w.late, false)
				continue
			}
			p := w.provs[r.Intn(len(w.provs))]
			w.old[p] = p.Rekey(r)
			w.reg.SetProvider(providerEntry(p))
			w.gw.Refresh()
			k.Count("providers with another key", 1)
			w.honest(r, conn, p, false)
		default:
			conn.C.Close()
			if r.Intn(3) == 0 {
				w.gw.Restart()
				w.gw.MustInit(nil)
				w.gw.Refresh()
				k.Count("restarts", 1)
			}
			if conn, err = svc.Dial(w.gw.Prov); err != nil {
				return
			}
		}
	}
	for _, c := range w.cids {
		w.gw.LookupClient(w.mk, c, 1, nil)
	}
	conn.C.Close()
}

// crash: a gateway killed while providers publish still serves all it acknowledged.
func crash(k *kit.K, seq int) {
	r := k.Sub("crash", seq)
	w := newWorld(k, r, 4, 6)
	defer w.close()
	for round := 0; round < k.N(2, 6); round++ {
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for i, p := range w.provs {
			wg.Add(1)
			go func(i int, p *svc.Party) {
				defer wg.Done()
				r := k.Sub("crash-writer", seq*1000+round*10+i)
				c, err := svc.Dial(w.gw.Prov)
				if err != nil {
					return
				}
				defer c.C.Close()
				for {
					select {
					case <-stop:
						return
					default:
					}
					w.honest(r, c, p, true)
					if !w.gw.Alive() {
						return
					}
				}
			}(i, p)
		}
		time.Sleep(time.Duration(100+r.Intn(300)) * time.Millisecond)
		w.gw.Kill()
		close(stop)
		wg.Wait()
		w.gw.Restart()
		w.gw.MustInit(nil)
		w.gw.Refresh()
		k.Count("kills", 1)
		for _, c := range w.cids {
			w.gw.LookupClient(w.mk, c, int64(round), map[string]string{"after": "kill"})
		}
	}
}

func concurrent(k *kit.K, seq, each int) {
	r := k.Sub("concurrent", seq)
	w := newWorld(k, r, 5, 6)
	defer w.close()
	gws := []*svc.Party{svc.NewParty(r), svc.NewParty(r)}
	for _, g := range gws {
		w.reg.SetGateway(fakes.GatewayEntry(g.ID.ToString(), g.Key, "127.0.0.1:1", "127.0.0.1:2", "127.0.0.1:3", "127.0.0.1:4"))
	}
	w.gw.Refresh()
	var order kit.Interleavings
	k.Parallel("concurrent", 10, func(i int) {
		r := k.Sub("concurrent-worker", seq*100+i)
		switch {
		case i < 5:
			c, err := svc.Dial(w.gw.Prov)
			if err != nil {
				return
			}
			defer func() { c.C.Close() }()
			for j := 0; j < each && w.gw.Alive(); j++ {
				if w.honest(r, c, w.provs[i], true) {
					order.Add(fmt.Sprint(i))
				}
				if r.Intn(4) == 0 {
					c.C.Close()
					if c, err = svc.Dial(w.gw.Prov); err != nil {
						return
					}
				}
			}
		case i < 7:
			for j := 0; j < each && w.gw.Alive(); j++ {
				w.gw.LookupClient(w.mk, w.cids[r.Intn(len(w.cids))], fakes.RandInt64(r), "concurrent")
				order.Add("c")
			}
		case i < 9:
			c, err := svc.Dial(w.gw.GW)
			if err != nil {
				return
			}
			defer c.C.Close()
			for j := 0; j < each && w.gw.Alive(); j++ {
				w.gw.LookupGateway(w.mk, c, gws[i-7], w.cids[r.Intn(len(w.cids))], fakes.RandInt64(r), "concurrent")
				order.Add("g")
			}
		default:
			for j := 0; j < each && w.gw.Alive(); j++ {
				if j%4 == 0 {
					w.gw.Refresh()
				}
				what, m, _ := w.hostile(r)
				if a, err := svc.Ask(w.gw.Prov, m); !svc.IsRefusal(a, err) {
					k.Violate("acked:"+strings.SplitN(what, ":", 2)[1], svc.Text(m), "a publication that is not genuine (%s) was answered %s", what, svc.Text(a))
				}
				k.Count("refused publications", 1)
			}
		}
	})
	for _, c := range w.cids {
		w.gw.LookupClient(w.mk, c, 1, "after")
	}
	k.Eval("order " + order.Key())
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C16", func(k *kit.K) {
		if os.Getenv("VERIF_SCRATCH") == "" {
			k.Inconclusive("no scratch directory")
			return
		}
		k.Floor("accepted publications", 30)
		k.Floor("lookups", 30)
		if k.Args["mode"] == "concurrent" {
			for i := 0; i < k.N(2, 12); i++ {
				concurrent(k, i, k.N(20, 40))
			}
			return
		}
		k.Floor("refused publications", 60)
		k.Floor("restarts", 1)
		for i := 0; i < k.N(3, 20); i++ {
			history(k, i, k.N(260, 500))
		}
		for i := 0; i < k.N(1, 8); i++ {
			crash(k, i)
		}
	})
}
