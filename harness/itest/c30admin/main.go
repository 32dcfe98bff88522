//go:build go1.22

// C30: the admin libraries for gateways and providers, managing nodes that answer well and badly: they send what they were
// asked to, once and signed, and report success exactly if the node said so in its own name.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/verif_clkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
	"github.com/ConsenSys/fc-retrieval/gateway-admin/pkg/fcrgatewayadmin"
	"github.com/ConsenSys/fc-retrieval/provider-admin/pkg/fcrprovideradmin"
)

// node is what is managed.
type node struct {
	*clkit.Server
	gw *register.GatewayRegister
	pr *register.ProviderRegister

	mu     sync.Mutex
	active bool
	turn   sync.Mutex // one operation at a time, so that requests can be told apart
	say    func(m *svc.Msg) *clkit.Reply
	got    []*svc.Msg
}

func (n *node) serve(m *svc.Msg) *clkit.Reply {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.got = append(n.got, m)
	if n.say == nil {
		return nil
	}
	return n.say(m)
}

func (n *node) expect(f func(m *svc.Msg) *clkit.Reply) {
	n.mu.Lock()
	n.say, n.got = f, nil
	n.mu.Unlock()
}

func (n *node) taken() []*svc.Msg { n.mu.Lock(); defer n.mu.Unlock(); return n.got }

type world struct {
	k        *kit.K
	ga       *fcrgatewayadmin.FilecoinRetrievalGatewayAdmin
	pa       *fcrprovideradmin.FilecoinRetrievalProviderAdmin
	gkey     *fcrcrypto.KeyPair
	pkey     *fcrcrypto.KeyPair
	gver     *fcrcrypto.KeyVersion
	pver     *fcrcrypto.KeyVersion
	gws, prs []*node
	stranger *svc.Party
}

func newWorld(k *kit.K, r *rand.Rand) *world {
	w := &world{k: k, gkey: fakes.KeyFrom(r), pkey: fakes.KeyFrom(r), stranger: svc.NewParty(r)}
	w.gver, w.pver = fcrcrypto.DecodeKeyVersion(uint32(1+r.Intn(5))), fcrcrypto.DecodeKeyVersion(uint32(1+r.Intn(5)))
	a := fcrgatewayadmin.CreateSettings()
	a.SetLogging("disabled", "STDOUT", "verif")
	a.SetBlockchainPrivateKey(fakes.KeyFrom(r))
	a.SetGatewayAdminPrivateKey(w.gkey, w.gver)
	w.ga = fcrgatewayadmin.NewFilecoinRetrievalGatewayAdmin(*a.Build())
	b := fcrprovideradmin.CreateSettings()
	b.SetLogging("disabled", "STDOUT", "verif")
	b.SetBlockchainPrivateKey(fakes.KeyFrom(r))
	b.SetProviderAdminPrivateKey(w.pkey, w.pver)
	w.pa = fcrprovideradmin.NewFilecoinRetrievalProviderAdmin(*b.Build())
	return w
}

func (w *world) start(r *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		g := &node{Server: clkit.NewServer(r)}
		g.gw = fakes.GatewayEntry(g.ID.ToString(), g.Key, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1", g.Addr)
		g.Answer(g.serve)
		w.gws = append(w.gws, g)
		p := &node{Server: clkit.NewServer(r)}
		p.pr = fakes.ProviderEntry(p.ID.ToString(), p.Key, "127.0.0.1:1", "127.0.0.1:1", p.Addr)
		p.Answer(p.serve)
		w.prs = append(w.prs, p)
	}
}

func (w *world) close() {
	for _, n := range append(append([]*node(nil), w.gws...), w.prs...) {
		for _, b := range n.Bad() {
			w.k.Violate("malformed-request", b, "an admin library sent what is no message: %.300s", b)
		}
		n.Close()
	}
}

// op is one thing an admin can do.
type op struct {
	name   string
	node   *node
	needs  bool // only for nodes that are managed
	makes  bool // makes the node a managed one
	call   func() (value string, err error)
	want   *svc.Msg // what is to be sent
	answer func(wrong bool) (*svc.Msg, error)
	value  string // what a good answer says
	bare   bool   // a wrong answer is not a refusal, but says something else
}

func must(m *svc.Msg, err error) *svc.Msg { fakes.Must(err); return m }

func cids(r *rand.Rand, n int) []cid.ContentID {
	var l []cid.ContentID
	for i := 0; i < n; i++ {
		l = append(l, *fakes.NewCID(r))
	}
	return l
}

func nodes(r *rand.Rand, n int) []nodeid.NodeID {
	l := []nodeid.NodeID{}
	for i := 0; i < n; i++ {
		l = append(l, *fakes.NewNode(r))
	}
	return l
}

func (w *world) op(r *rand.Rand) *op {
	key, ver := fakes.KeyFrom(r), fcrcrypto.DecodeKeyVersion(uint32(1+r.Intn(9)))
	wal, ap, tok := fakes.RandString(r), fakes.RandString(r), fakes.RandString(r)
	yes := func(f func(bool) (*svc.Msg, error)) func(bool) (*svc.Msg, error) {
		return func(wrong bool) (*svc.Msg, error) { return f(!wrong) }
	}
	if r.Intn(2) == 0 {
		n := w.gws[r.Intn(len(w.gws))]
		switch r.Intn(7) {
		case 0:
			return &op{name: "gateway init", node: n, makes: true,
				call:   func() (string, error) { return "", w.ga.InitialiseGateway(n.gw, key, ver) },
				want:   must(fcrmessages.EncodeGatewayAdminInitialiseKeyRequest(n.ID, key, ver)),
				answer: yes(fcrmessages.EncodeGatewayAdminInitialiseKeyResponse)}
		case 1:
			return &op{name: "gateway init v2", node: n, makes: true,
				call:   func() (string, error) { return "", w.ga.InitialiseGatewayV2(n.gw, key, ver, wal, ap, tok) },
				want:   must(fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(n.ID, key, ver, wal, ap, tok)),
				answer: yes(fcrmessages.EncodeGatewayAdminInitialiseKeyResponse)}
		case 2:
			return &op{name: "gateway update", node: n, needs: true,
				call:   func() (string, error) { return "", w.ga.ForceUpdate(n.ID) },
				want:   must(fcrmessages.EncodeGatewayAdminForceRefreshRequest(true)),
				answer: yes(fcrmessages.EncodeGatewayAdminForceRefreshResponse)}
		case 3:
			return &op{name: "gateway list", node: n, needs: true,
				call:   func() (string, error) { return "", w.ga.ListDHTOffer(n.ID) },
				want:   must(fcrmessages.EncodeGatewayAdminListDHTOfferRequest(true)),
				answer: yes(fcrmessages.EncodeGatewayAdminListDHTOfferResponse)}
		case 4:
			l := nodes(r, r.Intn(5))
			return &op{name: "gateway features", node: n, makes: true,
				call:   func() (string, error) { return "", w.ga.UpdateGatewaySupportedFeatures(n.gw, l) },
				want:   must(fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest(n.ID, l)),
				answer: yes(fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse)}
		case 5:
			who, other, rep, exists := fakes.NewNode(r), fakes.NewNode(r), fakes.RandInt64(r), r.Intn(2) == 0
			return &op{name: "get reputation", node: n,
				call: func() (string, error) {
					v, err := w.ga.AdminApiCaller.RequestGetReputation(n.gw, who, w.gkey, w.gver)
					return fmt.Sprint(v), err
				},
				want: must(fcrmessages.EncodeGatewayAdminGetReputationRequest(who)),
				answer: func(wrong bool) (*svc.Msg, error) {
					if wrong && exists {
						return fcrmessages.EncodeGatewayAdminGetReputationResponse(other, rep, true)
					}
					return fcrmessages.EncodeGatewayAdminGetReputationResponse(who, rep, !wrong)
				}, value: fmt.Sprint(rep)}
		default:
			who, other, rep, how := fakes.NewNode(r), fakes.NewNode(r), fakes.RandInt64(r), r.Intn(3)
			return &op{name: "set reputation", node: n,
				call: func() (string, error) {
					v, err := w.ga.AdminApiCaller.RequestSetReputation(n.gw, who, rep, w.gkey, w.gver)
					return fmt.Sprint(v), err
				},
				want: must(fcrmessages.EncodeGatewayAdminSetReputationRequest(who, rep)),
				answer: func(wrong bool) (*svc.Msg, error) {
					switch {
					case wrong && how == 0:
						return fcrmessages.EncodeGatewayAdminSetReputationResponse(other, rep, true)
					case wrong && how == 1:
						return fcrmessages.EncodeGatewayAdminSetReputationResponse(who, rep+1, true)
					}
					return fcrmessages.EncodeGatewayAdminSetReputationResponse(who, rep, !wrong)
				}, value: "true"}
		}
	}
	n := w.prs[r.Intn(len(w.prs))]
	switch r.Intn(6) {
	case 0:
		return &op{name: "provider init", node: n, makes: true,
			call:   func() (string, error) { return "", w.pa.InitialiseProvider(n.pr, key, ver) },
			want:   must(fcrmessages.EncodeProviderAdminInitialiseKeyRequest(n.ID, key, ver)),
			answer: yes(fcrmessages.EncodeProviderAdminInitialiseKeyResponse)}
	case 1:
		return &op{name: "provider init v2", node: n, makes: true,
			call:   func() (string, error) { return "", w.pa.InitialiseProviderV2(n.pr, key, ver, wal, ap, tok) },
			want:   must(fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(n.ID, key, ver, wal, ap, tok)),
			answer: yes(fcrmessages.EncodeProviderAdminInitialiseKeyResponse)}
	case 2:
		return &op{name: "provider update", node: n, needs: true,
			call:   func() (string, error) { return "", w.pa.ForceUpdate(n.ID) },
			want:   must(fcrmessages.EncodeProviderAdminForceRefreshRequest(true)),
			answer: yes(fcrmessages.EncodeProviderAdminForceRefreshResponse)}
	case 3:
		l, p, e, q := cids(r, 1+r.Intn(6)), uint64(fakes.RandInt64(r)), fakes.RandInt64(r), uint64(fakes.RandInt64(r))
		return &op{name: "publish group", node: n, needs: true,
			call:   func() (string, error) { return "", w.pa.PublishGroupCID(n.ID, l, p, e, q) },
			want:   must(fcrmessages.EncodeProviderAdminPublishGroupOfferRequest(l, p, e, q)),
			answer: yes(fcrmessages.EncodeProviderAdminPublishGroupOfferResponse)}
	case 4:
		l := cids(r, 1+r.Intn(6))
		var p, q []uint64
		var e []int64
		for range l {
			p, q, e = append(p, uint64(fakes.RandInt64(r))), append(q, uint64(fakes.RandInt64(r))), append(e, fakes.RandInt64(r))
		}
		return &op{name: "publish dht", node: n, needs: true,
			call:   func() (string, error) { return "", w.pa.PublishDHTCID(n.ID, l, p, e, q) },
			want:   must(fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(l, p, e, q)),
			answer: yes(fcrmessages.EncodeProviderAdminPublishDHTOfferResponse)}
	default:
		l := nodes(r, r.Intn(4))
		os := []cidoffer.CIDOffer{}
		for i := r.Intn(4); i > 0; i-- {
			os = append(os, *n.Offer(r, fakes.NewCID(r), fakes.NewCID(r)))
		}
		text := func(found bool, os []cidoffer.CIDOffer) string {
			s := fmt.Sprint(found)
			for i := range os {
				d := os[i].GetMessageDigest()
				s += " " + cidoffer.EncodeMessageDigest(d) + os[i].GetSignature()
			}
			return s
		}
		found := len(os) > 0
		return &op{name: "published", node: n, needs: true, bare: true,
			call: func() (string, error) {
				f, got, err := w.pa.GetGroupCIDOffer(n.ID, l)
				return text(f, got), err
			},
			want: must(fcrmessages.EncodeProviderAdminGetPublishedOfferRequest(l)),
			answer: func(wrong bool) (*svc.Msg, error) {
				if wrong {
					return fcrmessages.EncodeProviderAdminGetPublishedOfferResponse(false, nil)
				}
				return fcrmessages.EncodeProviderAdminGetPublishedOfferResponse(found, os)
			}, value: text(found, os)}
	}
}

func (w *world) run(r *rand.Rand, trace *[]string) {
	k := w.k
	o := w.op(r)
	n := o.node
	n.turn.Lock()
	defer n.turn.Unlock()
	how := ""
	hostile := false
	switch x := r.Intn(10); {
	case x < 4:
	case x < 8:
		how = clkit.Faults[r.Intn(len(clkit.Faults))]
	case x < 9:
		how = "verdict"
	default:
		hostile = true
	}
	if how == "nonce" || how == "cid" {
		how = "verdict"
	}
	n.expect(func(m *svc.Msg) *clkit.Reply {
		if hostile {
			if r.Intn(2) == 0 {
				return &clkit.Reply{Msg: clkit.Mutated(r, n.Party, must(o.answer(r.Intn(2) == 0)))}
			}
			m := n.Sign(o.answer(false))
			b, err := m.FCRMsgToBytes()
			fakes.Must(err)
			return &clkit.Reply{Raw: fakes.Mutate(r, b)}
		}
		if how == "verdict" {
			return &clkit.Reply{Msg: n.Sign(o.answer(true))}
		}
		return clkit.Spoil(r, how, n.Party, w.stranger, func(shift bool, _ int64) (*svc.Msg, error) {
			if how == "altered" {
				return o.answer(!shift) // it refused, and that is turned into consent
			}
			return o.answer(shift)
		})
	})
	if k.Args["mode"] != "concurrent" && r.Intn(12) == 0 && (!o.needs || n.active) {
		w.senseless(r, o, trace)
		return
	}
	// The node may have been registered again under another key: with what succeeds, that entry takes the place of the other.
	undo := func() {}
	if k.Args["mode"] != "concurrent" && o.makes && r.Intn(3) == 0 {
		gw, pr, old := n.gw, n.pr, n.Rekey(r)
		undo = func() { n.gw, n.pr, *n.Party = gw, pr, *old }
		if gw != nil {
			n.gw = fakes.GatewayEntry(n.ID.ToString(), n.Key, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1", n.Addr)
		} else {
			n.pr = fakes.ProviderEntry(n.ID.ToString(), n.Key, "127.0.0.1:1", "127.0.0.1:1", n.Addr)
		}
		if n.active {
			k.Count("managed nodes registered again", 1)
		}
	}
	var v string
	var err error
	rep := fmt.Sprintf("%s %s hostile %v", o.name, how, hostile)
	*trace = append(*trace, rep)
	if !k.NoPanic("panic:"+o.name, rep, func() { v, err = o.call() }) {
		return
	}
	if err != nil {
		undo()
	}
	k.Eval(fmt.Sprint(rep, o.want.GetMessageType(), string(o.want.GetMessageBody())))
	got := n.taken()
	managed := n.active
	k.Count(o.name, 1)
	if o.needs && !managed {
		if err == nil || len(got) > 0 {
			k.Violate("unmanaged:"+o.name, *trace, "%s for a node that is not managed: %d requests, error %v", o.name, len(got), err)
		}
		k.Count("operations on nodes not managed", 1)
		return
	}
	admin := w.gkey
	if n.pr != nil {
		admin = w.pkey
	}
	if len(got) != 1 {
		k.Violate("sent:"+o.name, *trace, "%s sent %d requests", o.name, len(got))
		return
	}
	m := got[0]
	if m.GetMessageType() != o.want.GetMessageType() || !bytes.Equal(m.GetMessageBody(), o.want.GetMessageBody()) {
		k.Violate("content:"+o.name, *trace, "%s sent %s instead of %s", o.name, svc.Text(m), svc.Text(o.want))
	}
	if e := m.Verify(fakes.Pub(admin)); e != nil {
		k.Violate("signature:"+o.name, *trace, "%s sent a request that the admin did not sign: %v", o.name, e)
	}
	switch {
	case hostile:
		k.Count("hostile answers", 1)
		if err == nil && o.name != "published" {
			k.Count("hostile answers that say yes", 1)
			if o.makes {
				n.active = true
			}
		}
	case how == "" || how == "verdict" && o.bare:
		want := o.value
		if how == "verdict" {
			want = "false"
		}
		if err != nil || v != want {
			k.Violate("refused:"+o.name, *trace, "%s: the node did it, and the library says %q %v instead of %q", o.name, v, err, want)
		}
		if o.makes {
			n.active = true
		}
		k.Count("good answers", 1)
	default:
		if err == nil {
			k.Violate("believed:"+o.name+":"+how, *trace, "%s: the node's answer was bad (%s), and the library says it was done: %q", o.name, how, v)
		}
		k.Count("bad answers", 1)
	}
	w.lists(trace)
}

// senseless: what is known about the node makes no sense.
func (w *world) senseless(r *rand.Rand, o *op, trace *[]string) {
	k := w.k
	n := o.node
	id, key, addr := new(string), new(string), new(string)
	if n.gw != nil {
		id, key, addr = &n.gw.NodeID, &n.gw.SigningKey, &n.gw.NetworkInfoAdmin
	} else {
		id, key, addr = &n.pr.NodeID, &n.pr.SigningKey, &n.pr.NetworkInfoAdmin
	}
	i, s, a := *id, *key, *addr
	rep := o.name
	switch x := r.Intn(4); {
	case x == 0 && o.makes:
		*id = []string{"zz", i + "00", fakes.RandString(r) + "x"}[r.Intn(3)]
		rep += fmt.Sprintf(" node id %q", *id)
	case x == 1:
		*addr = []string{"", "127.0.0.1:1", "nowhere", "::", fakes.RandString(r)}[r.Intn(5)]
		rep += fmt.Sprintf(" address %q", *addr)
	default:
		*key = []string{"", "01", "00" + s[2:], s[:len(s)-2], "zz", fakes.RandString(r), fakes.PubHex(w.gkey)}[r.Intn(7)]
		rep += fmt.Sprintf(" key %q", *key)
	}
	*trace = append(*trace, rep)
	n.expect(func(m *svc.Msg) *clkit.Reply { return &clkit.Reply{Msg: n.Sign(o.answer(false))} })
	var v string
	var err error
	ok := k.NoPanic("panic:senseless:"+o.name, rep, func() { v, err = o.call() })
	*id, *key, *addr = i, s, a
	if ok && err == nil {
		k.Violate("senseless:"+o.name, *trace, "%s was done: %q", rep, v)
	}
	k.Count("senseless entries", 1)
	k.Eval(rep)
	w.lists(trace)
}

// lists: the managed nodes are those that were made so.
func (w *world) lists(trace *[]string) {
	if w.k.Args["mode"] == "concurrent" {
		return
	}
	has := func(n *node) bool {
		if n.gw != nil {
			w.ga.ActiveGatewaysLock.RLock()
			defer w.ga.ActiveGatewaysLock.RUnlock()
			_, ok := w.ga.ActiveGateways[n.ID.ToString()]
			return ok
		}
		w.pa.ActiveProvidersLock.RLock()
		defer w.pa.ActiveProvidersLock.RUnlock()
		_, ok := w.pa.ActiveProviders[n.ID.ToString()]
		return ok
	}
	for _, n := range append(append([]*node(nil), w.gws...), w.prs...) {
		if ok := has(n); ok != n.active {
			w.k.Violate("managed", *trace, "a node is managed: %v, and should be: %v", ok, n.active)
			n.active = ok
		}
	}
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C30", func(k *kit.K) {
		conc := k.Args["mode"] == "concurrent"
		var ws []*world
		n := k.N(40, 1500)
		if conc {
			n = k.N(12, 300)
		}
		for i := 0; i < n; i++ {
			ws = append(ws, newWorld(k, k.Sub("world", i)))
		}
		for i, w := range ws {
			r := k.Sub("start", i)
			w.start(r, 2+r.Intn(3))
			if conc {
				var order kit.Interleavings
				k.Parallel("concurrent", 8, func(g int) {
					r := k.Sub(fmt.Sprint("ops", i), g)
					var trace []string
					for j := 0; j < 15; j++ {
						time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
						w.run(r, &trace)
						order.Add(fmt.Sprint(g))
					}
				})
				k.Eval(order.Key())
			} else {
				var trace []string
				r := k.Sub("ops", i)
				for j := 0; j < 80; j++ {
					w.run(r, &trace)
				}
			}
			w.close()
		}
		k.Floor("good answers", 200)
		k.Floor("bad answers", 200)
		if !conc {
			k.Floor("senseless entries", 30)
			k.Floor("managed nodes registered again", 50)
		}
		k.Floor("operations on nodes not managed", 20)
	})
}
