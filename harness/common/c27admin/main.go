//go:build go1.22

// C27: the real gateway and provider programs before and after their admin gives them a key: nothing is served before, what
// the admin asks for is done by the time it is answered, and who the node is changes only with a good request.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/lotus"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
)

// heard is what one provider was told about its group offers.
type heard struct {
	*svc.Peer
	mu   sync.Mutex
	told []bool
}

type world struct {
	k     *kit.K
	n     *svc.Node
	reg   *fakes.Register
	chain *lotus.Node
	who   *svc.Party // what the node was made; nil is nothing yet
	seen  []*heard   // providers in the register
	gates []*svc.Party
	log   []string
}

func (w *world) note(format string, a ...interface{}) {
	w.log = append(w.log, fmt.Sprintf(format, a...))
	if len(w.log) > 60 {
		w.log = w.log[1:]
	}
}

func (w *world) rep() interface{} { return append([]string{}, w.log...) }

func newWorld(k *kit.K, kind string, r *rand.Rand) *world {
	w := &world{k: k, reg: fakes.NewRegister(), chain: lotus.New(r)}
	w.n = svc.Start(k, kind, r, w.reg.URL, nil)
	return w
}

func (w *world) close() {
	w.n.Stop()
	for _, p := range w.seen {
		p.Close()
	}
	w.reg.Close()
	w.chain.Close()
}

// addProvider puts a provider into the register. It checks that what it is told comes from the gateway as it is then.
func (w *world) addProvider(r *rand.Rand) {
	h := &heard{}
	h.Peer = svc.NewPeer(r, func(c *svc.Conn, m *svc.Msg) *svc.Msg {
		if m.GetMessageType() != fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType {
			w.k.Violate("notify:other", svc.Text(m), "a provider was sent %s", svc.Text(m))
			return nil
		}
		id, flag, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(m)
		if err != nil || id.ToString() != w.who.ID.ToString() || m.Verify(w.who.Pub) != nil {
			w.k.Violate("notify:wrong-sender", svc.Text(m), "a provider was told %s, not signed by the gateway or not in its name (%v)", svc.Text(m), err)
			return nil
		}
		h.mu.Lock()
		h.told = append(h.told, flag)
		h.mu.Unlock()
		w.k.Count("notifications", 1)
		a, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(true)
		fakes.Must(err)
		fakes.Must(a.Sign(h.Key, h.Ver))
		return a
	})
	w.seen = append(w.seen, h)
	w.reg.SetProvider(fakes.ProviderEntry(h.ID.ToString(), h.Key, h.Addr, h.Addr, h.Addr))
}

// foreign asks for anything at all while the node has no key: there must be no answer but a refusal.
func (w *world) foreign(r *rand.Rand) {
	key := fakes.KeyFrom(r)
	kind := fakes.MessageKinds[r.Intn(len(fakes.MessageKinds))]
	m, _, err := fakes.RandKind(r, key, kind, 0)
	if err != nil || m == nil {
		return
	}
	switch m.GetMessageType() {
	case fcrmessages.GatewayAdminInitialiseKeyRequestType, fcrmessages.GatewayAdminInitialiseKeyRequestV2Type,
		fcrmessages.ProviderAdminInitialiseKeyRequestType, fcrmessages.ProviderAdminInitialiseKeyRequestV2Type:
		return
	}
	if r.Intn(4) > 0 {
		fakes.Must(m.Sign(key, fcrcrypto.DecodeKeyVersion(1)))
	}
	w.anonymous(kind.Name, m, r.Intn(4))
}

// addressed asks for what the node does, well formed, on the right port, of a node that has no key.
func (w *world) addressed(r *rand.Rand) {
	by := svc.NewParty(r)
	who := by.ID
	c := fakes.NewCID(r)
	soon := time.Now().Add(time.Minute).Unix()
	type q struct {
		name string
		port int
		m    *svc.Msg
	}
	var l []q
	add := func(name string, port int, m *svc.Msg, err error) {
		l = append(l, q{name, port, by.Sign(m, err)})
	}
	var m *svc.Msg
	var err error
	if w.n.Kind == "gateway" {
		offer := by.Offer(r, c)
		m, err = fcrmessages.EncodeClientEstablishmentRequest(who, "challenge", soon)
		add("establish", 0, m, err)
		m, err = fcrmessages.EncodeGatewayAdminForceRefreshRequest(true)
		add("refresh", 1, m, err)
		m, err = fcrmessages.EncodeGatewayAdminGetReputationRequest(who)
		add("get reputation", 1, m, err)
		m, err = fcrmessages.EncodeGatewayAdminSetReputationRequest(who, 5)
		add("set reputation", 1, m, err)
		m, err = fcrmessages.EncodeGatewayAdminListDHTOfferRequest(true)
		add("list", 1, m, err)
		m, err = fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest(who, []nodeid.NodeID{*who})
		add("group support", 1, m, err)
		m, err = fcrmessages.EncodeProviderPublishGroupOfferRequest(who, 1, offer)
		add("publish group", 3, m, err)
		w.reg.SetProvider(fakes.ProviderEntry(who.ToString(), by.Key, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1"))
		w.reg.SetGateway(fakes.GatewayEntry(who.ToString(), by.Key, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1"))
		for _, kind := range []string{svc.Client1, svc.Client2, svc.ClientOffers, svc.GW1, svc.GW2, svc.GWOffers, svc.DHT1, svc.DHT2, svc.DHTOffers} {
			x := &svc.Query{Kind: kind, C: c, Nonce: 1, By: by, Num: 1, Digests: []string{"00"}, Targets: []nodeid.NodeID{*who}, Lists: [][]string{{"00"}}}
			port := 0
			if !x.ByClient() {
				port = 2
			}
			l = append(l, q{kind, port, x.Message()})
		}
	} else {
		w.reg.SetGateway(fakes.GatewayEntry(who.ToString(), by.Key, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1"))
		m, err = fcrmessages.EncodeClientDHTOfferAckRequest(c, who)
		add("ack", 0, m, err)
		m, err = fcrmessages.EncodeProviderAdminForceRefreshRequest(true)
		add("refresh", 1, m, err)
		m, err = fcrmessages.EncodeProviderAdminGetPublishedOfferRequest([]nodeid.NodeID{*who})
		add("get published", 1, m, err)
		cs := fakes.RandOffer(r, by.Key).GetCIDs()
		m, err = fcrmessages.EncodeProviderAdminPublishGroupOfferRequest(cs, 1, soon, 1)
		add("publish group", 1, m, err)
		m, err = fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(cs[:1], []uint64{1}, []int64{soon}, []uint64{1})
		add("publish DHT", 1, m, err)
		m, err = fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(who, true)
		add("group support", 2, m, err)
		m, err = fcrmessages.EncodeGatewayListDHTOfferRequest(who, c, fakes.NewCID(r), "00", "00", "00", fakes.RandProof(r))
		add("list", 2, m, err)
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	for _, x := range l {
		w.anonymous(x.name, x.m, x.port)
		w.k.Count("requests the node knows, before it has a key", 1)
	}
}

// anonymous sends one message to one port of a node without a key.
func (w *world) anonymous(name string, m *svc.Msg, port int) {
	if w.n.Kind == "provider" && port == 3 {
		port = 2
	}
	addr := []string{w.n.REST, w.n.Admin, w.n.GW, w.n.Prov}[port]
	served := false
	text := ""
	if port < 2 {
		a := w.n.Post(addr, m)
		if a.Err != nil {
			if w.n.Alive() {
				w.k.Violate("anonymous:no-answer:"+name, svc.Text(m), "a %s without a key gave no answer to %s: %v", w.n.Kind, svc.Text(m), a.Err)
			}
			return
		}
		served = a.Msg != nil || a.Status == 200
		text = a.Body
	} else {
		a, err := svc.Ask(addr, m)
		served = !svc.IsRefusal(a, err)
		if a != nil {
			text = svc.Text(a)
		}
	}
	if served {
		w.k.Violate("anonymous:served:"+name, svc.Text(m), "a %s without a key served %s: %.1500s", w.n.Kind, svc.Text(m), text)
	}
	w.k.Eval(fmt.Sprintf("anonymous/%s/%d/%s", w.n.Kind, port, name))
	w.k.Count("requests before a key refused", 1)
	w.k.Sample("before a key", name+" to port "+fmt.Sprint(port)+" of a "+w.n.Kind)
}

// badInit is a request to take a key that cannot be taken.
func (w *world) badInit(r *rand.Rand) *svc.Msg {
	p := svc.NewParty(r)
	gw := w.n.Kind == "gateway"
	v2 := func(wallet string) *svc.Msg {
		var m *svc.Msg
		var err error
		if gw {
			m, err = fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(p.ID, p.Key, p.Ver, wallet, w.chain.URL, "")
		} else {
			m, err = fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(p.ID, p.Key, p.Ver, wallet, w.chain.URL, "")
		}
		fakes.Must(err)
		return m
	}
	if r.Intn(3) == 0 {
		return v2([]string{"zz", "abc", "0x12"}[r.Intn(3)])
	}
	var m *svc.Msg
	var err error
	if r.Intn(2) == 0 {
		m = v2(w.chain.NewAccount().Hex)
	} else if gw {
		m, err = fcrmessages.EncodeGatewayAdminInitialiseKeyRequest(p.ID, p.Key, p.Ver)
	} else {
		m, err = fcrmessages.EncodeProviderAdminInitialiseKeyRequest(p.ID, p.Key, p.Ver)
	}
	fakes.Must(err)
	for {
		var env map[string]interface{}
		b, err := m.FCRMsgToBytes()
		fakes.Must(err)
		fakes.Must(json.Unmarshal(b, &env))
		var body map[string]interface{}
		fakes.Must(json.Unmarshal(m.GetMessageBody(), &body))
		var keys []string
		for x := range body {
			keys = append(keys, x)
		}
		sort.Strings(keys)
		x := keys[r.Intn(len(keys))]
		body[x] = []interface{}{"", "xyz", 7.5, nil, true, "00"}[r.Intn(6)]
		env["message_body"], err = json.Marshal(body)
		fakes.Must(err)
		b, err = json.Marshal(env)
		fakes.Must(err)
		bad, err := fcrmessages.FCRMsgFromBytes(b)
		fakes.Must(err)
		switch bad.GetMessageType() {
		case fcrmessages.GatewayAdminInitialiseKeyRequestType:
			_, _, _, err = fcrmessages.DecodeGatewayAdminInitialiseKeyRequest(bad)
		case fcrmessages.GatewayAdminInitialiseKeyRequestV2Type:
			_, _, _, _, _, _, err = fcrmessages.DecodeGatewayAdminInitialiseKeyRequestV2(bad)
		case fcrmessages.ProviderAdminInitialiseKeyRequestType:
			_, _, _, err = fcrmessages.DecodeProviderAdminInitialiseKeyRequest(bad)
		default:
			_, _, _, _, _, _, err = fcrmessages.DecodeProviderAdminInitialiseKeyRequestV2(bad)
		}
		if err != nil {
			return bad
		}
	}
}

func (w *world) refuseInit(r *rand.Rand) {
	m := w.badInit(r)
	a := w.n.Post(w.n.Admin, m)
	if a.Err != nil {
		if w.n.Alive() {
			w.k.Violate("init:no-answer", svc.Text(m), "a bad key was not answered: %v", a.Err)
		}
		return
	}
	if a.Msg != nil || a.Status == 200 {
		w.k.Violate("init:bad-taken", svc.Text(m), "a %s took %s: %.1500s", w.n.Kind, svc.Text(m), a.Body)
	}
	w.note("bad init")
	w.k.Count("bad keys refused", 1)
	w.k.Eval("badinit/" + svc.Text(m))
}

// takeKey makes the node somebody (else).
func (w *world) takeKey(r *rand.Rand) {
	p := svc.NewParty(r)
	w.n.ID, w.n.Key, w.n.Pub, w.n.Ver = p.ID, p.Key, p.Pub, p.Ver
	v := 1 + r.Intn(2)
	w.who = p
	if v == 1 {
		w.n.MustInit(nil)
	} else {
		w.n.MustInit(w.chain)
	}
	w.note("init V%d as %s", v, p.ID.ToString())
	w.k.Count("keys taken", 1)
	w.k.Eval("init/" + p.ID.ToString())
}

// admin asks the admin interface and demands an answer signed by the node.
func (w *world) admin(r *rand.Rand, name string, m *svc.Msg, err error) *svc.Msg {
	fakes.Must(err)
	p := svc.NewParty(r)
	fakes.Must(m.Sign(p.Key, p.Ver))
	a := w.n.Post(w.n.Admin, m)
	w.k.Eval(name + "/" + svc.Text(m))
	if a.Msg == nil {
		if w.n.Alive() {
			w.k.Violate("admin:not-served:"+name, w.rep(), "the admin's request (%s) was answered %d %.500s %v", name, a.Status, a.Body, a.Err)
		}
		return nil
	}
	if err := a.Msg.Verify(w.who.Pub); err != nil {
		w.k.Violate("admin:unsigned:"+name, w.rep(), "the answer to the admin (%s) is not signed with the key the node was given last: %v", name, err)
		return nil
	}
	w.k.Count("admin requests served", 1)
	return a.Msg
}

func (w *world) establish(r *rand.Rand) {
	id, challenge := fakes.NewNode(r), fakes.RandString(r)
	late := r.Intn(4) == 0
	ttl := time.Now().Add(time.Minute).Unix()
	if late {
		ttl = time.Now().Unix() - 1 - int64(r.Intn(3))
		if r.Intn(3) == 0 {
			ttl = []int64{0, -1, -1 << 63}[r.Intn(3)]
		}
	} else if r.Intn(3) == 0 {
		ttl = 1<<63 - 1
	}
	m, err := fcrmessages.EncodeClientEstablishmentRequest(id, challenge, ttl)
	fakes.Must(err)
	a := w.n.Post(w.n.REST, m)
	if a.Err != nil {
		if w.n.Alive() {
			w.k.Violate("establish:no-answer", w.rep(), "an establishment request was not answered: %v", a.Err)
		}
		return
	}
	w.k.Eval("establish/" + challenge)
	if late {
		if a.Msg != nil {
			w.k.Violate("establish:late", w.rep(), "an establishment request that had run out %d s ago was answered", time.Now().Unix()-ttl)
		}
		w.k.Count("late establishments not answered", 1)
		return
	}
	if a.Msg == nil {
		w.k.Violate("establish:refused", w.rep(), "an establishment request was answered %d %.500s", a.Status, a.Body)
		return
	}
	gid, got, err := fcrmessages.DecodeClientEstablishmentResponse(a.Msg)
	if err != nil || got != challenge || gid.ToString() != w.who.ID.ToString() || a.Msg.Verify(w.who.Pub) != nil {
		w.k.Violate("establish:wrong", w.rep(), "challenged with %q, the gateway %s answered %q as %v (signed: %v) %v", challenge, w.who.ID.ToString(), got, gid, a.Msg.Verify(w.who.Pub) == nil, err)
	}
	w.k.Count("establishments", 1)
}

func (w *world) refresh(r *rand.Rand) {
	want := r.Intn(3) > 0
	fresh := 0
	if want {
		for fresh = r.Intn(3); fresh > 0; fresh-- {
			if w.n.Kind == "gateway" && len(w.seen) < 12 {
				w.addProvider(r)
			}
		}
	}
	var gets int64
	w.reg.Do(func() { gets = int64(w.reg.Gets) })
	var got bool
	var err error
	var m *svc.Msg
	if w.n.Kind == "gateway" {
		m, err = fcrmessages.EncodeGatewayAdminForceRefreshRequest(want)
	} else {
		m, err = fcrmessages.EncodeProviderAdminForceRefreshRequest(want)
	}
	a := w.admin(r, "refresh", m, err)
	if a == nil {
		return
	}
	if w.n.Kind == "gateway" {
		got, err = fcrmessages.DecodeGatewayAdminForceRefreshResponse(a)
	} else {
		got, err = fcrmessages.DecodeProviderAdminForceRefreshResponse(a)
	}
	if err != nil || got != want {
		w.k.Violate("refresh:wrong", w.rep(), "asked to refresh: %v; answered %v %v", want, got, err)
	}
	if want {
		w.reg.Do(func() {
			if int64(w.reg.Gets) == gets {
				w.k.Violate("refresh:not-done", w.rep(), "the register was not read, and the refresh reported as done")
			}
		})
	}
}

func (w *world) reputation(r *rand.Rand) {
	id := fakes.NewNode(r)
	for i := 0; i < 2; i++ {
		m, err := fcrmessages.EncodeGatewayAdminGetReputationRequest(id)
		if a := w.admin(r, "get reputation", m, err); a != nil {
			got, v, exists, err := fcrmessages.DecodeGatewayAdminGetReputationResponse(a)
			if err != nil || got.ToString() != id.ToString() || exists || v != 0 {
				w.k.Violate("reputation:get", w.rep(), "asked for the reputation of the unknown client %s: %v %d %v %v", id.ToString(), got, v, exists, err)
			}
		}
		x := fakes.RandInt64(r)
		m, err = fcrmessages.EncodeGatewayAdminSetReputationRequest(id, x)
		if a := w.admin(r, "set reputation", m, err); a != nil {
			got, _, exists, err := fcrmessages.DecodeGatewayAdminSetReputationResponse(a)
			if err != nil || got.ToString() != id.ToString() || exists {
				w.k.Violate("reputation:set", w.rep(), "set the reputation of the unknown client %s to %d: %v %v %v", id.ToString(), x, got, exists, err)
			}
		}
	}
}

// support tells the gateway which providers' group offers it takes; each provider must hear that once.
func (w *world) support(r *rand.Rand) {
	if len(w.seen) == 0 {
		w.addProvider(r)
	}
	w.reg.Junk(r, r.Intn(2)*r.Intn(3))
	w.n.Refresh()
	want := map[*heard]bool{}
	var ids []nodeid.NodeID
	for _, p := range w.seen {
		p.mu.Lock()
		p.told = nil
		p.mu.Unlock()
		if r.Intn(2) == 0 {
			want[p] = true
			ids = append(ids, *p.ID)
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		ids = append(ids, *fakes.NewNode(r)) // nobody
	}
	r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	m, err := fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest(w.who.ID, ids)
	a := w.admin(r, "group support", m, err)
	if a == nil {
		return
	}
	if ok, err := fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportResponse(a); err != nil || !ok {
		w.k.Violate("support:refused", w.rep(), "the change was answered %v %v", ok, err)
		return
	}
	done := fakes.Eventually(20*time.Second, func() bool {
		for _, p := range w.seen {
			p.mu.Lock()
			n := len(p.told)
			p.mu.Unlock()
			if n == 0 {
				return !w.n.Alive()
			}
		}
		return true
	})
	time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
	for _, p := range w.seen {
		p.mu.Lock()
		told := append([]bool{}, p.told...)
		p.mu.Unlock()
		if !w.n.Alive() {
			return
		}
		if !done && len(told) == 0 {
			w.k.Violate("support:not-told", w.rep(), "provider %s of %d was not told within 20 s", p.ID.ToString(), len(w.seen))
		} else if len(told) != 1 || told[0] != want[p] {
			w.k.Violate("support:told-wrong", w.rep(), "provider %s was told %v; its group offers are supported: %v", p.ID.ToString(), told, want[p])
		}
	}
	w.note("group support for %d of %d", len(want), len(w.seen))
	w.k.Count("changes of support", 1)
	w.k.Sample("history", w.rep())
}

// told asks the provider to take note, as a gateway.
func (w *world) told(r *rand.Rand) {
	by := svc.NewParty(r)
	known := r.Intn(4) > 0
	if known {
		if len(w.gates) > 6 || (len(w.gates) > 0 && r.Intn(2) == 0) {
			by = w.gates[r.Intn(len(w.gates))]
		} else {
			w.gates = append(w.gates, by)
			w.reg.SetGateway(fakes.GatewayEntry(by.ID.ToString(), by.Key, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1"))
		}
	}
	m, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(by.ID, r.Intn(2) == 0)
	good := known
	m = by.Sign(m, err)
	if known && r.Intn(3) == 0 {
		good = false
		m = svc.NewParty(r).Sign(m, nil)
	}
	a, err := svc.Ask(w.n.GW, m)
	w.k.Eval("told/" + svc.Text(m))
	if served := !svc.IsRefusal(a, err); served != good {
		if w.n.Alive() {
			w.k.Violate("told:judged-wrong", w.rep(), "a gateway's notice (genuine: %v) was answered %.500s %v", good, svc.Text(a), err)
		}
		return
	}
	if good {
		ok, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(a)
		if err != nil || !ok || a.Verify(w.who.Pub) != nil {
			w.k.Violate("told:answered-wrong", w.rep(), "a gateway's notice was answered %.500s %v", svc.Text(a), err)
		}
		w.k.Count("notices acknowledged", 1)
	} else {
		w.k.Count("forged notices refused", 1)
	}
}

func (w *world) step(r *rand.Rand) {
	gw := w.n.Kind == "gateway"
	switch x := r.Intn(20); {
	case x == 0:
		w.takeKey(r)
	case x < 3:
		w.refuseInit(r)
	case x < 6:
		w.refresh(r)
	case x < 13 && gw:
		w.establish(r)
	case x < 15 && gw:
		w.reputation(r)
	case x < 18 && gw:
		w.support(r)
	case !gw:
		w.told(r)
	default:
		w.establish(r)
	}
}

func history(k *kit.K, kind string, i, ops int) {
	r := k.Sub("history/"+kind, i)
	w := newWorld(k, kind, r)
	defer w.close()
	start := func() {
		for j := k.N(60, 300); j > 0 && w.n.Alive(); j-- {
			w.foreign(r)
		}
		for j := 0; j < 2 && w.n.Alive(); j++ {
			w.addressed(r)
			w.refuseInit(r)
			w.addressed(r)
		}
	}
	start()
	if !w.n.Alive() {
		return
	}
	w.takeKey(r)
	// What was refused before must not have left anything behind.
	for j := 0; j < ops && w.n.Alive(); j++ {
		w.step(r)
		if j == ops/2 {
			w.n.Restart()
			w.log = nil
			w.note("restart")
			w.who = nil
			w.addressed(r)
			for _, p := range w.seen {
				p.Take()
			}
			if !w.n.Alive() {
				return
			}
			w.takeKey(r)
		}
	}
	k.Count("histories", 1)
}

// concurrent: the same from many sides; each provider must hear of each change once.
func concurrent(k *kit.K, i, ops int) {
	r := k.Sub("concurrent", i)
	w := newWorld(k, "gateway", r)
	defer w.close()
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ { // before it has a key
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			for j := 0; j < 10; j++ {
				w2 := &world{k: k, n: w.n, reg: w.reg, chain: w.chain}
				w2.foreign(r)
			}
		}(k.Sub("early", i*10+g))
	}
	wg.Wait()
	w.takeKey(r)
	for j := 0; j < 4; j++ {
		w.addProvider(r)
	}
	w.n.Refresh()
	var order kit.Interleavings
	var updates atomic.Int64
	want := make([]atomic.Int64, len(w.seen))
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int, r *rand.Rand) {
			defer wg.Done()
			v := &world{k: k, n: w.n, reg: w.reg, chain: w.chain, who: w.who}
			for j := 0; j < ops && w.n.Alive(); j++ {
				switch (g + j) % 4 {
				case 0:
					var ids []nodeid.NodeID
					var on []int
					for x, p := range w.seen {
						if r.Intn(2) == 0 {
							ids = append(ids, *p.ID)
							on = append(on, x)
						}
					}
					m, err := fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest(w.who.ID, ids)
					if v.admin(r, "group support", m, err) != nil {
						updates.Add(1)
						for _, x := range on {
							want[x].Add(1)
						}
					}
				case 1:
					v.establish(r)
				case 2:
					v.reputation(r)
				case 3:
					m, err := fcrmessages.EncodeGatewayAdminForceRefreshRequest(true)
					v.admin(r, "refresh", m, err)
				}
				order.Add(fmt.Sprint(g))
			}
		}(g, k.Sub("actor", i*100+g))
	}
	wg.Wait()
	if !w.n.Alive() {
		return
	}
	n := int(updates.Load())
	fakes.Eventually(20*time.Second, func() bool {
		for _, p := range w.seen {
			p.mu.Lock()
			l := len(p.told)
			p.mu.Unlock()
			if l < n {
				return !w.n.Alive()
			}
		}
		return true
	})
	time.Sleep(50 * time.Millisecond)
	if !w.n.Alive() {
		return
	}
	for x, p := range w.seen {
		p.mu.Lock()
		yes := 0
		for _, f := range p.told {
			if f {
				yes++
			}
		}
		if len(p.told) != n || yes != int(want[x].Load()) {
			k.Violate("support:concurrent", nil, "after %d changes, %d of them in its favour, provider %s was told %s", n, want[x].Load(), p.ID.ToString(), strings.Trim(fmt.Sprint(p.told), "[]"))
		}
		p.mu.Unlock()
	}
	k.Eval(order.Key())
	k.Count("changes of support", n)
	k.Count("histories", 1)
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C27", func(k *kit.K) {
		if os.Getenv("VERIF_SCRATCH") == "" {
			k.Inconclusive("no scratch directory")
			return
		}
		k.Floor("histories", 1)
		k.Floor("changes of support", 5)
		k.Floor("notifications", 20)
		k.Floor("establishments", 20)
		k.Floor("requests before a key refused", 20)
		if k.Args["mode"] == "concurrent" {
			for i := 0; i < k.N(2, 10); i++ {
				concurrent(k, i, k.N(16, 40))
			}
			return
		}
		k.Floor("bad keys refused", 20)
		k.Floor("keys taken", 6)
		k.Floor("notices acknowledged", 20)
		k.Floor("forged notices refused", 5)
		k.Floor("late establishments not answered", 5)
		k.Floor("requests the node knows, before it has a key", 100)
		k.Parallel("gateways", 4, func(i int) {
			for j := 0; j < k.N(1, 8); j++ {
				history(k, "gateway", i+4*j, k.N(90, 300))
			}
		})
		k.Parallel("providers", 4, func(i int) {
			for j := 0; j < k.N(1, 8); j++ {
				history(k, "provider", i+4*j, k.N(90, 300))
			}
		})
	})
}
