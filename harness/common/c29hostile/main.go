//go:build go1.22

// C29: whatever is sent to a gateway and a provider, and whatever those they ask answer, they keep running and keep serving
// those that behave.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/lotus"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
)

type world struct {
	k      *kit.K
	reg    *fakes.Register
	chain  *lotus.Node
	gw, pv *svc.Node
	bad    []*svc.Peer // registered as gateways and as providers, and hostile
	good   *svc.Party  // a provider that behaves
	guest  *svc.Party  // a gateway that behaves
	mk     *svc.Market
	purse  *svc.Purse
	calm   atomic.Bool

	mu   sync.Mutex
	r    *rand.Rand
	last []string
}

func (w *world) note(s string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.last = append(w.last, s)
	if len(w.last) > 40 {
		w.last = w.last[1:]
	}
}

func (w *world) rep() interface{} {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]string(nil), w.last...)
}

// source is randomness of its own for each use.
func (w *world) source() *rand.Rand {
	w.mu.Lock()
	defer w.mu.Unlock()
	return rand.New(rand.NewSource(w.r.Int63()))
}

func party(p *svc.Peer) *svc.Party { return &svc.Party{ID: p.ID, Key: p.Key, Pub: p.Pub, Ver: p.Ver} }

func newWorld(k *kit.K, r *rand.Rand) *world {
	w := &world{k: k, reg: fakes.NewRegister(), chain: lotus.New(r), mk: svc.NewMarket(), r: r}
	env := map[string]string{"TCP_INACTIVITY_TIMEOUT": "500ms", "TCP_LONG_INACTIVITY_TIMEOUT": "1s"}
	w.gw = svc.Start(k, "gateway", r, w.reg.URL, env)
	w.pv = svc.Start(k, "provider", r, w.reg.URL, env)
	w.reg.SetGateway(fakes.GatewayEntry(w.gw.ID.ToString(), w.gw.Key, w.gw.GW, w.gw.Prov, w.gw.REST, w.gw.Admin))
	w.reg.SetProvider(fakes.ProviderEntry(w.pv.ID.ToString(), w.pv.Key, w.pv.GW, w.pv.REST, w.pv.Admin))
	for i := 0; i < 4; i++ {
		p := svc.NewPeer(r, w.answer)
		w.bad = append(w.bad, p)
		e := fakes.GatewayEntry(p.ID.ToString(), p.Key, p.Addr, p.Addr, p.Addr, p.Addr)
		e.Address = w.chain.NewAccount().Addr.String()
		w.reg.SetGateway(e)
		w.reg.SetProvider(fakes.ProviderEntry(p.ID.ToString(), p.Key, p.Addr, p.Addr, p.Addr))
	}
	// entries that are worth nothing
	for i := 0; i < 6; i++ {
		e := fakes.GatewayEntry(fakes.NewNode(r).ToString(), fakes.KeyFrom(r), "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1")
		f := fakes.ProviderEntry(fakes.NewNode(r).ToString(), fakes.KeyFrom(r), "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1")
		odd := []string{"", "nowhere", "127.0.0.1:99999", "::::", "01", "00112233"}[i]
		e.SigningKey, f.SigningKey = odd, odd
		if i%2 == 0 {
			e.NetworkInfoGateway, e.NetworkInfoProvider, e.Address, f.NetworkInfoGateway = odd, odd, odd, odd
		}
		w.reg.SetGateway(e)
		w.reg.SetProvider(f)
	}
	w.good, w.guest = svc.NewParty(r), svc.NewParty(r)
	w.reg.SetProvider(fakes.ProviderEntry(w.good.ID.ToString(), w.good.Key, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1"))
	w.reg.SetGateway(fakes.GatewayEntry(w.guest.ID.ToString(), w.guest.Key, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1"))
	w.reg.Junk(r, r.Intn(3)*r.Intn(5))
	w.gw.MustInit(w.chain)
	w.pv.MustInit(w.chain)
	w.purse = svc.NewPurse(w.chain, w.gw.Wal, 1<<50)
	w.refresh()
	return w
}

func (w *world) refresh() {
	for i := 0; i < 2; i++ {
		w.gw.Refresh()
		w.pv.Refresh()
	}
}

func (w *world) close() {
	w.gw.Stop()
	w.pv.Stop()
	for _, p := range w.bad {
		p.Close()
	}
	w.reg.Close()
	w.chain.Close()
}

// answer is what hostile nodes say when they are asked.
func (w *world) answer(c *svc.Conn, m *svc.Msg) *svc.Msg {
	r := w.source()
	by := party(w.bad[r.Intn(len(w.bad))])
	for _, p := range w.bad { // most often the one that is asked
		if p.Addr == c.C.LocalAddr().String() && r.Intn(4) > 0 {
			by = party(p)
		}
	}
	w.k.Count("answers of hostile nodes", 1)
	if r.Intn(8) == 0 {
		return w.bytes(r, c)
	}
	var a *svc.Msg
	var err error
	got := m.GetMessageType()
	if r.Intn(10) == 0 {
		got = -1
	}
	some := fakes.NewCID(r)
	subs := func(c *cid.ContentID) []cidoffer.SubCIDOffer {
		o := by.Offer(r, c, fakes.NewCID(r))
		s, err := o.GenerateSubCIDOffer(c)
		fakes.Must(err)
		return []cidoffer.SubCIDOffer{*s}
	}
	switch got {
	case fcrmessages.GatewayDHTDiscoverRequestType:
		_, c, nonce, _, _, _, derr := fcrmessages.DecodeGatewayDHTDiscoverRequest(m)
		fakes.Must(derr)
		a, err = fcrmessages.EncodeGatewayDHTDiscoverResponse(c, nonce, true, subs(c), []bool{false})
	case fcrmessages.GatewayDHTDiscoverRequestV2Type:
		_, c, nonce, _, _, _, derr := fcrmessages.DecodeGatewayDHTDiscoverRequestV2(m)
		fakes.Must(derr)
		d := by.Offer(r, c).GetMessageDigest()
		a, err = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(c, nonce, true, []string{cidoffer.EncodeMessageDigest(d)}, []bool{false}, r.Intn(2) == 0, fakes.RandString(r))
	case fcrmessages.GatewayDHTDiscoverOfferRequestType:
		c, nonce, _, _, _, derr := fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(m)
		fakes.Must(derr)
		a, err = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(c, nonce, true, subs(c), []bool{false}, r.Intn(2) == 0, fakes.RandString(r))
	case fcrmessages.ProviderPublishDHTOfferRequestType:
		_, nonce, _, derr := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
		fakes.Must(derr)
		sig, serr := fcrcrypto.SignMessage(by.Key, by.Ver, m.GetMessageBody())
		fakes.Must(serr)
		a, err = fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig)
	case fcrmessages.ProviderPublishGroupOfferRequestType:
		_, _, o, derr := fcrmessages.DecodeProviderPublishGroupOfferRequest(m)
		fakes.Must(derr)
		a, err = fcrmessages.EncodeProviderPublishGroupOfferResponse(*by.ID, cidoffer.EncodeMessageDigest(o.GetMessageDigest()))
	case fcrmessages.GatewayListDHTOfferRequestType:
		req := by.Sign(fcrmessages.EncodeProviderPublishDHTOfferRequest(by.ID, 1, []cidoffer.CIDOffer{*by.Offer(r, some)}))
		if r.Intn(2) == 0 {
			req = w.spoilt(r, by, req)
		}
		a, err = fcrmessages.EncodeGatewayListDHTOfferResponse([]fcrmessages.FCRMessage{*req})
	case fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType:
		a, err = fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(true)
	default:
		a = fakes.RandMessage(r, by.Key, 0)
		if a == nil {
			return nil
		}
	}
	fakes.Must(err)
	if r.Intn(4) == 0 {
		w.k.Count("well-formed answers of hostile nodes", 1)
		return by.Sign(a, nil)
	}
	return w.spoilt(r, by, a)
}

// spoilt is a message with a hostile body, genuinely signed.
func (w *world) spoilt(r *rand.Rand, by *svc.Party, m *svc.Msg) *svc.Msg {
	n := fcrmessages.CreateFCRMessage(m.GetMessageType(), fakes.Mutate(r, m.GetMessageBody()))
	fakes.Must(n.Sign(by.Key, by.Ver))
	return n
}

// bytes writes what is no message.
func (w *world) bytes(r *rand.Rand, c *svc.Conn) *svc.Msg {
	c.C.SetWriteDeadline(time.Now().Add(5 * time.Second))
	b := make([]byte, r.Intn(300))
	r.Read(b)
	if r.Intn(2) == 0 {
		b = []byte(fmt.Sprintf(`{"message_type":%d,"protocol_version":1,"protocol_supported":[1,1],"message_body":"%s","message_signature":"%s"}`, r.Intn(500), fakes.RandString(r), fakes.RandString(r)))
		b = fakes.Mutate(r, b)
	}
	n := uint32(len(b))
	switch r.Intn(8) {
	case 0:
		n = r.Uint32()
	case 1:
		n = 0xffffffff
	case 2:
		n = 0
	case 3:
		n += uint32(1 + r.Intn(100))
	}
	head := make([]byte, 4)
	binary.BigEndian.PutUint32(head, n)
	c.C.Write(append(head, b...))
	if r.Intn(3) == 0 {
		return svc.Quiet
	}
	return nil
}

// request is a genuine request of somebody hostile.
func (w *world) request(r *rand.Rand) (node *svc.Node, port, name string, by *svc.Party, m *svc.Msg) {
	by = party(w.bad[r.Intn(len(w.bad))])
	if r.Intn(8) == 0 {
		by = svc.NewParty(r)
	}
	c := fakes.NewCID(r)
	done := func(n *svc.Node, p, what string, m *svc.Msg, err error) (*svc.Node, string, string, *svc.Party, *svc.Msg) {
		return n, p, what, by, by.Sign(m, err)
	}
	q := &svc.Query{C: c, Nonce: fakes.RandInt64(r), By: by, Chan: w.purse.Addr(), Num: int64(r.Intn(6))}
	q.Voucher = w.purse.Next(uint64(r.Intn(3)), int64(r.Intn(100000)))
	for i := r.Intn(4); i > 0; i-- {
		q.Digests = append(q.Digests, cidoffer.EncodeMessageDigest(by.Offer(r, c).GetMessageDigest()))
	}
	for i := r.Intn(4); i > 0; i-- {
		q.Targets = append(q.Targets, *w.bad[r.Intn(len(w.bad))].ID)
		if r.Intn(8) > 0 {
			q.Lists = append(q.Lists, q.Digests)
		}
	}
	soon := time.Now().Add(time.Minute).Unix()
	switch x := r.Intn(24); {
	case x < 9:
		q.Kind = []string{svc.Client1, svc.Client2, svc.ClientOffers, svc.DHT1, svc.DHT2, svc.DHTOffers, svc.GW1, svc.GW2, svc.GWOffers}[x]
		port := w.gw.REST
		if !q.ByClient() {
			port = w.gw.GW
		}
		return done(w.gw, port, q.Kind, q.Message(), nil)
	case x == 9:
		m, err := fcrmessages.EncodeClientEstablishmentRequest(by.ID, fakes.RandString(r), soon)
		return done(w.gw, w.gw.REST, "establish", m, err)
	case x < 12:
		m, err := fcrmessages.EncodeProviderPublishGroupOfferRequest(by.ID, q.Nonce, by.Offer(r, c, fakes.NewCID(r)))
		return done(w.gw, w.gw.Prov, "publish group", m, err)
	case x < 14:
		m, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(by.ID, q.Nonce, []cidoffer.CIDOffer{*by.Offer(r, c), *by.Offer(r, fakes.NewCID(r))})
		return done(w.gw, w.gw.Prov, "publish dht", m, err)
	case x == 14:
		m, err := fcrmessages.EncodeGatewayAdminForceRefreshRequest(true)
		return done(w.gw, w.gw.Admin, "gateway refresh", m, err)
	case x == 15:
		m, err := fcrmessages.EncodeGatewayAdminGetReputationRequest(by.ID)
		return done(w.gw, w.gw.Admin, "get reputation", m, err)
	case x == 16:
		m, err := fcrmessages.EncodeGatewayAdminSetReputationRequest(by.ID, fakes.RandInt64(r))
		return done(w.gw, w.gw.Admin, "set reputation", m, err)
	case x == 17:
		m, err := fcrmessages.EncodeGatewayAdminListDHTOfferRequest(true)
		return done(w.gw, w.gw.Admin, "catch up", m, err)
	case x == 18:
		m, err := fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest(w.gw.ID, []nodeid.NodeID{*by.ID, *fakes.NewNode(r)})
		return done(w.gw, w.gw.Admin, "features", m, err)
	case x == 19:
		m, err := fcrmessages.EncodeClientDHTOfferAckRequest(c, by.ID)
		return done(w.pv, w.pv.REST, "ack", m, err)
	case x == 20:
		min, max := fakes.NewCID(r), fakes.NewCID(r)
		proof := fakes.RandProof(r)
		if proof == nil {
			proof = &fcrmerkletree.FCRMerkleProof{}
		}
		m, err := fcrmessages.EncodeGatewayListDHTOfferRequest(by.ID, min, max, fakes.RandString(r), "", "", proof)
		return done(w.pv, w.pv.GW, "list", m, err)
	case x == 21:
		m, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(by.ID, r.Intn(2) == 0)
		return done(w.pv, w.pv.GW, "notify", m, err)
	case x == 22:
		m, err := fcrmessages.EncodeProviderAdminPublishDHTOfferRequest([]cid.ContentID{*c}, []uint64{1}, []int64{soon}, []uint64{1})
		if r.Intn(2) == 0 {
			m, err = fcrmessages.EncodeProviderAdminPublishGroupOfferRequest([]cid.ContentID{*c, *fakes.NewCID(r)}, 1, soon, 1)
		}
		return done(w.pv, w.pv.Admin, "admin publish", m, err)
	default:
		m, err := fcrmessages.EncodeProviderAdminGetPublishedOfferRequest([]nodeid.NodeID{*by.ID})
		return done(w.pv, w.pv.Admin, "published", m, err)
	}
}

func initialises(m *svc.Msg) bool {
	switch m.GetMessageType() {
	case fcrmessages.GatewayAdminInitialiseKeyRequestType, fcrmessages.GatewayAdminInitialiseKeyRequestV2Type,
		fcrmessages.ProviderAdminInitialiseKeyRequestType, fcrmessages.ProviderAdminInitialiseKeyRequestV2Type:
		return true
	}
	return false
}

// attack sends something.
func (w *world) attack(r *rand.Rand, conns map[string]*svc.Conn) {
	k := w.k
	n, port, name, by, m := w.request(r)
	http := port == n.REST || port == n.Admin
	how := "hostile body"
	switch x := r.Intn(12); {
	case x == 0:
		how = "well formed"
	case x == 1: // another kind of message, for which the port may have no answer
		how = "other kind"
		if o := fakes.RandMessage(r, by.Key, 1); o != nil && !initialises(o) {
			m = by.Sign(o, nil)
		}
	case x == 2:
		how = "bytes"
	case x == 3:
		how = "envelope"
	default:
		m = w.spoilt(r, by, m)
	}
	w.note(fmt.Sprintf("%s %s %.400s", name, how, svc.Text(m)))
	k.Count("sent: "+name, 1)
	k.Count("hostile: "+how, 1)
	k.Eval(name + how + string(m.GetMessageBody()))
	var raw []byte
	if how == "envelope" || http && how == "bytes" {
		b, err := m.FCRMsgToBytes()
		fakes.Must(err)
		raw = fakes.Mutate(r, b)
	}
	if http {
		var a *svc.Answer
		if raw != nil {
			a = n.PostBytes(port, raw)
		} else {
			a = n.Post(port, m)
		}
		switch {
		case a.Msg != nil:
			k.Count("answers to the hostile", 1)
		case a.Err == nil:
			if a.Status < 400 && !late(m, raw) {
				k.Violate("answer:nothing", kind(m, raw), "a request was answered with status %d and no message: %.200q", a.Status, a.Body)
			}
			k.Count("refusals to the hostile", 1)
		}
		return
	}
	c := conns[port]
	if c == nil || r.Intn(4) == 0 {
		if c != nil && r.Intn(2) == 0 {
			c.C.Close()
		}
		var err error
		if c, err = svc.Dial(port); err != nil {
			return
		}
		conns[port] = c
	}
	switch {
	case how == "bytes":
		w.bytes(r, c)
	case raw != nil:
		head := make([]byte, 4)
		binary.BigEndian.PutUint32(head, uint32(len(raw)))
		c.C.Write(append(head, raw...))
	default:
		c.Send(m)
	}
	if r.Intn(6) == 0 {
		return // does not wait for the answer
	}
	a, err := c.Recv(time.Second)
	switch {
	case svc.IsRefusal(a, err):
		k.Count("refusals to the hostile", 1)
		if err != nil {
			c.C.Close()
			delete(conns, port)
		}
	default:
		k.Count("answers to the hostile", 1)
	}
}

// probe: those that behave are served.
func (w *world) probe(r *rand.Rand) {
	k := w.k
	if !w.gw.Alive() || !w.pv.Alive() {
		return
	}
	c := fakes.NewCID(r)
	rep := w.rep()
	t0 := time.Now()
	conn, err := svc.Dial(w.gw.Prov)
	if err == nil {
		defer conn.C.Close()
		acked, a, err := w.gw.PublishGroup(w.mk, conn, w.good, w.good.Offer(r, c), r.Int63())
		if !acked && w.gw.Alive() {
			k.Violate("served:publish", rep, "a provider's genuine offer was not acknowledged: %s %v", svc.Text(a), err)
		}
	} else if w.gw.Alive() {
		k.Violate("served:port", rep, "the gateway's port for providers cannot be reached: %v", err)
	}
	w.gw.LookupClient(w.mk, c, r.Int63(), rep)
	if conn, err := svc.Dial(w.gw.GW); err == nil {
		w.gw.LookupGateway(w.mk, conn, w.guest, c, r.Int63(), rep)
		conn.C.Close()
	} else if w.gw.Alive() {
		k.Violate("served:port", rep, "the gateway's port for gateways cannot be reached: %v", err)
	}
	// the provider publishes, and the gateway acknowledges; both say so
	d := fakes.NewCID(r)
	expiry := time.Now().Add(time.Hour).Unix()
	m, err := fcrmessages.EncodeProviderAdminPublishGroupOfferRequest([]cid.ContentID{*d, *fakes.NewCID(r)}, 5, expiry, 6)
	fakes.Must(err)
	fakes.Must(m.Sign(w.pv.Key, w.pv.Ver))
	a := w.pv.Post(w.pv.Admin, m)
	ok := false
	if a.Msg != nil && a.Msg.Verify(w.pv.Pub) == nil {
		ok, err = fcrmessages.DecodeProviderAdminPublishGroupOfferResponse(a.Msg)
		ok = ok && err == nil
	}
	if !ok && w.pv.Alive() {
		k.Violate("served:admin-publish", rep, "the provider's admin had an offer published, and was answered %d %.300s %v", a.Status, a.Body, a.Err)
	}
	found := func() int {
		req, err := fcrmessages.EncodeClientStandardDiscoverRequest(d, 1, time.Now().Unix()+100, "", "")
		fakes.Must(err)
		if a := w.gw.Post(w.gw.REST, req); a.Msg != nil {
			if _, _, _, subs, _, err := fcrmessages.DecodeClientStandardDiscoverResponse(a.Msg); err == nil {
				return len(subs)
			}
		}
		return -1
	}
	if ok && !fakes.Eventually(30*time.Second, func() bool { return !w.gw.Alive() || found() == 1 }) {
		k.Violate("served:offer", rep, "an offer that the provider says it published is not found at the gateway: %d", found())
	}
	m, err = fcrmessages.EncodeClientDHTOfferAckRequest(d, w.gw.ID)
	fakes.Must(err)
	if a := w.pv.Post(w.pv.REST, m); w.pv.Alive() && (a.Msg == nil || a.Msg.Verify(w.pv.Pub) != nil) {
		k.Violate("served:ack", rep, "a client of the provider was answered %d %.300s %v", a.Status, a.Body, a.Err)
	}
	if t := time.Since(t0) - kit.Stalled(t0); t > 60*time.Second && w.gw.Alive() && w.pv.Alive() {
		k.Violate("served:slow", rep, "those that behave were served only after %v", t)
	}
	k.Count("probes", 1)
}

func status(pid int, key string) int {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, key+":") {
			n, _ := strconv.Atoi(strings.Fields(l)[1])
			return n
		}
	}
	return 0
}

func descriptors(pid int) int {
	l, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	return len(l)
}

func run(k *kit.K, i, rounds, each int) {
	r := k.Sub("world", i)
	w := newWorld(k, r)
	defer w.close()
	w.probe(k.Sub("probe", i))
	before := map[*svc.Node]int{w.gw: descriptors(w.gw.Pid()), w.pv: descriptors(w.pv.Pid())}
	var order kit.Interleavings
	for j := 0; j < rounds && k.Violations() == 0; j++ {
		stop := make(chan bool)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { // those that behave are served meanwhile, too
			defer wg.Done()
			pr := k.Sub(fmt.Sprint("probe", i), j)
			for {
				select {
				case <-stop:
					return
				default:
					w.probe(pr)
				}
			}
		}()
		k.Parallel("attack", 6, func(g int) {
			r := k.Sub(fmt.Sprint("attack", i, j), g)
			conns := map[string]*svc.Conn{}
			for x := 0; x < each && w.gw.Alive() && w.pv.Alive(); x++ {
				w.attack(r, conns)
				order.Add(fmt.Sprint(g))
			}
			for _, c := range conns {
				c.C.Close()
			}
		})
		close(stop)
		wg.Wait()
		w.refresh()
		w.probe(k.Sub(fmt.Sprint("after", i), j))
	}
	k.Eval(order.Key())
	if !w.gw.Alive() || !w.pv.Alive() {
		return
	}
	for _, p := range w.bad {
		p.Hangup()
	}
	for _, n := range []*svc.Node{w.gw, w.pv} {
		n := n
		if !fakes.Eventually(30*time.Second, func() bool { return descriptors(n.Pid()) <= before[n]+60 }) {
			k.Violate("leak:"+n.Kind, w.rep(), "the %s had %d descriptors open before it was attacked, and has %d when all of that is over", n.Kind, before[n], descriptors(n.Pid()))
		}
		if kb := status(n.Pid(), "VmHWM"); kb > 1500<<10 && k.Args["mode"] != "race" {
			k.Violate("memory:"+n.Kind, w.rep(), "the %s took up to %d MB", n.Kind, kb>>10)
		}
	}
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C29", func(k *kit.K) {
		worlds, rounds, each := k.N(3, 8), k.N(8, 60), 60
		if k.Args["mode"] == "race" {
			worlds, rounds = 1, k.N(3, 12)
		}
		for i := 0; i < worlds && k.Violations() == 0; i++ {
			run(k, i, rounds, each)
		}
		k.Floor("probes", 6)
		k.Floor("answers to the hostile", 50)
		k.Floor("refusals to the hostile", 100)
		k.Floor("answers of hostile nodes", 50)
	})
}

func kind(m *svc.Msg, raw []byte) string {
	if raw != nil {
		return fmt.Sprintf("%.300q", raw)
	}
	return fmt.Sprintf("message type %d, body %.300q", m.GetMessageType(), m.GetMessageBody())
}

// late: a request past its time, which gets no answer.
func late(m *svc.Msg, raw []byte) bool {
	if raw != nil {
		var err error
		if m, err = fcrmessages.FCRMsgFromBytes(raw); err != nil {
			return false
		}
	}
	switch m.GetMessageType() {
	case fcrmessages.ClientEstablishmentRequestType, fcrmessages.ClientStandardDiscoverRequestType, fcrmessages.ClientStandardDiscoverRequestV2Type,
		fcrmessages.ClientStandardDiscoverOfferRequestType, fcrmessages.ClientDHTDiscoverRequestType, fcrmessages.ClientDHTDiscoverRequestV2Type:
	default:
		return false
	}
	var b struct {
		TTL int64 `json:"ttl"`
	}
	json.Unmarshal(m.GetMessageBody(), &b)
	return b.TTL <= time.Now().Unix()
}
