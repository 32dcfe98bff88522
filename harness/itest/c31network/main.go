//go:build go1.22

// C31: a whole network of real programs, the register, gateways and providers, run through the libraries their admins and
// clients use: what was published is what is found and paid for, everywhere, and after restarts and newcomers.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/lotus"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/redis"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
	"github.com/ConsenSys/fc-retrieval/gateway-admin/pkg/fcrgatewayadmin"
	"github.com/ConsenSys/fc-retrieval/provider-admin/pkg/fcrprovideradmin"
)

var ring = new(big.Int).Lsh(big.NewInt(1), 256)

func num(h string) *big.Int {
	n, ok := new(big.Int).SetString(h, 16)
	if !ok {
		panic("harness: " + h)
	}
	return n
}

func cw(a, b string) *big.Int { return new(big.Int).Mod(new(big.Int).Sub(num(b), num(a)), ring) }

func circ(a, b string) *big.Int {
	x := cw(a, b)
	if y := new(big.Int).Sub(ring, x); y.Cmp(x) < 0 {
		return y
	}
	return x
}

// deal is one offer made.
type deal struct {
	by     string // the provider
	cids   map[string]bool
	list   []cid.ContentID
	price  uint64
	expiry int64
	qos    uint64
	group  bool
	lost   bool // the provider restarted since, and knows it no more
}

func (d *deal) String() string {
	return fmt.Sprintf("offer of %.8s, %d cids, price %d", d.by, len(d.list), d.price)
}

// held tells since when a gateway may and must have an offer.
type held struct {
	d          *deal
	from, sure int64 // 0 is not yet
}

type gate struct {
	*svc.Node
	id    string
	entry *register.GatewayRegister

	mu    sync.Mutex
	holds map[string]*held // by what tells offers apart
}

type prov struct {
	*svc.Node
	id    string
	entry *register.ProviderRegister
	mu    sync.Mutex
	made  []*deal
}

type client struct {
	mgr *fcrregistermgr.FCRRegisterMgr
	cl  *fcrclient.FilecoinRetrievalClient
	set fcrclient.ClientSettings
}

type world struct {
	k       *kit.K
	store   *redis.Store
	reg     *svc.Node
	url     string
	chain   *lotus.Node
	ga      *fcrgatewayadmin.FilecoinRetrievalGatewayAdmin
	pa      *fcrprovideradmin.FilecoinRetrievalProviderAdmin
	mgr     *fcrregistermgr.FCRRegisterMgr
	clients []*client
	gates   []*gate
	provs   []*prov

	mu    sync.Mutex
	clock int64
	deals map[string]*deal
	known []cid.ContentID // those with offers
	log   []string
}

func (w *world) note(format string, a ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.log = append(w.log, fmt.Sprintf(format, a...))
	if len(w.log) > 80 {
		w.log = w.log[1:]
	}
}

func (w *world) rep() interface{} {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]string{}, w.log...)
}

func (w *world) tick() int64 { w.mu.Lock(); defer w.mu.Unlock(); w.clock++; return w.clock }

// newWorld prepares one; all are prepared before any is started, because preparing libraries sets up logging.
func newWorld(k *kit.K, r *rand.Rand, clients int) *world {
	w := &world{k: k, store: redis.New(), chain: lotus.New(r), deals: map[string]*deal{}}
	w.reg = svc.StartRegister(k, w.store.Port)
	w.url = "http://" + w.reg.REST
	a := fcrgatewayadmin.CreateSettings()
	a.SetLogging("disabled", "STDOUT", "verif")
	a.SetBlockchainPrivateKey(fakes.KeyFrom(r))
	a.SetRegisterURL(w.url)
	a.SetGatewayAdminPrivateKey(fakes.KeyFrom(r), svc.NewParty(r).Ver)
	w.ga = fcrgatewayadmin.NewFilecoinRetrievalGatewayAdmin(*a.Build())
	b := fcrprovideradmin.CreateSettings()
	b.SetLogging("disabled", "STDOUT", "verif")
	b.SetBlockchainPrivateKey(fakes.KeyFrom(r))
	b.SetRegisterURL(w.url)
	b.SetProviderAdminPrivateKey(fakes.KeyFrom(r), svc.NewParty(r).Ver)
	w.pa = fcrprovideradmin.NewFilecoinRetrievalProviderAdmin(*b.Build())
	for i := 0; i < clients; i++ {
		b := fcrclient.CreateSettings()
		b.SetLogging("disabled", "STDOUT", "verif")
		b.SetBlockchainPrivateKey(fakes.KeyFrom(r))
		b.SetEstablishmentTTL(1000)
		b.SetRegisterURL(w.url)
		b.SetWalletPrivateKey(w.chain.NewAccount().Hex)
		b.SetLotusAP(w.chain.URL)
		b.SetSearchPrice(big.NewInt(1000))
		b.SetOfferPrice(big.NewInt(100))
		b.SetTopUpAmount(big.NewInt(int64(60000 + r.Intn(100000))))
		w.clients = append(w.clients, &client{set: *b.Build()})
	}
	return w
}

func (w *world) must(what string, err error) {
	if err != nil && w.alive() {
		w.k.Violate("step:"+what, w.rep(), "%s failed: %v", what, err)
	}
}

func (w *world) alive() bool {
	for _, g := range w.gates {
		if !g.Alive() {
			return false
		}
	}
	for _, p := range w.provs {
		if !p.Alive() {
			return false
		}
	}
	return w.reg.Alive()
}

// addGate starts a gateway, puts it in the register and gives it its keys.
func (w *world) addGate(r *rand.Rand) *gate {
	g := &gate{Node: svc.Start(w.k, "gateway", r, w.url, map[string]string{"TCP_INACTIVITY_TIMEOUT": "20s", "TCP_LONG_INACTIVITY_TIMEOUT": "30s"}), holds: map[string]*held{}}
	g.id = g.ID.ToString()
	g.Wal = w.chain.NewAccount()
	g.entry = fakes.GatewayEntry(g.id, g.Key, g.GW, g.Prov, g.REST, g.Admin)
	g.entry.Address = g.Wal.Addr.String()
	w.must("registering a gateway", w.mgr.RegisterGateway(g.entry))
	w.initGate(g)
	w.gates = append(w.gates, g)
	w.note("gateway %.8s", g.id)
	return g
}

func (w *world) initGate(g *gate) {
	w.must("initialising a gateway", w.ga.InitialiseGatewayV2(g.entry, g.Key, g.Ver, g.Wal.Hex, w.chain.URL, ""))
}

func (w *world) addProv(r *rand.Rand) *prov {
	p := &prov{Node: svc.Start(w.k, "provider", r, w.url, map[string]string{"TCP_INACTIVITY_TIMEOUT": "20s", "TCP_LONG_INACTIVITY_TIMEOUT": "30s"})}
	p.id = p.ID.ToString()
	p.Wal = w.chain.NewAccount()
	p.entry = fakes.ProviderEntry(p.id, p.Key, p.GW, p.REST, p.Admin)
	p.entry.Address = p.Wal.Addr.String()
	w.must("registering a provider", w.mgr.RegisterProvider(p.entry))
	w.initProv(p)
	w.provs = append(w.provs, p)
	w.note("provider %.8s", p.id)
	return p
}

func (w *world) initProv(p *prov) {
	w.must("initialising a provider", w.pa.InitialiseProviderV2(p.entry, p.Key, p.Ver, p.Wal.Hex, w.chain.URL, ""))
}

// refresh makes everybody read the register.
func (w *world) refresh() {
	for i := 0; i < 2; i++ {
		for _, g := range w.gates {
			w.must("updating a gateway", w.ga.ForceUpdate(g.ID))
		}
		for _, p := range w.provs {
			w.must("updating a provider", w.pa.ForceUpdate(p.ID))
		}
		for _, c := range w.clients {
			if c.mgr != nil {
				c.mgr.Refresh()
			}
		}
	}
}

// engage makes clients use all gateways.
func (w *world) engage() {
	for _, c := range w.clients {
		ids, err := c.cl.FindGateways("AU", 100)
		if err != nil || len(ids) != len(w.gates) {
			w.k.Violate("gateways", w.rep(), "a client finds %d of %d gateways: %v", len(ids), len(w.gates), err)
			return
		}
		c.cl.AddGatewaysToUse(ids)
		c.cl.AddActiveGateways(ids)
		if n := len(c.cl.GetActiveGateways()); n != len(w.gates) {
			w.k.Violate("active", w.rep(), "a client has %d active gateways, of %d that work", n, len(w.gates))
		}
	}
}

func (w *world) start(r *rand.Rand, gates, provs int) {
	w.mgr = fcrregistermgr.NewFCRRegisterMgr(w.url, true, true, time.Hour)
	for i := 0; i < gates; i++ {
		w.addGate(r)
	}
	for i := 0; i < provs; i++ {
		w.addProv(r)
	}
	w.refresh()
	for _, c := range w.clients {
		c.mgr = fcrregistermgr.NewFCRRegisterMgr(w.url, true, true, time.Hour)
		fakes.Must(c.mgr.Start())
		c.mgr.Refresh()
		var err error
		c.cl, err = fcrclient.NewFilecoinRetrievalClient(c.set, c.mgr)
		fakes.Must(err)
	}
	w.engage()
}

func (w *world) close() {
	for _, c := range w.clients {
		if c.mgr != nil {
			c.mgr.ShutdownAndWait()
		}
	}
	for _, g := range w.gates {
		g.Stop()
	}
	for _, p := range w.provs {
		p.Stop()
	}
	w.reg.Stop()
	w.store.Down()
	w.chain.Close()
}

func (w *world) nearest(c string, n int, not *gate) []*gate {
	var l []*gate
	for _, g := range w.gates {
		if g != not {
			l = append(l, g)
		}
	}
	sort.Slice(l, func(i, j int) bool { return circ(c, l[i].id).Cmp(circ(c, l[j].id)) < 0 })
	if n > 16 {
		n = 16
	}
	if len(l) > n {
		l = l[:n]
	}
	return l
}

func key(by string, price uint64) string { return fmt.Sprint(by, " ", price) }

func (w *world) draw(r *rand.Rand, p *prov, n int, group bool) *deal {
	d := &deal{by: p.id, cids: map[string]bool{}, price: r.Uint64(), qos: r.Uint64(), expiry: time.Now().Unix() + 3600 + r.Int63n(1<<40), group: group}
	for i := 0; i < n; i++ {
		c := *fakes.NewCID(r)
		w.mu.Lock()
		if len(w.known) > 0 && r.Intn(4) == 0 {
			c = w.known[r.Intn(len(w.known))]
		}
		w.mu.Unlock()
		if !d.cids[c.ToString()] {
			d.cids[c.ToString()] = true
			d.list = append(d.list, c)
		}
	}
	w.mu.Lock()
	w.deals[key(d.by, d.price)] = d
	w.mu.Unlock()
	return d
}

func (g *gate) offer(d *deal, from, sure int64) {
	g.mu.Lock()
	defer g.mu.Unlock()
	h := g.holds[key(d.by, d.price)]
	if h == nil {
		h = &held{d: d, from: from}
		g.holds[key(d.by, d.price)] = h
	}
	if h.sure == 0 {
		h.sure = sure
	}
}

// publish makes a provider publish; warm is for what may get lost.
func (w *world) publish(r *rand.Rand, p *prov, group, warm bool) {
	var l []*deal
	from := w.tick()
	var err error
	if group {
		d := w.draw(r, p, 2+r.Intn(4), true)
		if len(d.list) < 2 {
			return
		}
		l = append(l, d)
		for _, g := range w.gates {
			g.offer(d, from, 0)
		}
		err = w.pa.PublishGroupCID(p.ID, d.list, d.price, d.expiry, d.qos)
	} else {
		var cs []cid.ContentID
		var ps, qs []uint64
		var es []int64
		for i := 1 + r.Intn(5); i > 0; i-- {
			d := w.draw(r, p, 1, false)
			l = append(l, d)
			cs, ps, es, qs = append(cs, d.list[0]), append(ps, d.price), append(es, d.expiry), append(qs, d.qos)
			for _, g := range w.nearest(d.list[0].ToString(), 16, nil) {
				g.offer(d, from, 0)
			}
		}
		err = w.pa.PublishDHTCID(p.ID, cs, ps, es, qs)
	}
	if err != nil {
		w.must("publishing", err)
		return
	}
	sure := w.tick()
	for _, d := range l {
		to := w.gates
		if !d.group {
			to = w.nearest(d.list[0].ToString(), 16, nil)
		}
		for _, g := range to {
			if !warm {
				g.offer(d, from, sure)
			}
		}
		w.mu.Lock()
		w.known = append(w.known, d.list...)
		w.mu.Unlock()
	}
	p.mu.Lock()
	p.made = append(p.made, l...)
	p.mu.Unlock()
	w.k.Count("offers published", len(l))
	w.note("%.8s published %d offers, group %v warm %v", p.id, len(l), group, warm)
}

// expected is what a gateway must, and what it may, have for a CID between two moments.
func (g *gate) expected(c string, from, to int64) (must, may map[string]*deal) {
	must, may = map[string]*deal{}, map[string]*deal{}
	g.mu.Lock()
	defer g.mu.Unlock()
	for k, h := range g.holds {
		if !h.d.cids[c] || h.from > to {
			continue
		}
		may[k] = h.d
		if h.sure != 0 && h.sure < from {
			must[k] = h.d
		}
	}
	return
}

// compare checks offers that a gateway is said to have.
func (w *world) compare(what string, g *gate, c *cid.ContentID, l []cidoffer.SubCIDOffer, from, to int64, all bool) {
	must, may := g.expected(c.ToString(), from, to)
	seen := map[string]bool{}
	for i := range l {
		o := &l[i]
		id := key(o.GetProviderID().ToString(), o.GetPrice())
		d := may[id]
		if d == nil || d.qos != o.GetQoS() || d.expiry != o.GetExpiry() || o.GetSubCID().ToString() != c.ToString() {
			w.k.Violate("found:strange:"+what, w.rep(), "%s for %.8s at %.8s found %s, which was not published to it", what, c.ToString(), g.id, id)
			continue
		}
		if seen[id] {
			w.k.Violate("found:twice:"+what, w.rep(), "%s for %.8s at %.8s found %s twice", what, c.ToString(), g.id, d)
		}
		seen[id] = true
		w.k.Count("offers found", 1)
	}
	if all {
		for id, d := range must {
			if !seen[id] {
				w.k.Violate("found:missing:"+what, w.rep(), "%s for %.8s at %.8s did not find %s", what, c.ToString(), g.id, d)
			}
		}
	}
}

func (w *world) pick(r *rand.Rand) *cid.ContentID {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.known) == 0 || r.Intn(8) == 0 {
		return fakes.NewCID(r)
	}
	c := w.known[r.Intn(len(w.known))]
	return &c
}

// search asks in one of the four ways.
func (w *world) search(r *rand.Rand, cl *client, kind int) {
	g := w.gates[r.Intn(len(w.gates))]
	c := w.pick(r)
	max := 100000
	if r.Intn(3) == 0 {
		max = 1 + r.Intn(4)
	}
	n := 1 + r.Intn(20)
	near := w.nearest(c.ToString(), n, g)
	names := []string{"standard", "standard v2", "dht", "dht v2"}
	what := names[kind]
	var l []cidoffer.SubCIDOffer
	var m map[string]*[]cidoffer.SubCIDOffer
	var err error
	from := w.tick()
	ok := w.k.NoPanic("panic:"+what, w.rep(), func() {
		switch kind {
		case 0:
			l, err = cl.cl.FindOffersStandardDiscovery(c, g.ID)
		case 1:
			l, err = cl.cl.FindOffersStandardDiscoveryV2(c, g.ID, max)
		case 2:
			m, err = cl.cl.FindOffersDHTDiscovery(c, g.ID, int64(n))
		case 3:
			m, err = cl.cl.FindOffersDHTDiscoveryV2(c, g.ID, int64(n), max)
		}
	})
	to := w.tick()
	if !ok || !w.alive() {
		return
	}
	w.k.Count(what, 1)
	w.k.Eval(fmt.Sprint(what, c.ToString(), g.id, n, max, from))
	rep := fmt.Sprintf("%s for %.8s at %.8s (%d gateways, up to %d)", what, c.ToString(), g.id, n, max)
	if err != nil {
		w.k.Violate("search:"+what, w.rep(), "%s failed: %v", rep, err)
		return
	}
	if kind < 2 {
		w.compare(what, g, c, l, from, to, kind == 0 || max == 100000)
		if must, _ := g.expected(c.ToString(), from, to); kind == 1 && (len(l) > max || len(l) < max && len(l) < len(must)) {
			w.k.Violate("found:number:"+what, w.rep(), "%s found %d of at least %d", rep, len(l), len(must))
		}
		return
	}
	total, sure := 0, 0
	left := map[string]*[]cidoffer.SubCIDOffer{}
	for id, x := range m {
		left[id] = x
	}
	for _, g := range near {
		var l []cidoffer.SubCIDOffer
		x, ok := left[g.id]
		if ok {
			l = *x
		}
		delete(left, g.id)
		must, _ := g.expected(c.ToString(), from, to)
		sure += len(must)
		total += len(l)
		if kind == 2 && !ok {
			w.k.Violate("found:gateway", w.rep(), "%s did not reach %.8s", rep, g.id)
		}
		w.compare(what, g, c, l, from, to, kind == 2 || max == 100000)
	}
	for id := range left {
		w.k.Violate("found:elsewhere", w.rep(), "%s has an answer of gateway %.8s, which is not among the %d nearest", rep, id, n)
	}
	if kind == 3 && (total > max || total < max && total < sure) {
		w.k.Violate("found:number:"+what, w.rep(), "%s found %d of at least %d", rep, total, sure)
	}
}

// acks: what a gateway acknowledged, clients are shown.
func (w *world) acks(r *rand.Rand, cl *client) {
	if len(w.provs) == 0 {
		return
	}
	p := w.provs[r.Intn(len(w.provs))]
	c := w.pick(r)
	g := w.gates[r.Intn(len(w.gates))]
	if p.mu.Lock(); len(p.made) > 0 && r.Intn(4) > 0 {
		c = &p.made[r.Intn(len(p.made))].list[0]
	}
	p.mu.Unlock()
	from := w.tick()
	ok, err := cl.cl.FindDHTOfferAck(c, g.ID, p.ID)
	to := w.tick()
	must, may := g.expected(c.ToString(), from, to)
	yes, maybe := false, false
	for _, d := range must {
		yes = yes || d.by == p.id && !d.group && !d.lost
	}
	for _, d := range may {
		maybe = maybe || d.by == p.id && !d.group
	}
	w.k.Count("acknowledgements asked for", 1)
	if ok {
		w.k.Count("acknowledgements shown", 1)
	}
	if !w.alive() {
		return
	}
	if yes && (!ok || err != nil) || !maybe && ok {
		w.k.Violate("acks", w.rep(), "a client is told by provider %.8s that gateway %.8s acknowledged an offer for %.8s: %v (%v); true is %v", p.id, g.id, c.ToString(), ok, err, yes)
	}
}

// published: the provider's admin sees the group offers that were acknowledged.
func (w *world) published(r *rand.Rand) {
	p := w.provs[r.Intn(len(w.provs))]
	g := w.gates[r.Intn(len(w.gates))]
	_, l, err := w.pa.GetGroupCIDOffer(p.ID, []nodeid.NodeID{*g.ID})
	to := w.tick()
	if err != nil {
		w.must("asking for what was published", err)
		return
	}
	w.k.Count("published asked for", 1)
	for i := range l {
		id := key(l[i].GetProviderID().ToString(), l[i].GetPrice())
		g.mu.Lock()
		h := g.holds[id]
		g.mu.Unlock()
		if h == nil || h.from > to || h.d.by != p.id || len(h.d.list) != len(l[i].GetCIDs()) {
			w.k.Violate("published", w.rep(), "the admin of %.8s is told that %s was published to %.8s, which is wrong", p.id, id, g.id)
		}
	}
}

// warm makes every pair of nodes talk once, which may fail after a restart.
func (w *world) warm(r *rand.Rand) {
	for _, p := range w.provs {
		w.publish(r, p, true, true)
		w.publish(r, p, true, true)
	}
	for i := 0; i < 2; i++ {
		for _, g := range w.gates {
			c := w.clients[0]
			c.cl.FindOffersDHTDiscovery(fakes.NewCID(r), g.ID, 16)
			for _, h := range w.gates { // those that are not near
				if len(w.gates) > 16 {
					if x, err := cid.NewContentIDFromHexString(h.id); err == nil {
						c.cl.FindOffersDHTDiscovery(x, g.ID, 4)
					}
				}
			}
		}
	}
}

// newcomer: a gateway that joins catches up.
func (w *world) newcomer(r *rand.Rand) {
	g := w.addGate(r)
	w.refresh()
	w.engage()
	// The range of CIDs that it catches up spans its 16 nearest gateways. If there are no others, it may begin at any of them.
	var ids []*gate
	for _, h := range w.gates {
		if h != g {
			ids = append(ids, h)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return circ(g.id, ids[i].id).Cmp(circ(g.id, ids[j].id)) < 0 })
	more := len(ids) > 16
	if more {
		ids = ids[:16]
	}
	sort.Slice(ids, func(i, j int) bool { return cw(g.id, ids[i].id).Cmp(cw(g.id, ids[j].id)) < 0 })
	type span struct{ lo, hi string }
	var spans []span
	for i := range ids {
		spans = append(spans, span{ids[i].id, ids[(i+len(ids)-1)%len(ids)].id})
	}
	if more { // the only one without others
		var l []span
		for _, s := range spans {
			n := 0
			for _, h := range w.gates {
				if cw(s.lo, h.id).Cmp(cw(s.lo, s.hi)) <= 0 {
					n++
				}
			}
			if n == 17 {
				l = append(l, s)
			}
		}
		spans = l
	}
	from := w.tick()
	var made []*deal
	for _, p := range w.provs {
		p.mu.Lock()
		for _, d := range p.made {
			if !d.group {
				g.offer(d, from, 0)
				made = append(made, d)
			}
		}
		p.mu.Unlock()
	}
	w.must("catching up", w.ga.ListDHTOffer(g.ID))
	w.note("%.8s catches up with %d offers", g.id, len(made))
	c := w.clients[0]
	found := map[*deal]bool{}
	missing := ""
	ok := fakes.Eventually(60*time.Second, func() bool {
		if !w.alive() {
			return true
		}
		for _, d := range made {
			if found[d] {
				continue
			}
			l, _ := c.cl.FindOffersStandardDiscovery(&d.list[0], g.ID)
			for i := range l {
				if key(l[i].GetProviderID().ToString(), l[i].GetPrice()) == key(d.by, d.price) {
					found[d] = true
					g.offer(d, from, w.tick())
				}
			}
		}
		for _, s := range spans {
			missing = ""
			for _, d := range made {
				if !found[d] && cw(s.lo, d.list[0].ToString()).Cmp(cw(s.lo, s.hi)) <= 0 {
					missing = fmt.Sprintf("%s for %.8s between %.8s and %.8s", d, d.list[0].ToString(), s.lo, s.hi)
				}
			}
			if missing == "" {
				return true
			}
		}
		return len(spans) == 0
	})
	w.k.Count("offers caught up", len(found))
	if !ok {
		w.k.Violate("catchup", w.rep(), "gateway %.8s, which joined and caught up, does not serve %s", g.id, missing)
	}
}

func (w *world) step(r *rand.Rand) {
	switch x := r.Intn(40); {
	case x < 5:
		w.publish(r, w.provs[r.Intn(len(w.provs))], true, false)
	case x < 10:
		w.publish(r, w.provs[r.Intn(len(w.provs))], false, false)
	case x < 32:
		w.search(r, w.clients[r.Intn(len(w.clients))], r.Intn(4))
	case x < 36:
		w.acks(r, w.clients[r.Intn(len(w.clients))])
	case x < 38:
		w.published(r)
	default:
		w.refresh()
	}
}

// forget: providers keep their offers in memory.
func (p *prov) forget() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, d := range p.made {
		d.lost = true
	}
	p.made = nil
}

func (w *world) restart(r *rand.Rand) {
	switch r.Intn(4) {
	case 0:
		w.note("the register restarts")
		w.reg.Restart()
		w.k.Count("restarts of the register", 1)
		w.refresh()
		return
	case 1:
		g := w.gates[r.Intn(len(w.gates))]
		w.note("gateway %.8s restarts", g.id)
		g.Restart()
		w.initGate(g)
	case 2:
		p := w.provs[r.Intn(len(w.provs))]
		w.note("provider %.8s restarts", p.id)
		p.Restart()
		w.initProv(p)
		p.forget()
	default:
		w.note("everything restarts")
		w.reg.Restart()
		for _, g := range w.gates {
			g.Restart()
			w.initGate(g)
		}
		for _, p := range w.provs {
			p.Restart()
			w.initProv(p)
			p.forget()
		}
	}
	w.k.Count("restarts", 1)
	w.refresh()
	w.warm(r)
}

func run(k *kit.K, w *world, i, gates, provs, rounds, steps int) {
	r := k.Sub("start", i)
	defer w.close()
	w.start(r, gates, provs)
	r = k.Sub("history", i)
	for j := 0; j < rounds && w.alive(); j++ {
		for x := 0; x < steps && w.alive(); x++ {
			w.step(r)
		}
		if !w.alive() {
			return
		}
		if r.Intn(2) == 0 {
			w.newcomer(r)
			k.Count("newcomers", 1)
		} else {
			w.restart(r)
		}
	}
	for _, c := range w.known { // all that was ever published is found
		c := c
		for kind := 0; kind < 4; kind += 2 {
			if !w.alive() {
				return
			}
			g := w.gates[r.Intn(len(w.gates))]
			from := w.tick()
			if kind == 0 {
				l, err := w.clients[0].cl.FindOffersStandardDiscovery(&c, g.ID)
				w.must("the last search", err)
				w.compare("last", g, &c, l, from, w.tick(), true)
			}
		}
	}
	if l := w.chain.Wrong(); len(l) > 0 {
		k.Violate("chain", l, "the chain got what it rejects: %v", l)
	}
}

// together: clients search while providers publish.
func together(k *kit.K, w *world, i, gates, provs, each int) {
	defer w.close()
	w.start(k.Sub("start", i), gates, provs)
	var order kit.Interleavings
	k.Parallel("together", len(w.clients)+provs, func(g int) {
		r := k.Sub(fmt.Sprint("together", i), g)
		for j := 0; j < each && w.alive(); j++ {
			if g < provs {
				w.publish(r, w.provs[g], r.Intn(2) == 0, false)
			} else {
				c := w.clients[g-provs]
				w.search(r, c, r.Intn(4))
				if r.Intn(5) == 0 {
					w.acks(r, c)
				}
			}
			order.Add(fmt.Sprint(g))
		}
	})
	k.Eval(order.Key())
	if l := w.chain.Wrong(); len(l) > 0 {
		k.Violate("chain", l, "the chain got what it rejects: %v", l)
	}
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C31", func(k *kit.K) {
		if k.Args["mode"] == "concurrent" {
			var ws []*world
			for i := 0; i < k.N(2, 6); i++ {
				ws = append(ws, newWorld(k, k.Sub("world", i), 4))
			}
			for i, w := range ws {
				together(k, w, i, 3+3*(i%3), 2, k.N(25, 120))
			}
			k.Floor("offers found", 100)
			return
		}
		var ws []*world
		for i := 0; i < k.N(3, 10); i++ {
			ws = append(ws, newWorld(k, k.Sub("world", i), 2))
		}
		for i, w := range ws {
			gates := 3 + 2*i
			if i%3 == 2 {
				gates = 19
			}
			run(k, w, i, gates, 1+i%3, k.N(5, 12), k.N(40, 80))
		}
		k.Floor("offers found", 500)
		k.Floor("offers caught up", 20)
		k.Floor("restarts", 3)
	})
}
