//go:build go1.22

// C22: the gateways a client uses: only gateways of the register with a complete entry are used, and only those of them
// that proved who they are are active; counts and lists are right, also when several goroutines change them.
package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/client/pkg/verif_clkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/lotus"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
)

// gate is a gateway, and what is wrong with it.
type gate struct {
	*clkit.Gate
	entry  string // what its entry lacks, or "none" for no entry
	fault  atomic.Value
	region string
	old    atomic.Pointer[svc.Party] // what it was before it changed its key
	before atomic.Value              // func(): what happens while it is being challenged
	asked  atomic.Int64
}

func (g *gate) id() string { return g.ID.ToString() }

type world struct {
	k          *kit.K
	reg        *fakes.Register
	chain      *lotus.Node
	mgr        *fcrregistermgr.FCRRegisterMgr
	cl         *fcrclient.FilecoinRetrievalClient
	settings   *fcrclient.ClientSettings
	gates      []*gate
	mu         sync.Mutex
	challenges map[string]bool
}

var lacks = []string{"none", "region", "address", "gateway", "provider", "client", "admin", "root-key", "key"}
var lackSeq int
var regions = []string{"AU", "US", "au"}
var faults = []string{"unsigned", "stranger", "altered", "nonce", "cid", "kind", "refusal", "garbage", "status", "empty", "cut"}

func newWorld(k *kit.K, r *rand.Rand) *world {
	w := &world{k: k, reg: fakes.NewRegister(), chain: lotus.New(r), challenges: map[string]bool{}}
	b := fcrclient.CreateSettings()
	b.SetLogging("disabled", "STDOUT", "verif")
	b.SetBlockchainPrivateKey(fakes.KeyFrom(r))
	b.SetEstablishmentTTL(1000)
	b.SetRegisterURL(w.reg.URL)
	w.settings = b.Build()
	return w
}

func (w *world) start(r *rand.Rand, n int, sound bool) {
	for i := 0; i < n; i++ {
		g := &gate{Gate: clkit.NewGate(r, w.chain), region: regions[r.Intn(len(regions))]}
		g.fault.Store("")
		g.before.Store(func() {})
		g.Answer(func(m *svc.Msg) *clkit.Reply { return w.handle(g, m) })
		if !sound && i%3 == 2 {
			g.entry = lacks[lackSeq%len(lacks)]
			lackSeq++
		}
		w.enter(g)
		w.gates = append(w.gates, g)
	}
	w.mgr = fcrregistermgr.NewFCRRegisterMgr(w.reg.URL, true, true, time.Hour)
	fakes.Must(w.mgr.Start())
	w.reg.Junk(r, r.Intn(3)*r.Intn(5))
	w.mgr.Refresh()
	var err error
	w.cl, err = fcrclient.NewFilecoinRetrievalClient(*w.settings, w.mgr)
	fakes.Must(err)
}

// enter writes the entry of a gateway.
func (w *world) enter(g *gate) {
	g.Entry = fakes.GatewayEntry(g.ID.ToString(), g.Key, "127.0.0.1:1", "127.0.0.1:1", g.Addr, "127.0.0.1:1")
	g.Entry.Address = g.Acc.Addr.String()
	g.Entry.RegionCode = g.region
	switch g.entry {
	case "region":
		g.Entry.RegionCode = ""
	case "address":
		g.Entry.Address = ""
	case "gateway":
		g.Entry.NetworkInfoGateway = ""
	case "provider":
		g.Entry.NetworkInfoProvider = ""
	case "client":
		g.Entry.NetworkInfoClient = ""
	case "admin":
		g.Entry.NetworkInfoAdmin = ""
	case "root-key":
		g.Entry.RootSigningKey = "zz"
	case "key":
		g.Entry.SigningKey = g.Entry.SigningKey[:len(g.Entry.SigningKey)-6]
	}
	if g.entry != "none" {
		w.reg.SetGateway(g.Entry)
	}
}

// again: a gateway registers again, with another key, in another region, with an entry that is complete or not.
func (w *world) again(r *rand.Rand, g *gate) {
	if r.Intn(2) == 0 {
		g.old.Store(g.Rekey(r))
		w.k.Count("registered again with another key", 1)
	}
	g.region = regions[r.Intn(len(regions))]
	g.entry = ""
	if r.Intn(3) == 0 {
		g.entry = lacks[1+r.Intn(len(lacks)-1)]
		w.k.Count("registered again with an incomplete entry", 1)
	}
	w.enter(g)
	w.mgr.Refresh()
}

func (w *world) close() {
	w.mgr.ShutdownAndWait()
	for _, g := range w.gates {
		g.Close()
	}
	w.reg.Close()
	w.chain.Close()
}

func (w *world) handle(g *gate, m *svc.Msg) *clkit.Reply {
	g.asked.Add(1)
	client, challenge, ttl, err := fcrmessages.DecodeClientEstablishmentRequest(m)
	if err != nil {
		w.k.Violate("challenge:kind", svc.Text(m), "a gateway got a request that is no challenge: %v", err)
		return nil
	}
	if b, err := base64.StdEncoding.DecodeString(challenge); err != nil || len(b) != 32 {
		w.k.Violate("challenge:form", challenge, "a challenge is not 32 bytes in base 64: %q", challenge)
	}
	if client.ToString() != w.settings.ClientID().ToString() {
		w.k.Violate("challenge:client", nil, "a challenge names another client")
	}
	if d := ttl - time.Now().Unix(); d < 500 || d > 1001 {
		w.k.Violate("challenge:ttl", nil, "a challenge that is to last 1000 s lasts %d s", d)
	}
	w.mu.Lock()
	if w.challenges[challenge] {
		w.k.Violate("challenge:repeated", challenge, "a challenge was used before")
	}
	w.challenges[challenge] = true
	w.mu.Unlock()
	g.before.Load().(func())()
	r := rand.New(rand.NewSource(int64(len(challenge)) + g.asked.Load()))
	other := w.gates[0]
	if other == g {
		other = w.gates[1]
	}
	stranger := other.Party
	if o := g.old.Load(); o != nil && r.Intn(2) == 0 {
		stranger = o
	}
	return clkit.Spoil(r, g.fault.Load().(string), g.Party, stranger, func(idShift bool, change int64) (*svc.Msg, error) {
		id, c := g.ID, challenge
		if idShift {
			id = other.ID
		}
		if change != 0 {
			c = base64.StdEncoding.EncodeToString(make([]byte, 32))
			switch change {
			case -1:
				c = challenge[:len(challenge)-4]
			case clkit.NonceZero:
				c = ""
			case clkit.NonceNegative:
				c = strings.ToUpper(challenge)
			case clkit.NonceLow:
				c = challenge + "AAAA"
			case clkit.NonceOne:
				c = " " + challenge
			}
			if c == challenge { // no letter in it
				c += "A"
			}
		}
		return fcrmessages.EncodeClientEstablishmentResponse(id, c)
	})
}

func names(l []*nodeid.NodeID) []string {
	var s []string
	for _, x := range l {
		s = append(s, x.ToString())
	}
	sort.Strings(s)
	return s
}

func keys(m map[string]bool) []string {
	var s []string
	for x := range m {
		s = append(s, x)
	}
	sort.Strings(s)
	return s
}

func history(w *world, seq, steps int) {
	k := w.k
	r := k.Sub("history", seq)
	w.start(r, 4+r.Intn(8), false)
	defer w.close()
	use, active := map[string]bool{}, map[string]bool{}
	var trail []string
	for i := 0; i < steps && k.Violations() < 20; i++ {
		var gs []*gate
		var ids []*nodeid.NodeID
		var text []string
		for j := 1 + r.Intn(5); j > 0; j-- {
			g := w.gates[r.Intn(len(w.gates))]
			gs = append(gs, g)
			id, err := nodeid.NewNodeIDFromHexString(g.id())
			fakes.Must(err)
			ids = append(ids, id)
			text = append(text, g.id()[:4])
		}
		for _, g := range w.gates {
			if r.Intn(4) > 0 {
				g.fault.Store("")
			} else {
				g.fault.Store(faults[r.Intn(len(faults))])
			}
		}
		op := []string{"use", "use", "unuse", "unuse-all", "activate", "activate", "activate", "deactivate", "deactivate-all", "find"}[r.Intn(10)]
		if (op == "unuse-all" || op == "deactivate-all") && r.Intn(3) > 0 {
			op = "activate"
		}
		if r.Intn(12) == 0 {
			g := w.gates[r.Intn(len(w.gates))]
			if g.entry == "none" && r.Intn(3) > 0 {
				continue
			}
			w.again(r, g)
			trail = append(trail, fmt.Sprintf("%s registers again (lacks %q)", g.id()[:4], g.entry))
		}
		trail = append(trail, op+" "+strings.Join(text, " "))
		if len(trail) > 12 {
			trail = trail[1:]
		}
		rep := strings.Join(trail, "; ")
		want, got := 0, 0
		before := map[*gate]int64{}
		for _, g := range w.gates {
			before[g] = g.asked.Load()
		}
		mayAsk := map[*gate]bool{}
		if !k.NoPanic("panic:"+op, rep, func() {
			switch op {
			case "use":
				for _, g := range gs {
					if g.entry == "" && !use[g.id()] {
						use[g.id()] = true
						want++
					} else if g.entry != "" {
						k.Count("refused, lacks "+g.entry, 1)
					}
				}
				if r.Intn(5) == 0 {
					ids = append(ids, nil)
				}
				got = w.cl.AddGatewaysToUse(ids)
			case "unuse":
				for _, g := range gs {
					if use[g.id()] {
						want++
						delete(use, g.id())
						delete(active, g.id())
					}
				}
				got = w.cl.RemoveGatewaysToUse(ids)
			case "unuse-all":
				want = len(use)
				use, active = map[string]bool{}, map[string]bool{}
				got = w.cl.RemoveAllGatewaysToUse()
			case "activate":
				for _, g := range gs {
					if use[g.id()] && !active[g.id()] && g.entry != "" {
						k.Count("not activated any more, lacks "+g.entry, 1)
						continue
					}
					if use[g.id()] && !active[g.id()] {
						mayAsk[g] = true
						f := g.fault.Load().(string)
						if f == "" {
							active[g.id()] = true
							want++
						} else {
							k.Count("not proven, "+f, 1)
						}
					}
				}
				got = w.cl.AddActiveGateways(ids)
			case "deactivate":
				for _, g := range gs {
					if active[g.id()] {
						want++
						delete(active, g.id())
					}
				}
				got = w.cl.RemoveActiveGateways(ids)
			case "deactivate-all":
				want = len(active)
				active = map[string]bool{}
				got = w.cl.RemoveAllActiveGateways()
			case "find":
				region := regions[r.Intn(len(regions))]
				max := r.Intn(8) - 1
				there := map[string]bool{}
				for _, g := range w.gates {
					if g.entry != "none" && g.Entry.RegionCode == region {
						there[g.id()] = true
					}
				}
				want = len(there)
				if want > max {
					want = max
				}
				if want < 0 {
					want = 0
				}
				l, err := w.cl.FindGateways(region, max)
				if err != nil {
					k.Violate("find:error", rep, "finding gateways gives %v", err)
				}
				got = len(l)
				for _, x := range l {
					if !there[x.ToString()] {
						k.Violate("find:other", rep, "a gateway found in %s is not there, or found twice", region)
					}
					delete(there, x.ToString())
				}
			}
		}) {
			return
		}
		k.Count(op, 1)
		k.Eval(fmt.Sprint(seq, i, rep))
		if got != want {
			k.Violate("count:"+op, rep, "%s counts %d, not %d: %s", op, got, want, rep)
		}
		if g := names(w.cl.GetGatewaysToUse()); strings.Join(g, " ") != strings.Join(keys(use), " ") {
			k.Violate("use:"+op, rep, "the gateways to use are %v, not %v: %s", g, keys(use), rep)
		}
		if g := names(w.cl.GetActiveGateways()); strings.Join(g, " ") != strings.Join(keys(active), " ") {
			k.Violate("active:"+op, rep, "the active gateways are %v, not %v: %s", g, keys(active), rep)
		}
		for _, g := range w.gates {
			if g.asked.Load() != before[g] && !mayAsk[g] {
				k.Violate("challenged:"+op, rep, "a gateway was challenged that was not to be: %s", rep)
			}
		}
		if k.Violations() > 0 {
			return
		}
	}
}

// meanwhile: a gateway leaves while it proves itself.
func meanwhile(w *world, r *rand.Rand, rep string) {
	k := w.k
	g := w.gates[r.Intn(len(w.gates))]
	id := []*nodeid.NodeID{g.ID}
	w.cl.AddGatewaysToUse(id)
	w.cl.RemoveActiveGateways(id)
	var once sync.Once
	all := r.Intn(2) == 0
	g.before.Store(func() {
		once.Do(func() {
			if all {
				w.cl.RemoveAllGatewaysToUse()
			} else {
				w.cl.RemoveGatewaysToUse(id)
			}
		})
	})
	n := w.cl.AddActiveGateways(id)
	g.before.Store(func() {})
	if a := w.cl.GetActiveGateways(); n != 0 || len(a) > 0 && contains(a, g) {
		k.Violate("left-meanwhile", rep, "a gateway removed while it was challenged is active (%d added)", n)
	}
	k.Count("left meanwhile", 1)
	k.Eval(fmt.Sprint("meanwhile ", rep, all))
}

func contains(l []*nodeid.NodeID, g *gate) bool {
	for _, x := range l {
		if x.ToString() == g.id() {
			return true
		}
	}
	return false
}

func concurrent(w *world, seq, rounds int) {
	k := w.k
	r := k.Sub("concurrent", seq)
	w.start(r, 5, true)
	defer w.close()
	var order kit.Interleavings
	for round := 0; round < rounds && k.Violations() < 20; round++ {
		meanwhile(w, r, fmt.Sprint(seq, round))
		w.cl.RemoveAllGatewaysToUse()
		var used, activated atomic.Int64
		unuse := round%2 == 0
		if !unuse {
			for _, g := range w.gates {
				used.Add(int64(w.cl.AddGatewaysToUse([]*nodeid.NodeID{g.ID})))
			}
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 6; i++ {
			r := k.Sub("caller", (seq*1000+round)*10+i)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < 12; j++ {
					g := w.gates[r.Intn(len(w.gates))]
					ids := []*nodeid.NodeID{g.ID, w.gates[r.Intn(len(w.gates))].ID}
					switch x := r.Intn(10); {
					case x < 4:
						n := w.cl.AddActiveGateways(ids)
						activated.Add(int64(n))
						order.Add(fmt.Sprint("a", n))
					case x < 6:
						n := w.cl.RemoveActiveGateways(ids)
						activated.Add(-int64(n))
						order.Add(fmt.Sprint("d", n))
					case x < 8:
						n := w.cl.AddGatewaysToUse(ids)
						used.Add(int64(n))
						order.Add(fmt.Sprint("u", n))
					case x == 8 && unuse:
						n := w.cl.RemoveGatewaysToUse(ids)
						used.Add(-int64(n))
						order.Add(fmt.Sprint("r", n))
					case x == 9 && j == 6:
						if unuse && i == 0 {
							used.Add(-int64(w.cl.RemoveAllGatewaysToUse()))
						} else {
							activated.Add(-int64(w.cl.RemoveAllActiveGateways()))
						}
						order.Add("all")
					default:
						w.cl.GetActiveGateways()
						w.cl.GetGatewaysToUse()
						w.cl.FindGateways("AU", 3)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		u, a := w.cl.GetGatewaysToUse(), w.cl.GetActiveGateways()
		rep := fmt.Sprintf("world %d round %d: %d to use, %d active", seq, round, len(u), len(a))
		if int64(len(u)) != used.Load() {
			k.Violate("concurrent:use", rep, "callers at once added %d more gateways to use than they removed: %s", used.Load(), rep)
		}
		if !unuse && int64(len(a)) != activated.Load() {
			k.Violate("concurrent:active", rep, "callers at once added %d more active gateways than they removed: %s", activated.Load(), rep)
		}
		us := strings.Join(names(u), " ")
		for _, x := range a {
			if !strings.Contains(us, x.ToString()) {
				k.Violate("concurrent:active-unused", rep, "a gateway is active that is not to be used: %s", rep)
			}
		}
		k.Count("rounds", 1)
		k.Eval(order.Key())
	}
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C22", func(k *kit.K) {
		conc := k.Args["mode"] == "concurrent"
		n := k.N(12, 60)
		if conc {
			n = k.N(3, 12)
		}
		var ws []*world
		for i := 0; i < n; i++ {
			ws = append(ws, newWorld(k, k.Sub("world", i)))
		}
		if conc {
			k.Floor("rounds", 20)
			k.Floor("left meanwhile", 20)
		} else {
			for _, op := range []string{"use", "unuse", "activate", "deactivate", "deactivate-all", "unuse-all", "find"} {
				k.Floor(op, 30)
			}
			for _, f := range faults {
				k.Floor("not proven, "+f, 3)
			}
			for _, l := range lacks {
				k.Floor("refused, lacks "+l, 3)
			}
			k.Floor("registered again with another key", 30)
			k.Floor("registered again with an incomplete entry", 15)
		}
		for i, w := range ws {
			if conc {
				concurrent(w, i, k.N(25, 60))
			} else {
				history(w, i, k.N(250, 800))
			}
		}
	})
}
