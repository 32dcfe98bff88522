//go:build go1.22

// C14: a node's view of the register. The register is a fake whose lists, failures and delays the harness controls; the
// view is compared with everything the register ever listed.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
)

func gw(g register.GatewayRegistrar) string {
	if g == nil {
		return "nil"
	}
	return fmt.Sprintf("%+v", g.Serialize())
}

func pr(g register.ProviderRegistrar) string {
	if g == nil {
		return "nil"
	}
	return fmt.Sprintf("%+v", g.Serialize())
}

type world struct {
	reg   *fakes.Register
	mgr   *fcrregistermgr.FCRRegisterMgr
	keys  []*fcrcrypto.KeyPair
	gws   map[string]string // what the view must say
	prs   map[string]string
	gids  []*nodeid.NodeID
	pids  []*nodeid.NodeID
	gent  map[string]*register.GatewayRegister
	pent  map[string]*register.ProviderRegister
	trace []string
}

// keep draws which fields of an entry stay as they were: often only one changes.
func keep(r *rand.Rand, fields int) []bool {
	k := make([]bool, fields)
	switch r.Intn(3) {
	case 0:
		for i := range k {
			k[i] = true
		}
		k[r.Intn(fields)] = false
	case 1:
		for i := range k {
			k[i] = r.Intn(2) == 0
		}
	}
	return k
}

// gateway registers the gateway, or changes it.
func (w *world) gateway(r *rand.Rand, id *nodeid.NodeID) {
	e := fakes.GatewayEntry(id.ToString(), w.keys[r.Intn(len(w.keys))], fmt.Sprint("gw", r.Int31()), fmt.Sprint("pr", r.Int31()), fmt.Sprint("cl", r.Int31()), fmt.Sprint("ad", r.Int31()))
	e.RootSigningKey = fakes.PubHex(w.keys[r.Intn(len(w.keys))])
	e.Address = fmt.Sprint("t1", r.Int31())
	e.RegionCode = fakes.RandString(r)
	if old := w.gent[e.NodeID]; old != nil {
		now := []*string{&e.Address, &e.RegionCode, &e.RootSigningKey, &e.SigningKey, &e.NetworkInfoGateway, &e.NetworkInfoProvider, &e.NetworkInfoClient, &e.NetworkInfoAdmin}
		was := []string{old.Address, old.RegionCode, old.RootSigningKey, old.SigningKey, old.NetworkInfoGateway, old.NetworkInfoProvider, old.NetworkInfoClient, old.NetworkInfoAdmin}
		for i, same := range keep(r, len(now)) {
			if same {
				*now[i] = was[i]
			}
		}
	}
	w.gent[e.NodeID] = e
	w.reg.SetGateway(e)
	w.gws[e.NodeID] = fmt.Sprintf("%+v", *e)
}

// provider registers the provider, or changes it.
func (w *world) provider(r *rand.Rand, id *nodeid.NodeID) {
	e := fakes.ProviderEntry(id.ToString(), w.keys[r.Intn(len(w.keys))], fmt.Sprint("gw", r.Int31()), fmt.Sprint("cl", r.Int31()), fmt.Sprint("ad", r.Int31()))
	e.RootSigningKey = fakes.PubHex(w.keys[r.Intn(len(w.keys))])
	e.Address = fmt.Sprint("t1", r.Int31())
	e.RegionCode = fakes.RandString(r)
	if old := w.pent[e.NodeID]; old != nil {
		now := []*string{&e.Address, &e.RegionCode, &e.RootSigningKey, &e.SigningKey, &e.NetworkInfoGateway, &e.NetworkInfoClient, &e.NetworkInfoAdmin}
		was := []string{old.Address, old.RegionCode, old.RootSigningKey, old.SigningKey, old.NetworkInfoGateway, old.NetworkInfoClient, old.NetworkInfoAdmin}
		for i, same := range keep(r, len(now)) {
			if same {
				*now[i] = was[i]
			}
		}
	}
	w.pent[e.NodeID] = e
	w.reg.SetProvider(e)
	w.prs[e.NodeID] = fmt.Sprintf("%+v", *e)
}

func newWorld(k *kit.K, label string, seq int, interval time.Duration, prov, gate bool) (*world, *rand.Rand) {
	r := k.Sub(label, seq)
	w := &world{reg: fakes.NewRegister(), gws: map[string]string{}, prs: map[string]string{},
		gent: map[string]*register.GatewayRegister{}, pent: map[string]*register.ProviderRegister{}}
	for i := 0; i < 3; i++ {
		w.keys = append(w.keys, fakes.KeyFrom(r))
	}
	w.mgr = fcrregistermgr.NewFCRRegisterMgr(w.reg.URL, prov, gate, interval)
	return w, r
}

func mapOf(m map[string]string) string {
	var l []string
	for _, v := range m {
		l = append(l, v)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// view compares the whole view with what it must be.
func (w *world) view(k *kit.K, key string) bool {
	var l []string
	for _, g := range w.mgr.GetAllGateways() {
		l = append(l, gw(g))
	}
	sort.Strings(l)
	if got, want := strings.Join(l, "\n"), mapOf(w.gws); got != want {
		k.Violate(key+":gateways", w.trace, "the view lists gateways\n%s\nwant\n%s", got, want)
		return false
	}
	l = nil
	for _, g := range w.mgr.GetAllProviders() {
		l = append(l, pr(g))
	}
	sort.Strings(l)
	if got, want := strings.Join(l, "\n"), mapOf(w.prs); got != want {
		k.Violate(key+":providers", w.trace, "the view lists providers\n%s\nwant\n%s", got, want)
		return false
	}
	for _, id := range w.gids {
		if got := gw(w.mgr.GetGateway(id)); got != w.gws[id.ToString()] {
			k.Violate(key+":gateway", w.trace, "gateway %s: the view says\n%s\nwant\n%s", id.ToString(), got, w.gws[id.ToString()])
			return false
		}
	}
	for _, id := range w.pids {
		if got := pr(w.mgr.GetProvider(id)); got != w.prs[id.ToString()] {
			k.Violate(key+":provider", w.trace, "provider %s: the view says\n%s\nwant\n%s", id.ToString(), got, w.prs[id.ToString()])
			return false
		}
	}
	k.Count("views compared", 1)
	return true
}

func history(k *kit.K, seq int) {
	w, r := newWorld(k, "history", seq, time.Hour, true, true)
	defer w.reg.Close()
	note := func(f string, a ...interface{}) {
		w.trace = append(w.trace, fmt.Sprintf(f, a...))
		k.Eval(fmt.Sprintf("%d/%d/%s", k.Seed, seq, strings.Join(w.trace, "|")))
	}
	started := false
	if seq%20 == 1 { // far more nodes than a test has
		n := 260 + r.Intn(300)
		note("%d gateways and providers register", n)
		for i := 0; i < n; i++ {
			g, p := fakes.NewNode(r), fakes.NewNode(r)
			w.gids, w.pids = append(w.gids, g), append(w.pids, p)
			w.gateway(r, g)
			w.provider(r, p)
		}
		k.Count("registers of very many nodes", 1)
	}
	ops := 12 + r.Intn(20)
	for o := 0; o < ops && k.Violations() == 0; o++ {
		switch x := r.Intn(13); {
		case x < 3:
			id := fakes.NewNode(r)
			if len(w.gids) > 0 && r.Intn(2) == 0 {
				id = w.gids[r.Intn(len(w.gids))]
				note("gateway %.6s changes", id.ToString())
				w.gateway(r, id)
			} else {
				note("gateway %.6s registers", id.ToString())
				w.gids = append(w.gids, id)
				w.gateway(r, id)
				if started && r.Intn(2) == 0 { // looked up before any refresh
					if got := gw(w.mgr.GetGateway(id)); got != w.gws[id.ToString()] {
						k.Violate("new-gateway", w.trace, "a registered gateway is looked up: %s, want %s", got, w.gws[id.ToString()])
					}
					k.Count("new gateways looked up", 1)
				}
			}
		case x < 5:
			id := fakes.NewNode(r)
			if len(w.pids) > 0 && r.Intn(2) == 0 {
				id = w.pids[r.Intn(len(w.pids))]
				note("provider %.6s changes", id.ToString())
			} else {
				note("provider %.6s registers", id.ToString())
				w.pids = append(w.pids, id)
			}
			w.provider(r, id)
		case x == 5: // unknown nodes
			note("unknown nodes")
			if w.mgr.GetGateway(fakes.NewNode(r)) != nil || w.mgr.GetProvider(fakes.NewNode(r)) != nil {
				k.Violate("unknown", w.trace, "a node nobody registered was found")
			}
		case x == 6 && started: // the register fails
			before := []map[string]string{}
			for _, m := range []map[string]string{w.gws, w.prs} {
				c := map[string]string{}
				for a, b := range m {
					c[a] = b
				}
				before = append(before, c)
			}
			w.mgr.Refresh()
			what := []string{"500", "404", "garbage", "cut", "null", "[null]", "wrong shape", "empty", "senseless from some entry on"}[r.Intn(9)]
			w.reg.Do(func() {
				switch what {
				case "500":
					w.reg.Status = 500
				case "404":
					w.reg.Status = 404
				case "garbage":
					w.reg.RawGateways, w.reg.RawProviders = "<html>", "<html>"
				case "cut":
					w.reg.RawGateways, w.reg.RawProviders = `[{"nodeId":"0011`, `[{"nodeId":"0011`
				case "null":
					w.reg.RawGateways, w.reg.RawProviders = "null", "null"
				case "[null]":
					w.reg.RawGateways, w.reg.RawProviders = "[null,null]", "[null]"
				case "wrong shape":
					w.reg.RawGateways, w.reg.RawProviders = `{"nodeId":5}`, `[5,"x"]`
				case "senseless from some entry on":
					// nobody can tell what else is wrong with it
					g, p := fakes.NewNode(r), fakes.NewNode(r)
					if len(w.gids) > 0 && len(w.pids) > 0 && r.Intn(2) == 0 {
						g, p = w.gids[r.Intn(len(w.gids))], w.pids[r.Intn(len(w.pids))]
					}
					gj, err := json.Marshal(fakes.GatewayEntry(g.ToString(), w.keys[0], "x:1", "x:2", "x:3", "x:4"))
					fakes.Must(err)
					pj, err := json.Marshal(fakes.ProviderEntry(p.ToString(), w.keys[0], "x:1", "x:3", "x:4"))
					fakes.Must(err)
					bad := []string{"5", `"x"`, `{"nodeId":5}`, "[]"}[r.Intn(4)]
					w.reg.RawGateways, w.reg.RawProviders = "["+string(gj)+","+bad+"]", "["+string(pj)+","+bad+","+string(pj)+"]"
				case "empty":
					w.reg.RawGateways, w.reg.RawProviders = "[]", "[]"
				}
			})
			note("register fails: %s", what)
			k.Count("register failures", 1)
			if r.Intn(2) == 0 {
				w.mgr.GetGateway(fakes.NewNode(r))
			}
			w.mgr.Refresh()
			l, p := w.gids, w.pids
			id := fakes.NewNode(r) // registered meanwhile, unseen until the register is back
			g2, p2 := w.gws, w.prs
			w.gws, w.prs = before[0], before[1]
			ok := w.view(k, "failing-register")
			w.gws, w.prs, w.gids, w.pids = g2, p2, l, p
			w.gids = append(w.gids, id)
			w.gateway(r, id)
			w.reg.Do(func() { w.reg.Status, w.reg.RawGateways, w.reg.RawProviders = 0, "", "" })
			if !ok {
				return
			}
			note("register is back")
		case x == 7: // registration of this node
			e := fakes.GatewayEntry(fakes.NewNode(r).ToString(), w.keys[0], "a", fakes.RandString(r), "c", "d")
			p := fakes.ProviderEntry(fakes.NewNode(r).ToString(), w.keys[0], "a", fakes.RandString(r), "d")
			st := []int{0, 0, 400, 409, 500, 503}[r.Intn(6)]
			w.reg.Do(func() { w.reg.Status, w.reg.Posts = st, nil })
			e1 := w.mgr.RegisterGateway(e)
			e2 := w.mgr.RegisterProvider(p)
			w.reg.Do(func() { w.reg.Status = 0 })
			note("register nodes, status %d", st)
			if (e1 == nil) != (st == 0) || (e2 == nil) != (st == 0) {
				k.Violate("registration:result", w.trace, "the register answers registrations with status %d, the node reports %v and %v", st, e1, e2)
				return
			}
			if st == 0 {
				w.gws[e.NodeID] = fmt.Sprintf("%+v", *e)
				w.prs[p.NodeID] = fmt.Sprintf("%+v", *p)
				var n int
				w.reg.Do(func() { n = len(w.reg.Posts) })
				if n != 2 {
					k.Violate("registration:count", w.trace, "2 registrations reached the register as %d", n)
					return
				}
			}
		case x == 8 && started && r.Intn(2) == 0:
			note("shutdown")
			w.reg.Do(func() { w.reg.Deletes = 0 })
			if r.Intn(2) == 0 {
				w.mgr.Shutdown()
			} else {
				w.mgr.ShutdownAndWait()
			}
			started = false
			ok := fakes.Eventually(20*time.Second, func() bool { n := 0; w.reg.Do(func() { n = w.reg.Deletes }); return n >= 2 })
			_ = ok
			w.mgr.Refresh()
			if n := len(w.mgr.GetAllGateways()) + len(w.mgr.GetAllProviders()); n != 0 {
				k.Violate("shutdown:view", w.trace, "after the shutdown the view lists %d nodes", n)
			}
			for _, id := range w.gids {
				if w.mgr.GetGateway(id) != nil {
					k.Violate("shutdown:gateway", w.trace, "after the shutdown a gateway is found")
				}
			}
			w.mgr.Shutdown() // no effect
			time.Sleep(5 * time.Millisecond)
		case x == 9 && !started || o == 3 && !started:
			down := r.Intn(3) == 0
			note("start, register down: %v", down)
			if down {
				w.reg.Do(func() { w.reg.Status = 500 })
			}
			if err := w.mgr.Start(); err != nil {
				k.Violate("start", w.trace, "start failed: %v", err)
			}
			if down { // nothing is left of what was seen before
				w.mgr.Refresh()
				g2, p2, l, p := w.gws, w.prs, w.gids, w.pids
				w.gws, w.prs, w.gids, w.pids = map[string]string{}, map[string]string{}, nil, nil
				w.view(k, "start-without-register")
				w.gws, w.prs, w.gids, w.pids = g2, p2, l, p
				w.reg.Do(func() { w.reg.Status = 0 })
				k.Count("starts without the register", 1)
			}
			if err := w.mgr.Start(); err == nil {
				k.Violate("start:twice", w.trace, "a second start gave no error")
			}
			started = true
		default:
			if !started {
				continue
			}
			note("refresh")
			w.mgr.Refresh()
			w.view(k, "refresh")
		}
	}
	if seq < 2 {
		k.Sample("history", w.trace)
	}
	if started {
		w.mgr.Shutdown()
	}
}

// interval: changes are seen without being asked for.
func interval(k *kit.K, seq int) {
	w, r := newWorld(k, "interval", seq, 20*time.Millisecond, true, true)
	defer w.reg.Close()
	fakes.Must(w.mgr.Start())
	for i := 0; i < 6; i++ {
		id := fakes.NewNode(r)
		w.gateway(r, id)
		w.provider(r, id)
		if i%2 == 1 { // an update of an old one
			for x := range w.gws {
				n, err := nodeid.NewNodeIDFromHexString(x)
				fakes.Must(err)
				w.gateway(r, n)
				w.provider(r, n)
				break
			}
		}
		if i == 3 {
			w.reg.Do(func() { w.reg.Status = 500 })
			time.Sleep(60 * time.Millisecond)
			w.reg.Do(func() { w.reg.Status = 0 })
		}
		if !fakes.Eventually(30*time.Second, func() bool {
			var l, p []string
			for _, g := range w.mgr.GetAllGateways() {
				l = append(l, gw(g))
			}
			for _, g := range w.mgr.GetAllProviders() {
				p = append(p, pr(g))
			}
			sort.Strings(l)
			sort.Strings(p)
			return strings.Join(l, "\n") == mapOf(w.gws) && strings.Join(p, "\n") == mapOf(w.prs)
		}) {
			k.Violate("interval", seq, "change %d of the register never reached the view, which refreshes every 20 ms", i)
			return
		}
		k.Count("changes seen without a refresh", 1)
		k.Eval(fmt.Sprintf("interval/%d/%d/%d", k.Seed, seq, i))
	}
	w.mgr.Shutdown()
}

// partly: a node that follows only one kind.
func partly(k *kit.K, seq int) {
	prov := seq%3 == 0
	gate := seq%3 == 1
	w, r := newWorld(k, "partly", seq, time.Hour, prov, gate)
	defer w.reg.Close()
	g, p := fakes.NewNode(r), fakes.NewNode(r)
	w.gateway(r, g)
	w.provider(r, p)
	fakes.Must(w.mgr.Start())
	w.mgr.Refresh()
	if f := w.mgr.GetGateway(g) != nil; f != gate {
		k.Violate("partly:gateway", seq, "following gateways %v: found %v", gate, f)
	}
	if f := w.mgr.GetProvider(p) != nil; f != prov {
		k.Violate("partly:provider", seq, "following providers %v: found %v", prov, f)
	}
	if len(w.mgr.GetAllGateways()) > 0 != gate || len(w.mgr.GetAllProviders()) > 0 != prov {
		k.Violate("partly:lists", seq, "lists of a node that follows gateways %v, providers %v: %d %d", gate, prov, len(w.mgr.GetAllGateways()), len(w.mgr.GetAllProviders()))
	}
	w.mgr.Shutdown()
	k.Eval(fmt.Sprintf("partly/%d/%d", k.Seed, seq))
}

// concurrent: what is registered before a refresh is in the view after it, whoever else refreshes or looks up.
func concurrent(k *kit.K, seq int) {
	w, r := newWorld(k, "concurrent", seq, time.Duration(1+seq%3)*10*time.Millisecond, true, true)
	defer w.reg.Close()
	dr := k.Sub("delays", seq)
	var dmu sync.Mutex
	w.reg.Do(func() {
		w.reg.Delay = func() {
			dmu.Lock()
			d := dr.Intn(4)
			dmu.Unlock()
			time.Sleep(time.Duration(d) * 500 * time.Microsecond)
		}
	})
	known := fakes.NewNode(r)
	w.gateway(r, known)
	w.provider(r, known)
	fakes.Must(w.mgr.Start())
	w.mgr.Refresh()
	order := &kit.Interleavings{}
	var wmu sync.Mutex
	k.Parallel("concurrent", 9, func(g int) {
		rr := k.Sub("worker", seq*100+g)
		for j := 0; j < 8 && k.Violations() == 0; j++ {
			if g >= 6 { // readers
				if w.mgr.GetProvider(fakes.NewNode(rr)) != nil || w.mgr.GetGateway(fakes.NewNode(rr)) != nil {
					k.Violate("concurrent:unknown", seq, "a node nobody registered was found")
				}
				if w.mgr.GetGateway(known) == nil || w.mgr.GetProvider(known) == nil {
					k.Violate("concurrent:known", seq, "a node in the view was not found")
				}
				continue
			}
			id := fakes.NewNode(rr)
			wmu.Lock()
			w.gateway(rr, id)
			w.provider(rr, id)
			want, wantP := w.gws[id.ToString()], w.prs[id.ToString()]
			wmu.Unlock()
			w.mgr.Refresh()
			found := ""
			for _, x := range w.mgr.GetAllGateways() {
				if x.GetNodeID() == id.ToString() {
					found = gw(x)
				}
			}
			if p := pr(w.mgr.GetProvider(id)); found != want || p != wantP {
				k.Violate("concurrent:stale", seq, "registered, then refreshed: the view says %q and %q, want %q and %q", found, p, want, wantP)
			}
			order.Add(fmt.Sprint(g))
			k.Count("concurrent refreshes", 1)
		}
	})
	if k.Violations() == 0 {
		w.mgr.Refresh()
		w.view(k, "concurrent")
	}
	// look-ups during a shutdown end
	k.Parallel("shutdown", 5, func(g int) {
		if g == 0 {
			w.mgr.Shutdown()
			return
		}
		for j := 0; j < 10; j++ {
			w.mgr.Refresh()
			w.mgr.GetGateway(known)
			w.mgr.GetProvider(known)
			w.mgr.GetGateway(fakes.NewNode(k.Sub("x", g*100+j)))
		}
	})
	k.Eval("order/" + order.Key())
}

func main() {
	kit.Main("C14", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		c := k.N(8, 100)
		for i := 0; i < c && k.Violations() == 0; i++ {
			k.Guard("concurrent", i, 100*time.Second, func() { concurrent(k, i) })
		}
		k.Floor("concurrent refreshes", int64(c*40))
		if k.Args["mode"] == "concurrent" {
			return
		}
		h := k.N(200, 4000)
		for i := 0; i < h && k.Violations() == 0; i += 8 {
			k.Guard("history", i, 100*time.Second, func() {
				k.Parallel("history", 8, func(g int) { history(k, i+g) })
			})
		}
		k.Floor("views compared", int64(h))
		k.Floor("registers of very many nodes", 1)
		for i := 0; i < k.N(3, 12) && k.Violations() == 0; i++ {
			k.Guard("partly", i, 100*time.Second, func() { partly(k, i) })
			k.Guard("interval", i, 100*time.Second, func() { interval(k, i) })
		}
	})
}
