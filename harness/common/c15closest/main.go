//go:build go1.22

// C15: which gateways are responsible for a CID, as seen through the register: every answer is compared with a search of
// all gateways by their distance around the ring.
package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
)

var ring = new(big.Int).Lsh(big.NewInt(1), 256)

func num(h string) *big.Int {
	b, err := hex.DecodeString(h)
	fakes.Must(err)
	return new(big.Int).SetBytes(b)
}

func cw(a, b string) *big.Int { return new(big.Int).Mod(new(big.Int).Sub(num(b), num(a)), ring) }

func circ(a, b string) *big.Int {
	x, y := cw(a, b), cw(b, a)
	if x.Cmp(y) < 0 {
		return x
	}
	return y
}

func point(r *rand.Rand, style int, base *big.Int) *big.Int {
	x := new(big.Int)
	switch style {
	case 0: // anywhere
		x.Rand(r, ring)
	case 1: // close together, around a point
		x.Add(base, big.NewInt(int64(r.Intn(200)-100)))
	case 2: // around zero
		x.SetInt64(int64(r.Intn(60) - 30))
	case 3: // same leading bytes
		x.Lsh(big.NewInt(int64(r.Intn(256))), uint(r.Intn(31)*8))
	}
	return x.Mod(x, ring)
}

func hx(x *big.Int) string { return fmt.Sprintf("%064x", x) }

// judge compares an answer with the members.
func judge(k *kit.K, key string, rep interface{}, members map[string]string, c string, n int, excl string, got []register.GatewayRegistrar) bool {
	var cand []string
	for h := range members {
		if h != excl {
			cand = append(cand, h)
		}
	}
	sort.Slice(cand, func(i, j int) bool { return circ(c, cand[i]).Cmp(circ(c, cand[j])) < 0 })
	want := n
	if want < 0 {
		want = 0
	}
	if want > 16 {
		want = 16
	}
	if want > len(cand) {
		want = len(cand)
	}
	seen := map[string]bool{}
	for _, g := range got {
		id := g.GetNodeID()
		switch {
		case seen[id]:
			k.Violate(key+":twice", rep, "gateway %s returned twice", id)
		case id == excl:
			k.Violate(key+":excluded", rep, "the excluded gateway was returned")
		case members[id] == "":
			k.Violate(key+":unknown", rep, "gateway %s, which is not registered, was returned", id)
		case members[id] != fmt.Sprintf("%+v", g.Serialize()):
			k.Violate(key+":details", rep, "gateway %s was returned as %+v, registered is %s", id, g.Serialize(), members[id])
		default:
			seen[id] = true
			continue
		}
		return false
	}
	if len(got) != want {
		k.Violate(key+":count", rep, "%d gateways near %s returned, want %d (asked for %d, %d known)", len(got), c, want, n, len(cand))
		return false
	}
	if want > 0 {
		limit := circ(c, cand[want-1])
		for id := range seen {
			if circ(c, id).Cmp(limit) > 0 {
				k.Violate(key+":farther", rep, "gateway %s at distance %x was returned although %d gateways are within %x", id, circ(c, id), want, limit)
				return false
			}
		}
	}
	return true
}

func entry(r *rand.Rand, key *fcrcrypto.KeyPair, id string) *register.GatewayRegister {
	return fakes.GatewayEntry(id, key, fmt.Sprint("gw", r.Int31()), "p", "c", "a")
}

func world(k *kit.K, seq int) {
	r := k.Sub("world", seq)
	large := seq%15 == 1 // far more gateways than a test has
	reg := fakes.NewRegister()
	defer reg.Close()
	key := fakes.KeyFrom(r)
	mgr := fcrregistermgr.NewFCRRegisterMgr(reg.URL, false, true, time.Hour)
	fakes.Must(mgr.Start())
	defer mgr.Shutdown()
	members := map[string]string{}
	base := new(big.Int).Rand(r, ring)
	style := r.Intn(4)
	queries := 0
	for round := 0; round < 4 && k.Violations() == 0; round++ {
		add := []int{0, 1, 2, 5, 14, 16, 17, 30}[r.Intn(8)]
		if large && round == 1 {
			add = 260 + r.Intn(300)
			k.Count("registers of very many gateways", 1)
		}
		for i := 0; i < add; i++ {
			s := style
			if r.Intn(4) == 0 {
				s = r.Intn(4)
			}
			e := entry(r, key, hx(point(r, s, base)))
			reg.SetGateway(e)
			members[e.NodeID] = fmt.Sprintf("%+v", *e)
		}
		for id := range members { // a change of details moves nobody
			if r.Intn(6) == 0 {
				e := entry(r, key, id)
				reg.SetGateway(e)
				members[id] = fmt.Sprintf("%+v", *e)
			}
		}
		reg.Junk(r, r.Intn(2)*r.Intn(3))
		mgr.Refresh()
		var ids []string
		for id := range members {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for q := 0; q < 25 && k.Violations() == 0; q++ {
			s := style
			if r.Intn(3) == 0 {
				s = r.Intn(4)
			}
			x := hx(point(r, s, base))
			if len(ids) > 0 && r.Intn(4) == 0 {
				x = ids[r.Intn(len(ids))]
			}
			c, err := cid.NewContentIDFromHexString(x)
			fakes.Must(err)
			n := []int{0, 1, 2, 4, 8, 15, 16, 17, 100, -1, -16, 3}[r.Intn(12)]
			var excl *nodeid.NodeID
			ex := ""
			if len(ids) > 0 && r.Intn(2) == 0 {
				ex = ids[r.Intn(len(ids))]
				if r.Intn(4) == 0 {
					ex = hx(point(r, style, base))
				}
				excl, err = nodeid.NewNodeIDFromHexString(ex)
				fakes.Must(err)
			}
			rep := map[string]interface{}{"gateways": ids, "cid": x, "n": n, "excluded": ex}
			got, err := mgr.GetGatewaysNearCID(c, n, excl)
			queries++
			k.Eval(fmt.Sprintf("%d/%d/%s/%d/%s/%d", seq, round, x, n, ex, len(ids)))
			if err != nil {
				k.Violate("near:error", rep, "a search failed: %v", err)
				return
			}
			if !judge(k, "near", rep, members, x, n, ex, got) {
				return
			}
			k.Count("searches", 1)
		}
		// the range of CIDs of each gateway
		for i := 0; i < len(ids) && i < 6 && k.Violations() == 0; i++ {
			me := ids[r.Intn(len(ids))]
			id, err := nodeid.NewNodeIDFromHexString(me)
			fakes.Must(err)
			lo, hi, err := mgr.GetGatewayCIDRange(id)
			rep := map[string]interface{}{"gateways": ids, "gateway": me}
			k.Eval(fmt.Sprintf("range/%d/%d/%s/%d", seq, round, me, len(ids)))
			if len(ids) < 3 {
				if err == nil {
					k.Violate("range:few", rep, "a range of CIDs was given with %d gateways", len(ids))
				}
				continue
			}
			if err != nil {
				k.Violate("range:error", rep, "the range of CIDs of a gateway: %v", err)
				return
			}
			span := cw(lo.ToString(), hi.ToString())
			var in []register.GatewayRegistrar
			for _, g := range mgr.GetAllGateways() {
				if g.GetNodeID() != me && members[g.GetNodeID()] != "" && cw(lo.ToString(), g.GetNodeID()).Cmp(span) <= 0 {
					in = append(in, g)
				}
			}
			if !judge(k, "range", rep, members, me, 16, me, in) {
				return
			}
			k.Count("ranges", 1)
		}
	}
	if seq < 2 {
		k.Sample("world", map[string]interface{}{"gateways": len(members), "searches": queries})
	}
}

// concurrent: searches while gateways are added.
func concurrent(k *kit.K, seq int) {
	r := k.Sub("concurrent", seq)
	reg := fakes.NewRegister()
	defer reg.Close()
	key := fakes.KeyFrom(r)
	mgr := fcrregistermgr.NewFCRRegisterMgr(reg.URL, true, true, 5*time.Millisecond)
	fakes.Must(mgr.Start())
	defer mgr.Shutdown()
	base := new(big.Int).Rand(r, ring)
	old := map[string]string{}
	add := func(rr *rand.Rand, into map[string]string) {
		e := entry(rr, key, hx(point(rr, seq%2, base)))
		if old[e.NodeID] != "" {
			return
		}
		into[e.NodeID] = fmt.Sprintf("%+v", *e)
		reg.SetGateway(e)
	}
	for i := 0; i < 12; i++ {
		add(r, old)
	}
	mgr.Refresh()
	var mu sync.Mutex
	later := map[string]string{}
	order := &kit.Interleavings{}
	k.Parallel("concurrent", 8, func(g int) {
		rr := k.Sub("worker", seq*50+g)
		for j := 0; j < 20 && k.Violations() == 0; j++ {
			if g < 2 {
				mu.Lock()
				add(rr, later)
				mu.Unlock()
				mgr.Refresh()
				continue
			}
			x := hx(point(rr, rr.Intn(2), base))
			var excl *nodeid.NodeID
			ex := ""
			if rr.Intn(2) == 0 {
				for id := range old {
					ex = id
					break
				}
				var err error
				excl, err = nodeid.NewNodeIDFromHexString(ex)
				fakes.Must(err)
			}
			c, err := cid.NewContentIDFromHexString(x)
			fakes.Must(err)
			n := 1 + rr.Intn(8)
			got, err := mgr.GetGatewaysNearCID(c, n, excl)
			if err != nil {
				k.Violate("concurrent:error", seq, "a search failed: %v", err)
				return
			}
			if len(got) != n {
				k.Violate("concurrent:count", seq, "%d gateways returned, want %d", len(got), n)
				return
			}
			// against the gateways known from the start: as many of them as were pushed out by newer ones may be missing
			var cand []string
			for id := range old {
				if id != ex {
					cand = append(cand, id)
				}
			}
			sort.Slice(cand, func(i, j int) bool { return circ(x, cand[i]).Cmp(circ(x, cand[j])) < 0 })
			seen := map[string]bool{}
			for _, a := range got {
				mu.Lock()
				ok := old[a.GetNodeID()] != "" || later[a.GetNodeID()] != ""
				mu.Unlock()
				if !ok || seen[a.GetNodeID()] || a.GetNodeID() == ex || circ(x, a.GetNodeID()).Cmp(circ(x, cand[n-1])) > 0 {
					k.Violate("concurrent:answer", seq, "gateway %s (excluded %s) is not among the closest to %s", a.GetNodeID(), ex, x)
					return
				}
				seen[a.GetNodeID()] = true
			}
			if g == 7 && excl != nil {
				if _, _, err := mgr.GetGatewayCIDRange(excl); err != nil {
					k.Violate("concurrent:range", seq, "range of CIDs: %v", err)
				}
			}
			order.Add(fmt.Sprint(g))
			k.Count("concurrent searches", 1)
		}
	})
	if k.Violations() > 0 {
		return
	}
	mgr.Refresh()
	for id, e := range later {
		old[id] = e
	}
	c, err := cid.NewContentIDFromHexString(hx(base))
	fakes.Must(err)
	got, err := mgr.GetGatewaysNearCID(c, 16, nil)
	if err != nil {
		k.Violate("concurrent:error", seq, "a search failed: %v", err)
		return
	}
	judge(k, "afterwards", seq, old, hx(base), 16, "", got)
	k.Eval("order/" + order.Key())
}

// arrivals: very many gateways register at once, while searches go on without a pause.
func arrivals(k *kit.K, seq int) {
	r := k.Sub("arrivals", seq)
	reg := fakes.NewRegister()
	defer reg.Close()
	key := fakes.KeyFrom(r)
	mgr := fcrregistermgr.NewFCRRegisterMgr(reg.URL, true, true, time.Hour)
	fakes.Must(mgr.Start())
	defer mgr.Shutdown()
	known := map[string]string{}
	add := func() {
		e := entry(r, key, hx(point(r, 0, new(big.Int))))
		known[e.NodeID] = fmt.Sprintf("%+v", *e)
		reg.SetGateway(e)
	}
	for len(known) < 20 {
		add()
	}
	mgr.Refresh()
	for len(known) < k.N(1500, 3000) {
		add()
	}
	var stop atomic.Bool
	var asked atomic.Int64
	go func() {
		defer stop.Store(true)
		mgr.Refresh()
	}()
	k.Parallel("arrivals", 8, func(g int) {
		rr := k.Sub("arrivals-worker", seq*50+g)
		for !stop.Load() && k.Violations() == 0 {
			x := hx(point(rr, 0, new(big.Int)))
			c, err := cid.NewContentIDFromHexString(x)
			fakes.Must(err)
			got, err := mgr.GetGatewaysNearCID(c, 16, nil)
			if err != nil || len(got) != 16 {
				k.Violate("arrivals", seq, "while gateways arrive, a search for 16 near %s gave %d: %v", x, len(got), err)
				return
			}
			if g == 0 {
				id, err := nodeid.NewNodeIDFromHexString(x)
				fakes.Must(err)
				if _, _, err := mgr.GetGatewayCIDRange(id); err != nil {
					k.Violate("arrivals:range", seq, "while gateways arrive, the range of CIDs of %s: %v", x, err)
					return
				}
			}
			asked.Add(1)
			runtime.Gosched()
		}
	})
	for !stop.Load() && k.Violations() == 0 {
		time.Sleep(time.Millisecond)
	}
	k.Count("searches while gateways arrive", int(asked.Load()))
	if k.Violations() > 0 {
		return
	}
	x := hx(point(r, 0, new(big.Int)))
	c, err := cid.NewContentIDFromHexString(x)
	fakes.Must(err)
	got, err := mgr.GetGatewaysNearCID(c, 16, nil)
	fakes.Must(err)
	judge(k, "arrived", seq, known, x, 16, "", got)
	k.Eval(fmt.Sprintf("arrivals/%d/%d", k.Seed, seq))
}

func main() {
	kit.Main("C15", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		n := k.N(8, 100)
		for i := 0; i < n && k.Violations() == 0; i++ {
			k.Guard("concurrent", i, 100*time.Second, func() { concurrent(k, i) })
		}
		k.Floor("concurrent searches", int64(n*60))
		for i := 0; i < k.N(4, 40) && k.Violations() == 0; i++ {
			k.Guard("arrivals", i, 100*time.Second, func() { arrivals(k, i) })
		}
		k.Floor("searches while gateways arrive", 500)
		if k.Args["mode"] == "concurrent" {
			return
		}
		h := k.N(120, 3000)
		for i := 0; i < h && k.Violations() == 0; i += 8 {
			k.Guard("world", i, 100*time.Second, func() {
				k.Parallel("world", 8, func(g int) { world(k, i+g) })
			})
		}
		k.Floor("searches", int64(h*50))
		k.Floor("registers of very many gateways", 1)
		k.Floor("ranges", int64(h))
	})
}
