//go:build go1.22

// C02: every answer of the DHT ring is checked against an ordered set kept by the monitor.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/dhtring"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
)

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

func hexOf(b *big.Int) string { return fmt.Sprintf("%064x", new(big.Int).Mod(b, two256)) }
func num(h string) *big.Int   { b, _ := new(big.Int).SetString(h, 16); return b }
func cw(from, to string) *big.Int {
	return new(big.Int).Mod(new(big.Int).Sub(num(to), num(from)), two256)
}
func circ(a, b string) *big.Int {
	x, y := cw(a, b), cw(b, a)
	if x.Cmp(y) < 0 {
		return x
	}
	return y
}

type model map[string]bool

func (m model) sorted() []string {
	r := make([]string, 0, len(m))
	for h := range m {
		r = append(r, h)
	}
	sort.Strings(r)
	return r
}

// universe makes points that collide in interesting ways: both ends of the space, dense clusters, equidistant pairs.
func universe(r *rand.Rand, n int) []string {
	var u []string
	seen := map[string]bool{}
	add := func(b *big.Int) {
		h := hexOf(b)
		if !seen[h] {
			seen[h] = true
			u = append(u, h)
		}
	}
	kind := r.Intn(4)
	base := new(big.Int).Rand(r, two256)
	for len(u) < n {
		switch (kind + r.Intn(2)) % 4 {
		case 0:
			add(new(big.Int).Rand(r, two256))
		case 1:
			add(big.NewInt(int64(r.Intn(n * 2))))
		case 2:
			add(new(big.Int).Sub(two256, big.NewInt(int64(1+r.Intn(n*2)))))
		case 3:
			add(new(big.Int).Add(base, big.NewInt(int64(2*r.Intn(n*2)))))
		}
	}
	return u
}

type step struct {
	Op  string   `json:"op"`
	A   string   `json:"a"`
	B   string   `json:"b,omitempty"`
	N   int      `json:"n,omitempty"`
	Got []string `json:"got,omitempty"`
	Err string   `json:"err,omitempty"`
}

func checkClosest(k *kit.K, hist []step, m model, hex string, n int, excl string, got []string, err error) {
	if err != nil {
		k.Violate("closest:error", hist, "GetClosest(%s,%d,%q) on valid input failed: %v", hex, n, excl, err)
		return
	}
	cand := []string{}
	for h := range m {
		if h != excl {
			cand = append(cand, h)
		}
	}
	want := n
	if want > len(cand) {
		want = len(cand)
	}
	shape := "ring>num"
	if n > len(cand) {
		shape = "num>ring"
	}
	if excl != "" && len(m) == 1 {
		shape = "exclude-single"
	}
	seen := map[string]bool{}
	for _, g := range got {
		if seen[g] {
			k.Violate("closest:duplicate:"+shape, hist, "GetClosest returned %s twice", g)
		}
		seen[g] = true
		if !m[g] {
			k.Violate("closest:non-member:"+shape, hist, "GetClosest returned %s, which is not in the ring of %d", g, len(m))
		}
		if g == excl {
			k.Violate("closest:excluded:"+shape, hist, "GetClosest returned the excluded %s", g)
		}
	}
	if len(got) != want {
		k.Violate("closest:count:"+shape, hist, "GetClosest(%s,%d,%q) returned %d members, want %d (ring %d)\ngot %v\nring %v", hex, n, excl, len(got), want, len(m), got, m.sorted())
		return
	}
	sort.Slice(cand, func(i, j int) bool { return circ(hex, cand[i]).Cmp(circ(hex, cand[j])) < 0 })
	if want == 0 {
		return
	}
	limit := circ(hex, cand[want-1])
	for _, g := range got {
		if circ(hex, g).Cmp(limit) > 0 {
			k.Violate("closest:farther", hist, "GetClosest(%s,%d,%q) returned %s at distance %x although %d members are within %x", hex, n, excl, g, circ(hex, g), want, limit)
		}
	}
}

func checkRange(k *kit.K, hist []step, m model, a, b string, got []string, err error) {
	if err != nil {
		k.Violate("range:error", hist, "GetWithinRange on valid input failed: %v", err)
		return
	}
	var want []string
	if a == b {
		if m[a] {
			want = []string{a}
		}
	} else {
		span := cw(a, b)
		for h := range m {
			if cw(a, h).Cmp(span) <= 0 {
				want = append(want, h)
			}
		}
		sort.Slice(want, func(i, j int) bool { return cw(a, want[i]).Cmp(cw(a, want[j])) < 0 })
	}
	if strings.Join(want, ",") != strings.Join(got, ",") {
		shape := "general"
		if a == b {
			shape = "start=end"
		}
		k.Violate("range:members:"+shape, hist, "GetWithinRange(%s,%s)\ngot  %v\nwant %v\nring %v", a, b, got, want, m.sorted())
	}
}

func history(k *kit.K, n int) {
	r := k.Sub("history", n)
	u := universe(r, 2+r.Intn(14))
	large := n%600 == 599 // far more members than a test has
	if large {
		u = universe(r, 300+r.Intn(1500))
	}
	probe := append(append([]string{}, u...), universe(r, 6)...)
	ring := dhtring.CreateRing()
	m := model{}
	var hist []step
	steps := 20 + r.Intn(60)
	opKinds := map[string]bool{}
	if large {
		steps = 30
		for _, x := range u[:len(u)-10] {
			ring.Insert(x)
			m[x] = true
		}
		k.Count("rings of very many members", 1)
	}
	for i := 0; i < steps; i++ {
		var s step
		x := u[r.Intn(len(u))]
		switch p := r.Intn(100); {
		case p < 30:
			s = step{Op: "insert", A: x}
		case p < 50:
			s = step{Op: "remove", A: x}
			if r.Intn(4) == 0 && len(m) > 0 { // aim at the ends of the order
				so := m.sorted()
				s.A = so[0]
				if r.Intn(2) == 0 {
					s.A = so[len(so)-1]
				}
			}
		case p < 75:
			s = step{Op: "closest", A: probe[r.Intn(len(probe))], N: r.Intn(len(u) + 4)}
			if r.Intn(2) == 0 {
				s.B = probe[r.Intn(len(probe))]
			}
		case p < 95:
			s = step{Op: "range", A: probe[r.Intn(len(probe))], B: probe[r.Intn(len(probe))]}
			if r.Intn(12) == 0 {
				s.B = s.A
			}
		default:
			bad := []string{"", "zz", x + "0", x[:63], strings.Repeat("g", 64), " " + x[1:]}
			s = step{Op: "bad", A: bad[r.Intn(len(bad))]}
		}
		hist = append(hist, s)
		cur := &hist[len(hist)-1]
		before := ring.Size()
		var err error
		k.Guard("ring:"+s.Op, hist, 40*time.Second, func() {
			switch s.Op {
			case "insert":
				ring.Insert(s.A)
			case "remove":
				ring.Remove(s.A)
			case "closest":
				cur.Got, err = ring.GetClosest(s.A, s.N, s.B)
			case "range":
				cur.Got, err = ring.GetWithinRange(s.A, s.B)
			case "bad":
				ring.Insert(s.A)
				ring.Remove(s.A)
				if g, e := ring.GetClosest(s.A, 1, ""); e == nil {
					k.Violate("bad:closest", hist, "malformed key %q accepted, returned %v", s.A, g)
				}
				if g, e := ring.GetClosest(x, 1, s.A); e == nil && s.A != "" {
					k.Violate("bad:exclude", hist, "malformed exclusion %q accepted, returned %v", s.A, g)
				}
				if g, e := ring.GetWithinRange(s.A, x); e == nil {
					k.Violate("bad:range", hist, "malformed range start %q accepted, returned %v", s.A, g)
				}
				if g, e := ring.GetWithinRange(x, s.A); e == nil {
					k.Violate("bad:range", hist, "malformed range end %q accepted, returned %v", s.A, g)
				}
			}
		})
		if err != nil {
			cur.Err = err.Error()
		}
		switch s.Op {
		case "insert":
			m[s.A] = true
		case "remove":
			delete(m, s.A)
		case "closest":
			checkClosest(k, hist, m, s.A, s.N, s.B, cur.Got, err)
		case "range":
			checkRange(k, hist, m, s.A, s.B, cur.Got, err)
		}
		if s.Op != "insert" && s.Op != "remove" && ring.Size() != before {
			k.Violate("query-changes-ring", hist, "%s changed the size from %d to %d", s.Op, before, ring.Size())
		}
		if ring.Size() != len(m) {
			k.Violate("size", hist, "after %s the ring says %d members, inserted and not removed: %d", s.Op, ring.Size(), len(m))
		}
		k.Count("op_"+s.Op, 1)
		opKinds[s.Op] = true
		if k.Violations() > 0 {
			// the shadow and the ring may now differ; this history is over
			break
		}
		// structural invariant at this quiescent point: walking the whole circle from any point finds every member
		if len(m) > 0 && r.Intn(3) == 0 {
			a := new(big.Int).Rand(r, two256)
			h1, h2 := hexOf(new(big.Int).Add(a, big.NewInt(1))), hexOf(a)
			var got []string
			k.Guard("ring:circle", hist, 40*time.Second, func() { got, err = ring.GetWithinRange(h1, h2) })
			checkRange(k, hist, m, h1, h2, got, err)
			k.Count("full_circle_checks", 1)
		}
	}
	key := ""
	if len(opKinds) >= 3 {
		var sb strings.Builder
		for _, s := range hist {
			fmt.Fprintf(&sb, "%s%s%s%d;", s.Op, s.A, s.B, s.N)
		}
		key = sb.String()
	}
	k.Eval(key)
	if n < 2 {
		k.Sample("ring history", hist[:min(6, len(hist))])
	}
}

func main() {
	kit.Main("C02", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		k.Floor("op_closest", 1000)
		k.Floor("op_range", 1000)
		k.Floor("op_remove", 1000)
		k.Floor("rings of very many members", 4)
		n := k.N(2500, 60000)
		for i := 0; i < n && k.Violations() < 12; i++ {
			history(k, i)
		}
	})
}
