//go:build go1.22

// C32: the gateways of the JavaScript client: those it uses are those of the register, those active proved who they are, and
// what Go programs sign verifies there.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/verif_clkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/js"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/lotus"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/redis"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
)

// entry is what the JavaScript client has of a register entry.
type entry struct {
	Key string `json:"key"`
	register.GatewayRegister
}

type state struct {
	Use    []entry `json:"use"`
	Active []entry `json:"active"`
}

// gate is a gateway, and what is wrong with it or with its entry.
type gate struct {
	*clkit.Server
	id    string
	lack  string
	entry *register.GatewayRegister
	fault atomic.Value
	asked atomic.Int64
}

type world struct {
	k          *kit.K
	js         *js.Worker
	h          int
	client     string
	srv        *httptest.Server
	gates      []*gate
	byID       map[string]*gate
	slow       atomic.Bool
	seq        atomic.Int64
	mu         sync.Mutex
	challenges map[string]bool
	order      []string
}

var lacks = []string{"none", "status", "garbage", "cut", "other", "no-key", "short-key", "long-key", "algorithm", "not-hex"}
var lackSeq int

func newWorld(k *kit.K, w *js.Worker, r *rand.Rand, n int, sound bool) *world {
	x := &world{k: k, js: w, byID: map[string]*gate{}, challenges: map[string]bool{}}
	x.srv = httptest.NewServer(x)
	for i := 0; i < n; i++ {
		g := &gate{Server: clkit.NewServer(r)}
		g.id = g.ID.ToString()
		g.fault.Store("")
		g.Answer(func(m *svc.Msg) *clkit.Reply { return x.handle(g, m) })
		if !sound && i%3 == 2 {
			g.lack = lacks[lackSeq%len(lacks)]
			lackSeq++
		}
		g.entry = fakes.GatewayEntry(g.id, g.Key, "127.0.0.1:1", "127.0.0.1:1", g.Addr, "127.0.0.1:1")
		g.entry.Address = fakes.RandString(r)
		if r.Intn(4) == 0 {
			g.entry.NodeID = strings.ToUpper(g.id)
		}
		x.gates = append(x.gates, g)
		x.byID[g.id] = g
	}
	x.client = fakes.NewNode(r).ToString()
	if err := w.Do("client", js.Args{"url": x.srv.URL, "id": x.client, "ttl": 1000}, &x.h); err != nil {
		panic("harness: " + err.Error())
	}
	return x
}

func (w *world) close() {
	for _, g := range w.gates {
		for _, b := range g.Bad() {
			w.k.Violate("malformed-request", b, "the client sent what is no message: %.300s", b)
		}
		g.Close()
	}
	w.srv.CloseClientConnections()
	w.srv.Close()
}

// ServeHTTP is the register.
func (w *world) ServeHTTP(a http.ResponseWriter, q *http.Request) {
	if w.slow.Load() {
		time.Sleep(time.Duration(w.k.Sub("slow", int(w.seq.Add(1))).Intn(12)) * time.Millisecond)
	}
	id := strings.TrimPrefix(q.URL.Path, "/registers/gateway/")
	g := w.byID[id]
	if g == nil || q.Method != "GET" {
		w.k.Violate("register-request", q.URL.Path, "the register was asked for what nobody asked for: %s %s", q.Method, q.URL.Path)
		a.WriteHeader(404)
		return
	}
	e := *g.entry
	a.Header().Set("Content-Type", "application/json")
	say := func(v interface{}) {
		b, err := json.Marshal(v)
		fakes.Must(err)
		a.Write(b)
	}
	switch g.lack {
	case "none":
		a.WriteHeader(404)
		say(map[string]string{"message": "Register not found"})
		return
	case "status":
		a.WriteHeader([]int{500, 503, 400, 429}[len(g.Addr)%4])
	case "garbage":
		a.Write([]byte([]string{"null", "[]", "{", `"x"`, "7", "", "{\"signingKey\":7}"}[int(w.seq.Add(1))%7]))
		return
	case "cut":
		if c, _, err := a.(http.Hijacker).Hijack(); err == nil {
			c.Close()
		}
		return
	case "other":
		e = *w.other(g).entry
	case "no-key":
		e.SigningKey = ""
	case "short-key":
		e.SigningKey = e.SigningKey[:len(e.SigningKey)-2]
	case "long-key":
		e.SigningKey += "00"
	case "algorithm":
		e.SigningKey = "02" + e.SigningKey[2:]
	case "not-hex":
		e.SigningKey = "a key"
	}
	say(e)
}

func (w *world) other(g *gate) *gate {
	if w.gates[0] == g {
		return w.gates[1]
	}
	return w.gates[0]
}

func (w *world) handle(g *gate, m *svc.Msg) *clkit.Reply {
	n := g.asked.Add(1)
	if w.slow.Load() {
		time.Sleep(time.Duration(w.k.Sub("slow", int(w.seq.Add(1))).Intn(12)) * time.Millisecond)
	}
	client, challenge, _, err := fcrmessages.DecodeClientEstablishmentRequest(m)
	if err != nil {
		w.k.Violate("challenge:kind", svc.Text(m), "a gateway got a request that is no challenge: %v", err)
		return nil
	}
	if b, err := base64.StdEncoding.DecodeString(challenge); err != nil || len(b) != 32 {
		w.k.Violate("challenge:form", challenge, "a challenge is not 32 bytes in base 64: %q", challenge)
	}
	if client.ToString() != w.client {
		w.k.Violate("challenge:client", client.ToString(), "a challenge names the client %s, which is %s", client.ToString(), w.client)
	}
	w.mu.Lock()
	if w.challenges[challenge] {
		w.k.Violate("challenge:repeated", challenge, "a challenge was used before")
	}
	w.challenges[challenge] = true
	w.order = append(w.order, g.id[:4])
	w.mu.Unlock()
	r := w.k.Sub("answer "+g.id, int(n))
	fault := g.fault.Load().(string)
	if fault == "signature" {
		m, err := fcrmessages.EncodeClientEstablishmentResponse(g.ID, challenge)
		fakes.Must(err)
		fakes.Must(m.Sign(g.Key, g.Ver))
		return &clkit.Reply{Msg: svc.Resigned(m, alter(r, m.GetSignature()))}
	}
	return clkit.Spoil(r, fault, g.Party, w.other(g).Party, func(idShift bool, change int64) (*svc.Msg, error) {
		id, c := g.ID, challenge
		if idShift {
			id = w.other(g).ID
		}
		if change != 0 {
			c = base64.StdEncoding.EncodeToString(make([]byte, 32))
			switch change {
			case -1:
				c = challenge[:len(challenge)-4]
			case clkit.NonceZero:
				c = ""
			case clkit.NonceNegative:
				c = strings.ToUpper(challenge)
			case clkit.NonceLow:
				c = challenge + "AAAA"
			case clkit.NonceOne:
				c = " " + challenge
			}
			if c == challenge {
				c += "A"
			}
		}
		return fcrmessages.EncodeClientEstablishmentResponse(id, c)
	})
}

// alter changes a signature where it counts: not in the version of its key, nor in the byte that tells the key.
func alter(r *rand.Rand, s string) string {
	b, err := hex.DecodeString(s)
	fakes.Must(err)
	switch r.Intn(6) {
	case 0:
		b = append(b[:4:4], b[5:]...)
	case 1:
		b = append(append(b[:68:68], byte(r.Intn(256))), b[68:]...)
	case 2:
		for i := 4; i < 68; i++ {
			b[i] = 0
		}
	case 3:
		b = b[:r.Intn(4)]
	default:
		b[4+r.Intn(64)] ^= 1 << r.Intn(8)
	}
	return hex.EncodeToString(b)
}

func (w *world) state() (use, active map[string]entry, err error) {
	var s state
	if err = w.js.Do("state", js.Args{"h": w.h}, &s); err != nil {
		return
	}
	use, active = map[string]entry{}, map[string]entry{}
	for _, e := range s.Use {
		use[e.Key] = e
	}
	for _, e := range s.Active {
		active[e.Key] = e
	}
	if len(use) != len(s.Use) || len(active) != len(s.Active) {
		w.k.Violate("twice", s, "a gateway is listed twice")
	}
	return
}

// compare looks at what the client has now.
func (w *world) compare(rep string, use, active map[string]bool) {
	u, a, err := w.state()
	if err != nil {
		w.lost("state", err, rep)
		return
	}
	for _, x := range []struct {
		what string
		got  map[string]entry
		want map[string]bool
	}{{"use", u, use}, {"active", a, active}} {
		for id := range x.want {
			if _, ok := x.got[id]; !ok {
				w.k.Violate("missing:"+x.what, rep, "%s: gateway %.8s is missing: %s", x.what, id, rep)
			}
		}
		for id, e := range x.got {
			g := w.byID[id]
			if !x.want[id] {
				why := ""
				if g != nil {
					why = fmt.Sprintf(" (its entry lacks %q, its answer %q)", g.lack, g.fault.Load())
				}
				w.k.Violate("unwanted:"+x.what, rep, "%s: gateway %.8s should not be there%s: %s", x.what, id, why, rep)
				continue
			}
			if e.GatewayRegister != *g.entry {
				w.k.Violate("entry:"+x.what, rep, "%s: the entry of gateway %.8s is %+v, in the register %+v", x.what, id, e.GatewayRegister, *g.entry)
			}
		}
	}
}

func (w *world) lost(op string, err error, rep string) {
	if !errors.Is(err, js.ErrLost) {
		w.k.Violate("threw:"+op, rep, "%s threw %v: %s", op, err, rep)
	}
}

var faults = append([]string{"signature"}, clkit.Faults...)

func (w *world) shuffleFaults(r *rand.Rand) {
	for _, g := range w.gates {
		g.fault.Store("")
		if r.Intn(3) == 0 {
			g.fault.Store(faults[r.Intn(len(faults))])
		}
	}
}

func history(k *kit.K, jw *js.Worker, seq, steps int) {
	r := k.Sub("history", seq)
	w := newWorld(k, jw, r, 5+r.Intn(8), false)
	defer w.close()
	use, active := map[string]bool{}, map[string]bool{}
	var trail []string
	for i := 0; i < steps && k.Violations() < 20; i++ {
		w.shuffleFaults(r)
		var ids, text []string
		var gs []*gate
		for j := r.Intn(6); j >= 0; j-- {
			g := w.gates[r.Intn(len(w.gates))]
			gs, ids, text = append(gs, g), append(ids, g.id), append(text, g.id[:4])
		}
		op := []string{"use", "activate"}[r.Intn(2)]
		trail = append(trail, op+" "+strings.Join(text, " "))
		if len(trail) > 10 {
			trail = trail[1:]
		}
		rep := strings.Join(trail, "; ")
		before := map[*gate]int64{}
		for _, g := range w.gates {
			before[g] = g.asked.Load()
		}
		want, got := 0, 0
		ask := map[*gate]bool{}
		for _, g := range gs {
			switch {
			case op == "use" && g.lack != "":
				k.Count("refused, lacks "+g.lack, 1)
			case op == "use" && !use[g.id]:
				use[g.id] = true
				want++
			case op == "activate" && use[g.id] && !active[g.id]:
				ask[g] = true
				if f := g.fault.Load().(string); f != "" {
					k.Count("not proven, "+f, 1)
				} else {
					active[g.id] = true
					want++
				}
			}
		}
		if err := w.js.Do(op, js.Args{"h": w.h, "ids": ids}, &got); err != nil {
			w.lost(op, err, rep)
			return
		}
		if got != want {
			k.Violate("count:"+op, rep, "%s said %d, of %d gateways that were to be added: %s", op, got, want, rep)
		}
		for _, g := range w.gates {
			if n := g.asked.Load() - before[g]; n > 0 && !ask[g] {
				k.Violate("asked", rep, "gateway %.8s was challenged for nothing: %s", g.id, rep)
			}
		}
		k.Count(op, 1)
		if want > 0 {
			k.Count("added by "+op, want)
		}
		w.compare(rep, use, active)
		k.Eval(fmt.Sprint(op, want, len(ids), len(use), len(active), rep))
		if i%15 == 14 { // a fresh client
			if err := w.js.Do("client", js.Args{"url": w.srv.URL, "id": w.client, "ttl": 1000}, &w.h); err != nil {
				return
			}
			use, active, trail = map[string]bool{}, map[string]bool{}, nil
			k.Count("clients", 1)
		}
	}
	k.Sample("history", trail)
}

// concurrent: operations on one client overlap.
func concurrent(k *kit.K, jw *js.Worker, seq, rounds int) {
	r := k.Sub("concurrent", seq)
	w := newWorld(k, jw, r, 6+r.Intn(6), false)
	defer w.close()
	w.slow.Store(true)
	for round := 0; round < rounds && k.Violations() < 20; round++ {
		if err := w.js.Do("client", js.Args{"url": w.srv.URL, "id": w.client, "ttl": 1000}, &w.h); err != nil {
			return
		}
		w.mu.Lock()
		w.order = nil
		w.mu.Unlock()
		for _, g := range w.gates {
			g.fault.Store("")
		}
		var bad []*gate
		for _, g := range w.gates {
			if r.Intn(5) == 0 {
				g.fault.Store(faults[r.Intn(len(faults))])
				bad = append(bad, g)
			}
		}
		for _, op := range []string{"use", "activate"} {
			var wg sync.WaitGroup
			var sum atomic.Int64
			asked := map[string]bool{}
			n := 2 + r.Intn(5)
			for c := 0; c < n; c++ {
				var ids []string
				for j := 1 + r.Intn(len(w.gates)); j > 0; j-- {
					id := w.gates[r.Intn(len(w.gates))].id
					ids = append(ids, id)
					asked[id] = true
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					var got int
					if err := w.js.Do(op, js.Args{"h": w.h, "ids": ids}, &got); err != nil {
						w.lost(op, err, fmt.Sprint(ids))
						return
					}
					sum.Add(int64(got))
				}()
			}
			wg.Wait()
			u, a, err := w.state()
			if err != nil {
				return
			}
			rep := fmt.Sprintf("world %d round %d: %d callers, %d to use, %d active, %d asked for", seq, round, n, len(u), len(a), len(asked))
			have := u
			if op == "activate" {
				have = a
			}
			if int64(len(have)) != sum.Load() {
				k.Violate("concurrent:"+op, rep, "callers at once were told of %d gateways added, there are %d: %s", sum.Load(), len(have), rep)
			}
			for id := range asked {
				g := w.byID[id]
				_, in := u[id]
				good := g.lack == "" && (op == "use" || in && g.fault.Load() == "")
				if _, ok := have[id]; ok != good {
					k.Violate("concurrent-set:"+op, rep, "gateway %.8s (entry %q, answer %q): there %v, should be %v: %s", id, g.lack, g.fault.Load(), ok, good, rep)
				}
			}
		}
		k.Count("rounds", 1)
		w.mu.Lock()
		k.Eval(strings.Join(w.order, " "))
		w.mu.Unlock()
	}
}

// signatures: what Go signs verifies, and nothing else.
func signatures(k *kit.K, jw *js.Worker, n int) {
	r := k.Sub("signatures", 0)
	for i := 0; i < n && k.Violations() < 20; i++ {
		key, other := fakes.KeyFrom(r), fakes.KeyFrom(r)
		m := fakes.RandMessage(r, key, 1)
		fakes.Must(m.Sign(key, fcrcrypto.DecodeKeyVersion(r.Uint32())))
		text, err := json.Marshal(m)
		fakes.Must(err)
		if len(text) > 60000 {
			continue
		}
		how := []string{"", "", "", "key", "signature", "body", "kind", "version", "supported", "none"}[r.Intn(10)]
		pub := fakes.PubHex(key)
		var f map[string]json.RawMessage
		fakes.Must(json.Unmarshal(text, &f))
		set := func(n string, v interface{}) {
			b, err := json.Marshal(v)
			fakes.Must(err)
			if bytes.Equal(b, f[n]) {
				panic("harness: nothing changed")
			}
			f[n] = b
		}
		switch how {
		case "key":
			pub = fakes.PubHex(other)
		case "signature":
			set("message_signature", alter(r, m.GetSignature()))
		case "body":
			b := append([]byte(nil), m.GetMessageBody()...)
			if len(b) == 0 || r.Intn(3) == 0 {
				b = append(b, byte(r.Intn(256)))
			} else {
				b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
			}
			set("message_body", b)
		case "kind":
			set("message_type", m.GetMessageType()+int32(1+r.Intn(50)))
		case "version":
			set("protocol_version", 2+r.Intn(50))
		case "supported":
			set("protocol_supported", []int{1, 1, 1 + r.Intn(4)})
		case "none":
			set("message_signature", "")
		}
		text, err = json.Marshal(f)
		fakes.Must(err)
		var ok bool
		err = jw.Do("message", js.Args{"key": pub, "text": string(text)}, &ok)
		if errors.Is(err, js.ErrLost) {
			return
		}
		rep := map[string]string{"key": pub, "message": string(text), "changed": how}
		if how == "" && (err != nil || !ok) {
			k.Violate("genuine-refused", rep, "a message that was signed with the key does not verify (%v): %.300s", err, text)
		}
		if how != "" && err == nil && ok {
			k.Violate("forged:"+how, rep, "a message verifies that was not signed with the key (changed: %s): %.300s", how, text)
		}
		k.Count("message "+map[bool]string{true: "genuine", false: "changed"}[how == ""], 1)
		k.Eval(how + m.GetSignature())

		b := make([]byte, r.Intn(400))
		r.Read(b)
		var h string
		if err := jw.Do("hash", js.Args{"text": base64.StdEncoding.EncodeToString(b)}, &h); err == nil && h != hex.EncodeToString(fcrcrypto.RetrievalV1Hash(b)) {
			k.Violate("hash", b, "the hash of %x is %s, for Go programs %x", b, h, fcrcrypto.RetrievalV1Hash(b))
		}
	}
}

// services: the real register and gateways.
func services(k *kit.K, jw *js.Worker) {
	r := k.Sub("services", 0)
	store, chain := redis.New(), lotus.New(r)
	defer chain.Close()
	reg := svc.StartRegister(k, store.Port)
	defer reg.Stop()
	url0 := "http://" + reg.REST
	post := func(kind string, v interface{}) {
		b, err := json.Marshal(v)
		fakes.Must(err)
		resp, err := http.Post(url0+"/registers/"+kind, "application/json", bytes.NewReader(b))
		if err != nil {
			panic("harness: " + err.Error())
		}
		resp.Body.Close()
	}
	var ids, ready []string
	var nodes []*svc.Node
	entries := map[string]*register.GatewayRegister{}
	for i := 0; i < 4; i++ {
		g := svc.Start(k, "gateway", r, url0, nil)
		defer g.Stop()
		nodes = append(nodes, g)
		id := g.ID.ToString()
		e := fakes.GatewayEntry(id, g.Key, g.GW, g.Prov, g.REST, g.Admin)
		e.Address = "t0" + fakes.RandString(r)
		entries[id] = e
		post("gateway", e)
		ids = append(ids, id)
		if i < 3 {
			g.MustInit(chain)
			ready = append(ready, id)
		}
	}
	sort.Strings(ready)
	var h, n int
	fakes.Must(jw.Do("client", js.Args{"url": url0, "id": fakes.NewNode(r).ToString(), "ttl": 100}, &h))
	strange := fakes.NewNode(r).ToString()
	if err := jw.Do("use", js.Args{"h": h, "ids": append([]string{strange}, ids...)}, &n); err != nil || n != len(ids) {
		k.Violate("services:use", ids, "of %d gateways in the register the client is to use %d: %v", len(ids), n, err)
	}
	err := jw.Do("activate", js.Args{"h": h, "ids": append([]string{strange}, ids...)}, &n)
	var s state
	jw.Do("state", js.Args{"h": h}, &s)
	var active []string
	for _, e := range s.Active {
		active = append(active, e.Key)
	}
	sort.Strings(active)
	alive := true
	for _, g := range nodes {
		alive = alive && g.Alive()
	}
	if alive && (err != nil || n != len(ready) || strings.Join(active, " ") != strings.Join(ready, " ")) {
		k.Violate("services:activate", ids, "of the gateways that run and have keys, %v, active are %v, %d were said to be: %v", ready, active, n, err)
	}
	for _, e := range append(s.Use, s.Active...) {
		if x := entries[e.Key]; x == nil || e.GatewayRegister != *x {
			k.Violate("services:entry", e, "the client has the entry %+v, registered was %+v", e, x)
		}
	}
	k.Count("real gateways active", len(active))

	// the register's lists
	provs := map[string]*register.ProviderRegister{}
	for i := 0; i < 5; i++ {
		id := fakes.NewNode(r).ToString()
		p := fakes.ProviderEntry(id, fakes.KeyFrom(r), "127.0.0.1:1", "127.0.0.1:2", "127.0.0.1:3")
		p.Address = fakes.RandString(r)
		provs[id] = p
		post("provider", p)
	}
	for id, p := range provs {
		var got register.ProviderRegister
		if err := jw.Do("provider", js.Args{"url": url0, "id": url.PathEscape(id)}, &got); err != nil || got != *p {
			k.Violate("services:provider", id, "the provider is %+v, registered was %+v: %v", got, *p, err)
		}
		k.Count("providers looked up", 1)
	}
	var list []entry
	if err := jw.Do("gateways", js.Args{"url": url0}, &list); err != nil || len(list) != len(entries) {
		k.Violate("services:list", ids, "the register lists %d gateways, %d are registered: %v", len(list), len(entries), err)
	}
	for _, e := range list {
		if x := entries[e.NodeID]; x == nil || e.GatewayRegister != *x {
			k.Violate("services:list-entry", e, "the register lists %+v, registered was %+v", e, x)
		}
	}
	for id, x := range entries {
		var e entry
		if err := jw.Do("gateway", js.Args{"url": url0, "id": id}, &e); err != nil || e.GatewayRegister != *x {
			k.Violate("services:gateway", id, "the gateway is %+v, registered was %+v: %v", e.GatewayRegister, *x, err)
		}
		k.Count("gateways looked up", 1)
	}
	if err := jw.Do("gateway", js.Args{"url": url0, "id": strange}, nil); err == nil {
		k.Violate("services:unknown", strange, "a gateway that is not in the register was found")
	}
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C32", func(k *kit.K) {
		k.Floor("use", 100)
		k.Floor("activate", 100)
		k.Floor("rounds", 40)
		k.Floor("message genuine", 60)
		k.Floor("message changed", 150)
		k.Floor("real gateways active", 3)
		for _, f := range faults {
			k.Floor("not proven, "+f, 4)
		}
		for _, l := range lacks {
			k.Floor("refused, lacks "+l, 4)
		}
		// several processes, so that all processors have work
		var jobs []func(w *js.Worker)
		jobs = append(jobs, func(w *js.Worker) { services(k, w) }, func(w *js.Worker) { signatures(k, w, k.N(400, 3000)) })
		for i := 0; i < k.N(16, 80); i++ {
			jobs = append(jobs, func(w *js.Worker) { history(k, w, i, k.N(150, 300)) })
		}
		for i := 0; i < k.N(4, 30); i++ {
			jobs = append(jobs, func(w *js.Worker) { concurrent(k, w, i, k.N(25, 60)) })
		}
		var next atomic.Int64
		k.Parallel("client", 4, func(int) {
			w := js.Start(k)
			defer w.Close()
			for {
				i := int(next.Add(1)) - 1
				if i >= len(jobs) || k.Violations() >= 20 {
					return
				}
				jobs[i](w)
			}
		})
	})
}
