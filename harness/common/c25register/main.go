//go:build go1.22

// C25: the register program over a store that can fail: what was registered is what it lists, field for field; what it
// could not store it does not claim to have stored; it goes on working.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/redis"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
)

const (
	gws = "gateway"
	prs = "provider"
)

var fields = map[string][]string{
	gws: {"nodeId", "address", "rootSigningKey", "signingKey", "regionCode", "networkInfoGateway", "networkInfoProvider", "networkInfoClient", "networkInfoAdmin"},
	prs: {"nodeId", "address", "rootSigningKey", "signingKey", "regionCode", "networkInfoGateway", "networkInfoClient", "networkInfoAdmin"},
}

type entry map[string]string

// text is its canonical form; a field left out is an empty one.
func (e entry) text() string {
	c := entry{}
	for f, v := range e {
		if v != "" {
			c[f] = v
		}
	}
	b, _ := json.Marshal(c)
	return string(b)
}

type world struct {
	k     *kit.K
	store *redis.Store
	prog  *svc.Node
	cl    *http.Client
	mgr   *fcrregistermgr.FCRRegisterMgr
}

func newWorld(k *kit.K) *world {
	w := &world{k: k, store: redis.New(), cl: &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 64}}}
	w.prog = svc.StartRegister(k, w.store.Port)
	w.mgr = w.manager()
	return w
}

func (w *world) manager() *fcrregistermgr.FCRRegisterMgr {
	return fcrregistermgr.NewFCRRegisterMgr("http://"+w.prog.REST, true, true, time.Hour)
}

func (w *world) close() {
	w.panics()
	w.prog.Stop()
	w.store.Down()
}

// panics looks for handlers that panicked.
func (w *world) panics() {
	if s := w.prog.Stderr(); strings.Contains(s, "panic serving") {
		at := strings.Index(s, "http: panic serving")
		w.k.Violate("panic:register", nil, "a handler of the register panicked: %.3000s", s[at:])
	}
}

// do sends a request; status 0 is a connection that broke.
func (w *world) do(method, path string, body []byte) (int, []byte) {
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	q, err := http.NewRequest(method, "http://"+w.prog.REST+path, rd)
	fakes.Must(err)
	if body != nil {
		q.Header.Set("Content-Type", "application/json")
	}
	a, err := w.cl.Do(q)
	if err != nil {
		return 0, []byte(err.Error())
	}
	defer a.Body.Close()
	b, err := io.ReadAll(a.Body)
	if err != nil {
		return 0, []byte(err.Error())
	}
	return a.StatusCode, b
}

// list reads all entries of a kind.
func (w *world) list(kind string) (map[string]string, int, []byte) {
	st, b := w.do("GET", "/registers/"+kind, nil)
	if st != 200 {
		return nil, st, b
	}
	var l []entry
	if err := json.Unmarshal(b, &l); err != nil {
		w.k.Violate("list:garbage", string(b), "the list of %ss cannot be read: %v: %.500s", kind, err, b)
		return nil, st, b
	}
	m := map[string]string{}
	for _, e := range l {
		if _, ok := m[e["nodeId"]]; ok {
			w.k.Violate("list:twice", string(b), "the list of %ss has %q twice", kind, e["nodeId"])
		}
		m[e["nodeId"]] = e.text()
	}
	return m, st, b
}

// get reads an entry; "" if there is none.
func (w *world) get(kind, id string) (string, int, []byte) {
	st, b := w.do("GET", "/registers/"+kind+"/"+url.PathEscape(id), nil)
	if st != 200 {
		return "", st, b
	}
	var e entry
	if err := json.Unmarshal(b, &e); err != nil {
		w.k.Violate("get:garbage", string(b), "the %s %q cannot be read: %v: %.500s", kind, id, err, b)
		return "", 0, b
	}
	return e.text(), st, b
}

var odd = []string{"<script>&amp;", `"quoted" \ back`, "\u2028\u2029", "日本語🎈", "line\nbreak\ttab", "null", "{}", "\x00\x01", " ", "%2F%00", "-1", "1e9"}

func value(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return odd[r.Intn(len(odd))]
	case 1:
		return ""
	case 2:
		return strings.Repeat("x", r.Intn(20000))
	case 3:
		return fakes.RandString(r)
	}
	return fmt.Sprint("v", r.Int63())
}

func makeEntry(r *rand.Rand, kind, id string) entry {
	e := entry{}
	for _, f := range fields[kind] {
		e[f] = value(r)
	}
	e["nodeId"] = id
	return e
}

func ids(r *rand.Rand, n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fakes.NewNode(r).ToString())
	}
	// one that differs from another in nothing but the case of its letters
	l = append(l, strings.ToUpper(l[0]))
	// identifiers that are no node IDs
	return append(l, "a b", "héé", "x.y-z_~", "a%b", "+", "gateway", "a?b", "a#b")
}

// post registers an entry, through the library when it can say it.
func (w *world) post(r *rand.Rand, kind string, e entry) (bool, string) {
	if r.Intn(3) == 0 {
		var err error
		if kind == gws {
			err = w.mgr.RegisterGateway(register.NewGatewayRegister(e["nodeId"], e["address"], e["rootSigningKey"], e["signingKey"], e["regionCode"], e["networkInfoGateway"], e["networkInfoProvider"], e["networkInfoClient"], e["networkInfoAdmin"]))
		} else {
			err = w.mgr.RegisterProvider(register.NewProviderRegister(e["nodeId"], e["address"], e["rootSigningKey"], e["signingKey"], e["regionCode"], e["networkInfoGateway"], e["networkInfoClient"], e["networkInfoAdmin"]))
		}
		w.k.Count("registrations through the library", 1)
		if err != nil {
			return false, err.Error()
		}
		return true, ""
	}
	b, _ := json.Marshal(e)
	st, a := w.do("POST", "/registers/"+kind, b)
	if st == 200 {
		var got entry
		if err := json.Unmarshal(a, &got); err != nil || got.text() != e.text() {
			w.k.Violate("post:echo", string(b), "registering %s answers %.1000s", e.text(), a)
		}
		return true, ""
	}
	return false, fmt.Sprintf("%d %.300s", st, a)
}

// check compares everything the register says with what it must say.
func (w *world) check(r *rand.Rand, model map[string]map[string]string, pool []string, trace []string) {
	k := w.k
	for _, kind := range []string{gws, prs} {
		m, st, b := w.list(kind)
		if st != 200 {
			k.Violate("list:refused", trace, "listing %ss answers %d %.300s", kind, st, b)
			continue
		}
		if d := diff(m, model[kind]); d != "" {
			k.Violate("list:wrong", trace, "the list of %ss is not what was registered: %s", kind, d)
		}
		for _, id := range pool {
			if r.Intn(3) > 0 {
				continue
			}
			v, st, b := w.get(kind, id)
			want, there := model[kind][id]
			switch {
			case there && (st != 200 || v != want):
				k.Violate("get:wrong", trace, "the %s %q is %d %.500s, and was registered as %.500s", kind, id, st, b, want)
			case !there && st == 200:
				k.Violate("get:absent", trace, "the %s %q is not registered, and is %.500s", kind, id, b)
			}
			k.Eval("get " + want + v)
		}
		k.Eval("list " + fmt.Sprint(m))
		k.Count("lists compared", 1)
	}
}

func diff(got, want map[string]string) string {
	var l []string
	for id, v := range want {
		if g, ok := got[id]; !ok {
			l = append(l, fmt.Sprintf("%q is missing", id))
		} else if g != v {
			l = append(l, fmt.Sprintf("%q is %.400s instead of %.400s", id, g, v))
		}
	}
	for id := range got {
		if _, ok := want[id]; !ok {
			l = append(l, fmt.Sprintf("%q is not registered", id))
		}
	}
	sort.Strings(l)
	if len(l) > 4 {
		l = append(l[:4], fmt.Sprintf("and %d more", len(l)-4))
	}
	return strings.Join(l, "; ")
}

// history is one sequence of operations.
func (w *world) history(n int) {
	k := w.k
	r := k.Sub("history", n)
	pool := ids(r, 6)
	model := map[string]map[string]string{gws: {}, prs: {}}
	var trace []string
	for _, kind := range []string{gws, prs} {
		if st, b := w.do("DELETE", "/registers/"+kind, nil); st != 200 {
			k.Violate("delete:refused", trace, "deleting all %ss answers %d %.300s", kind, st, b)
		}
	}
	for i := 0; i < 25; i++ {
		kind := []string{gws, prs}[r.Intn(2)]
		switch x := r.Intn(20); {
		case x < 14:
			id := pool[r.Intn(len(pool))]
			e := makeEntry(r, kind, id)
			trace = append(trace, "register "+kind+" "+e.text())
			if ok, why := w.post(r, kind, e); !ok {
				k.Violate("post:refused", trace, "registering the %s %s failed: %s", kind, e.text(), why)
				return
			}
			model[kind][id] = e.text()
			k.Count("registrations", 1)
		case x < 15:
			trace = append(trace, "delete all "+kind)
			if st, b := w.do("DELETE", "/registers/"+kind, nil); st != 200 {
				k.Violate("delete:refused", trace, "deleting all %ss answers %d %.300s", kind, st, b)
			}
			model[kind] = map[string]string{}
			k.Count("deletions", 1)
		case x < 16 && n%4 == 0:
			trace = append(trace, "restart")
			w.panics()
			w.prog.Restart()
			k.Count("restarts", 1)
		default:
			w.junk(r, kind, pool, trace)
		}
		if r.Intn(4) == 0 {
			w.check(r, model, pool, trace)
		}
	}
	w.check(r, model, pool, trace)
	k.Count("histories", 1)
}

// junk is what is no registration, and changes nothing.
func (w *world) junk(r *rand.Rand, kind string, pool []string, trace []string) {
	bodies := []string{"", "{", "[]", "[1]", "17", `"x"`, `{"nodeId":7}`, `{"nodeId":{"a":1}}`, `{"address":[]}`, "\x00\xff", "nul", strings.Repeat("[", 1000), `{"nodeId":"x"`, "<xml/>"}
	b := []byte(bodies[r.Intn(len(bodies))])
	path := "/registers/" + kind
	method := "POST"
	if r.Intn(4) == 0 {
		path = []string{"/registers", "/registers/other", "/registers/gateway/", "/registers/" + kind + "/" + pool[0] + "/x", "/../..", "//"}[r.Intn(6)]
		method = []string{"POST", "PUT", "PATCH", "HEAD"}[r.Intn(4)]
	}
	st, a := w.do(method, path, b)
	if method == "POST" && path == "/registers/"+kind && st < 400 {
		w.k.Violate("junk:accepted", append(trace, string(b)), "registering %q answers %d %.300s", b, st, a)
	}
	if st == 0 {
		w.k.Violate("junk:broke", append(trace, string(b)), "%s %s %q broke the connection: %s", method, path, b, a)
	}
	w.k.Count("malformed requests", 1)
}

// library: nodes that register through the library are seen by others through the library.
func (w *world) library(n int) {
	k := w.k
	r := k.Sub("library", n)
	w.do("DELETE", "/registers/gateway", nil)
	w.do("DELETE", "/registers/provider", nil)
	wantG, wantP := map[string]string{}, map[string]string{}
	var trace []string
	var gid, pid []*nodeid.NodeID
	see := w.manager()
	fakes.Must(see.Start())
	defer func() {
		see.ShutdownAndWait() // empties the register
		for _, kind := range []string{gws, prs} {
			m, st, b := w.list(kind)
			if st != 200 || len(m) > 0 {
				k.Violate("library:delete", trace, "after the library deleted all %ss they are %d %.300s", kind, st, b)
			}
		}
	}()
	var keys []*fcrcrypto.KeyPair
	for i := 0; i < 3; i++ {
		keys = append(keys, fakes.KeyFrom(r))
	}
	for i := 0; i < 12; i++ {
		key := keys[r.Intn(len(keys))]
		if r.Intn(2) == 0 {
			id := fakes.NewNode(r)
			if len(gid) > 0 && r.Intn(3) == 0 {
				id = gid[r.Intn(len(gid))]
			} else {
				gid = append(gid, id)
			}
			e := fakes.GatewayEntry(id.ToString(), key, fmt.Sprint("g", r.Int31()), fmt.Sprint("p", r.Int31()), fmt.Sprint("c", r.Int31()), fmt.Sprint("a", r.Int31()))
			e.Address, e.RegionCode = fmt.Sprint("t1", r.Int31()), "r"+fakes.RandString(r)
			trace = append(trace, fmt.Sprintf("gateway %+v", *e))
			if err := w.mgr.RegisterGateway(e); err != nil {
				k.Violate("library:refused", trace, "registering a gateway: %v", err)
				return
			}
			wantG[id.ToString()] = fmt.Sprintf("%+v", *e)
		} else {
			id := fakes.NewNode(r)
			if len(pid) > 0 && r.Intn(3) == 0 {
				id = pid[r.Intn(len(pid))]
			} else {
				pid = append(pid, id)
			}
			e := fakes.ProviderEntry(id.ToString(), key, fmt.Sprint("g", r.Int31()), fmt.Sprint("c", r.Int31()), fmt.Sprint("a", r.Int31()))
			e.Address, e.RegionCode = fmt.Sprint("t1", r.Int31()), "r"+fakes.RandString(r)
			trace = append(trace, fmt.Sprintf("provider %+v", *e))
			if err := w.mgr.RegisterProvider(e); err != nil {
				k.Violate("library:refused", trace, "registering a provider: %v", err)
				return
			}
			wantP[id.ToString()] = fmt.Sprintf("%+v", *e)
		}
		if r.Intn(3) > 0 && i < 11 {
			continue
		}
		see.Refresh()
		gotG, gotP := map[string]string{}, map[string]string{}
		for _, g := range see.GetAllGateways() {
			gotG[g.GetNodeID()] = fmt.Sprintf("%+v", g.Serialize())
		}
		for _, p := range see.GetAllProviders() {
			gotP[p.GetNodeID()] = fmt.Sprintf("%+v", p.Serialize())
		}
		if d := diff(gotG, wantG); d != "" {
			k.Violate("library:gateways", trace, "the gateways seen through the library are not those registered: %s", d)
		}
		if d := diff(gotP, wantP); d != "" {
			k.Violate("library:providers", trace, "the providers seen through the library are not those registered: %s", d)
		}
		k.Eval(fmt.Sprint("library ", gotG, gotP))
		k.Count("views compared", 1)
	}
}

// span is an operation on one entry; val is "" for none.
type span struct {
	from, to int64
	val      string
}

// concurrent writes, reads and deletions on few entries; every read must be explained by some order.
func (w *world) concurrent(n int) {
	k := w.k
	r := k.Sub("concurrent", n)
	var pool []string
	for i := 0; i < 3; i++ {
		pool = append(pool, fakes.NewNode(r).ToString())
	}
	kind := []string{gws, prs}[n%2]
	w.do("DELETE", "/registers/"+kind, nil)
	var clock atomic.Int64
	var mu sync.Mutex
	writes, dels := map[string][]span{}, []span{}
	reads := map[string][]span{}
	var all []string
	w.store.Delay(func() {
		if x := rand.Intn(6); x < 3 {
			time.Sleep(time.Duration(rand.Intn(1500)) * time.Microsecond)
		}
	})
	defer w.store.Delay(nil)
	var order kit.Interleavings
	var serial atomic.Int64
	k.Parallel("concurrent", 10, func(g int) {
		r := k.Sub(fmt.Sprint("concurrent", n), g)
		for i := 0; i < 12; i++ {
			id := pool[r.Intn(len(pool))]
			x := r.Intn(20)
			t0 := clock.Add(1)
			switch {
			case x < 9:
				e := makeEntry(r, kind, id)
				e["address"] = fmt.Sprint("serial", serial.Add(1))
				ok, why := w.post(r, kind, e)
				t1 := clock.Add(1)
				if !ok {
					k.Violate("concurrent:post", nil, "a registration among concurrent requests failed: %s", why)
					return
				}
				mu.Lock()
				writes[id] = append(writes[id], span{t0, t1, e.text()})
				mu.Unlock()
				order.Add("w")
			case x < 14:
				v, st, b := w.get(kind, id)
				t1 := clock.Add(1)
				if st == 0 || st >= 500 {
					k.Violate("concurrent:get", nil, "a lookup among concurrent requests answers %d %.300s", st, b)
					return
				}
				mu.Lock()
				reads[id] = append(reads[id], span{t0, t1, v})
				mu.Unlock()
				order.Add("r")
			case x < 19:
				m, st, b := w.list(kind)
				t1 := clock.Add(1)
				if st != 200 {
					k.Violate("concurrent:list", nil, "a list among concurrent requests answers %d %.300s", st, b)
					return
				}
				mu.Lock()
				for _, id := range pool {
					reads[id] = append(reads[id], span{t0, t1, m[id]})
				}
				for id := range m {
					if !strings.Contains(strings.Join(pool, " "), id) {
						all = append(all, id)
					}
				}
				mu.Unlock()
				order.Add("l")
			default:
				st, b := w.do("DELETE", "/registers/"+kind, nil)
				t1 := clock.Add(1)
				if st != 200 {
					k.Violate("concurrent:delete", nil, "a deletion among concurrent requests answers %d %.300s", st, b)
					return
				}
				mu.Lock()
				dels = append(dels, span{t0, t1, ""})
				mu.Unlock()
				order.Add("d")
			}
		}
	})
	for _, id := range pool {
		v, _, _ := w.get(kind, id)
		t := clock.Add(1)
		reads[id] = append(reads[id], span{t, t, v})
	}
	if len(all) > 0 {
		k.Violate("concurrent:stranger", all, "the list has entries that nobody registered")
	}
	for _, id := range pool {
		for _, rd := range reads[id] {
			ok := false
			var cands []span
			for _, wr := range writes[id] {
				if wr.val == rd.val {
					cands = append(cands, wr)
				}
			}
			if rd.val == "" {
				cands = append(append(cands, span{0, 0, ""}), dels...)
			}
			for _, c := range cands {
				if c.from > rd.to {
					continue
				}
				buried := false
				for _, wr := range writes[id] {
					if wr.val != c.val && wr.from > c.to && wr.to < rd.from {
						buried = true
					}
				}
				for _, d := range dels {
					if c.val != "" && d.from > c.to && d.to < rd.from {
						buried = true
					}
				}
				if !buried {
					ok = true
				}
			}
			if !ok {
				k.Violate("concurrent:stale", map[string]interface{}{"read": rd, "writes": writes[id], "dels": dels},
					"among concurrent requests, %q was read as %.300s, which it was not at that time", id, rd.val)
			}
			k.Count("concurrent reads judged", 1)
		}
	}
	k.Count("concurrent histories", 1)
	k.Eval(order.Key())
}

// faults: the store fails, and comes back.
func (w *world) faults(n int) {
	k := w.k
	r := k.Sub("faults", n)
	pool := ids(r, 4)
	model := map[string]map[string]string{gws: {}, prs: {}}
	maybe := map[string]map[string][]string{gws: {}, prs: {}} // what may also be there
	var trace []string
	w.do("DELETE", "/registers/gateway", nil)
	w.do("DELETE", "/registers/provider", nil)
	for i := 0; i < 4; i++ {
		kind := []string{gws, prs}[r.Intn(2)]
		e := makeEntry(r, kind, pool[i])
		if ok, why := w.post(r, kind, e); !ok {
			k.Violate("post:refused", trace, "registering the %s %s failed: %s", kind, e.text(), why)
			return
		}
		model[kind][pool[i]] = e.text()
	}
	how := []string{"down", "refuse", "hangup", "ambiguous", "flaky", "no writes", "some writes"}[n%7]
	trace = append(trace, how)
	switch how {
	case "down":
		w.store.Down()
	case "refuse":
		w.store.Faults(func([]string) redis.Fault { return redis.Refuse })
	case "hangup":
		w.store.Faults(func([]string) redis.Fault { return redis.HangUp })
	case "ambiguous":
		w.store.Faults(func([]string) redis.Fault { return redis.DoHangUp })
	case "flaky":
		var mu sync.Mutex
		w.store.Faults(func([]string) redis.Fault {
			mu.Lock()
			defer mu.Unlock()
			return redis.Fault(r.Intn(4))
		})
	}
	if strings.HasSuffix(how, "writes") {
		var mu sync.Mutex
		w.store.Faults(func(cmd []string) redis.Fault {
			mu.Lock()
			defer mu.Unlock()
			switch strings.ToUpper(cmd[0]) {
			case "HSET", "HSETNX", "HMSET", "HDEL", "DEL", "UNLINK", "SET":
				if how == "no writes" || r.Intn(3) == 0 {
					return redis.Refuse
				}
			}
			return redis.None
		})
	}
	rr := k.Sub("faults-ops", n)
	ops := 8
	if strings.HasSuffix(how, "writes") {
		ops = 24
	}
	for i := 0; i < ops; i++ {
		kind := []string{gws, prs}[rr.Intn(2)]
		id := pool[rr.Intn(len(pool))]
		switch x := rr.Intn(10); {
		case x < 4:
			e := makeEntry(rr, kind, id)
			b, _ := json.Marshal(e)
			st, a := w.do("POST", "/registers/"+kind, b)
			trace = append(trace, fmt.Sprintf("register %s %s: %d", kind, e.text(), st))
			w.outcome(how, "registering", trace, st, a)
			if how == "no writes" && st == 200 {
				k.Violate("faults:success", trace, "registering while the store takes no changes answers 200 %.300s", a)
				return
			}
			if st == 200 {
				model[kind][id] = e.text()
				maybe[kind][id] = nil
			} else if how == "ambiguous" || how == "flaky" || how == "some writes" {
				maybe[kind][id] = append(maybe[kind][id], e.text())
			}
		case x < 6:
			m, st, a := w.list(kind)
			w.outcome(how, "listing", trace, st, a)
			if st != 200 && strings.HasSuffix(how, "writes") {
				k.Violate("faults:reading", trace, "listing while the store refuses changes answers %d %.300s", st, a)
			}
			if st == 200 {
				w.plausible(trace, kind, m, model, maybe)
			}
		case x < 9:
			v, st, a := w.get(kind, id)
			w.outcome(how, "looking up", trace, st, a)
			if st == 200 && v != model[kind][id] && !in(maybe[kind][id], v) {
				k.Violate("faults:wrong", trace, "while the store fails, the %s %q is %.400s", kind, id, v)
			}
		default:
			st, a := w.do("DELETE", "/registers/"+kind, nil)
			trace = append(trace, fmt.Sprintf("delete all %s: %d", kind, st))
			w.outcome(how, "deleting", trace, st, a)
			if how == "no writes" && st == 200 && len(model[kind]) > 0 {
				k.Violate("faults:success", trace, "deleting %d %ss while the store takes no changes answers 200", len(model[kind]), kind)
				return
			}
			if st == 200 {
				model[kind] = map[string]string{}
				maybe[kind] = map[string][]string{}
			} else if how == "ambiguous" || how == "flaky" || how == "some writes" {
				for _, id := range pool {
					maybe[kind][id] = append(maybe[kind][id], "")
				}
			}
		}
		k.Count("requests while the store fails ("+how+")", 1)
		k.Eval(fmt.Sprint("fault ", how, trace))
	}
	w.store.Faults(nil)
	if how == "down" {
		w.store.Up()
	}
	for _, kind := range []string{gws, prs} {
		m, st, b := w.list(kind)
		if st != 200 {
			k.Violate("faults:recovery", trace, "after the store is back, listing %ss answers %d %.300s", kind, st, b)
			continue
		}
		w.plausible(trace, kind, m, model, maybe)
	}
	e := makeEntry(rr, gws, pool[0])
	b, _ := json.Marshal(e)
	if st, a := w.do("POST", "/registers/gateway", b); st != 200 {
		k.Violate("faults:recovery", trace, "after the store is back, registering answers %d %.300s", st, a)
	}
	if v, st, _ := w.get(gws, pool[0]); st != 200 || v != e.text() {
		k.Violate("faults:recovery", trace, "after the store is back, what is registered is %d %.300s", st, v)
	}
	k.Count("store failures", 1)
}

func in(l []string, v string) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

// plausible: every entry is what was registered last, or what may have been.
func (w *world) plausible(trace []string, kind string, got map[string]string, model map[string]map[string]string, maybe map[string]map[string][]string) {
	for id, v := range got {
		if v != model[kind][id] && !in(maybe[kind][id], v) {
			w.k.Violate("faults:wrong", trace, "the %s %q is %.400s, and was registered as %.400s", kind, id, v, model[kind][id])
		}
	}
	for id := range model[kind] {
		if _, ok := got[id]; !ok && !in(maybe[kind][id], "") {
			w.k.Violate("faults:lost", trace, "the %s %q is lost", kind, id)
		}
	}
}

// outcome: a store that does not work means an error, properly answered.
func (w *world) outcome(how, what string, trace []string, st int, a []byte) {
	switch {
	case st == 0:
		w.k.Violate("faults:no-answer", trace, "%s while the store fails (%s) is not answered: %s", what, how, a)
	case st == 200 && (how == "down" || how == "refuse" || how == "hangup"):
		w.k.Violate("faults:success", trace, "%s while the store does not work (%s) answers 200 %.300s", what, how, a)
	case st != 200 && !json.Valid(a):
		w.k.Violate("faults:error", trace, "%s while the store fails (%s) answers %d %.300s, which is no error message", what, how, st, a)
	}
}

// large: far more entries than a test has, registered by several nodes at a time, are all listed and found.
func (w *world) large(n, size int) {
	k := w.k
	r := k.Sub("large", n)
	model := map[string]map[string]string{gws: {}, prs: {}}
	lists := map[string][]entry{}
	for _, kind := range []string{gws, prs} {
		w.do("DELETE", "/registers/"+kind, nil)
		for i := 0; i < size; i++ {
			e := entry{}
			for _, f := range fields[kind] {
				e[f] = fmt.Sprint(f, r.Int31())
			}
			e["nodeId"] = fakes.NewNode(r).ToString()
			lists[kind] = append(lists[kind], e)
			model[kind][e["nodeId"]] = e.text()
		}
		k.Parallel("large", 4, func(g int) {
			rr := k.Sub(fmt.Sprint("large", kind, n), g)
			for i := g; i < size; i += 4 {
				if ok, why := w.post(rr, kind, lists[kind][i]); !ok {
					k.Violate("large:refused", i, "registering %s %d of many failed: %s", kind, i, why)
					return
				}
			}
		})
	}
	if k.Has("large:refused") {
		return
	}
	for _, kind := range []string{gws, prs} {
		var pool []string
		for _, i := range r.Perm(size)[:20] {
			pool = append(pool, lists[kind][i]["nodeId"])
		}
		w.check(r, model, pool, []string{fmt.Sprintf("register %d of each kind", size)})
	}
	see := w.manager()
	fakes.Must(see.Start())
	see.Refresh()
	if g, p := len(see.GetAllGateways()), len(see.GetAllProviders()); g != size || p != size {
		k.Violate("large:library", size, "of %d gateways and providers each, a node sees %d and %d", size, g, p)
	}
	see.Shutdown()
	for _, kind := range []string{gws, prs} {
		if st, b := w.do("DELETE", "/registers/"+kind, nil); st != 200 {
			k.Violate("delete:refused", size, "deleting all %d %ss answers %d %.300s", size, kind, st, b)
		}
		model[kind] = map[string]string{}
	}
	w.check(r, model, []string{lists[gws][0]["nodeId"], lists[prs][0]["nodeId"]}, []string{"delete all"})
	k.Count("entries registered at once", 2*size)
}

// connections: requests leave no connections to the store behind.
func (w *world) connections(n int) {
	r := w.k.Sub("connections", 0)
	for i := 0; i < n; i++ {
		kind := []string{gws, prs}[r.Intn(2)]
		switch r.Intn(4) {
		case 0:
			b, _ := json.Marshal(makeEntry(r, kind, "x"))
			w.do("POST", "/registers/"+kind, b)
		case 1:
			w.do("GET", "/registers/"+kind, nil)
		case 2:
			w.do("GET", "/registers/"+kind+"/x", nil)
		default:
			w.do("DELETE", "/registers/"+kind, nil)
		}
	}
	left := 0
	fakes.Eventually(10*time.Second, func() bool { left = w.store.Conns(); return left <= 120 })
	w.k.Count("connections after many requests", left)
	w.k.Count("sequential requests", n)
	if left > 120 {
		w.k.Violate("connections:left", n, "after %d requests, one after the other, %d connections to the store are open", n, left)
	}
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C25", func(k *kit.K) {
		w := newWorld(k)
		defer w.close()
		if k.Args["mode"] == "concurrent" {
			for i := 0; i < k.N(20, 300); i++ {
				w.concurrent(i)
			}
			k.Floor("concurrent histories", 10)
			return
		}
		w.connections(k.N(500, 3000))
		for i := 0; i < k.N(40, 600); i++ {
			w.history(i)
		}
		for i := 0; i < k.N(10, 100); i++ {
			w.library(i)
		}
		for i := 0; i < k.N(10, 100); i++ {
			w.concurrent(i)
		}
		for i := 0; i < k.N(21, 175); i++ {
			w.faults(i)
		}
		for i := 0; i < k.N(1, 4); i++ {
			w.large(i, k.N(700, 3000))
		}
		k.Floor("entries registered at once", 1400)
		k.Floor("histories", 20)
		k.Floor("registrations", 300)
		k.Floor("views compared", 20)
		k.Floor("concurrent reads judged", 100)
		k.Floor("store failures", 10)
	})
}
