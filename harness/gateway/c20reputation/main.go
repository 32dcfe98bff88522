//go:build go1.22

// C20: the ledger of the reputations of clients against a model of it, and small concurrent histories of one client
// against every order they can be explained by.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ant0ine/go-json-rest/rest"

	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/api/adminapi"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/core"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/reputation"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/util/settings"
)

// What the table of reputations says of each event.
const (
	initial = 10
	limit   = 10000
)

type event struct {
	name  string
	delta int64
	do    func(r *reputation.Reputation, id *nodeid.NodeID)
}

var events = []event{
	{"deposit", 1000, (*reputation.Reputation).OnChainDeposit},
	{"std one offer", 10, (*reputation.Reputation).ClientStdDiscOneCidOffer},
	{"std no offers", 1, (*reputation.Reputation).ClientStdDiscNoCidOffers},
	{"std late offers", 1, (*reputation.Reputation).ClientStdDiscLateCidOffers},
	{"std non payment", -100, (*reputation.Reputation).ClientStdDiscNonPayment},
	{"dht one offer", 10, (*reputation.Reputation).ClientDhtDiscOneCidOffer},
	{"dht no offers", 1, (*reputation.Reputation).ClientDhtDiscNoCidOffers},
	{"dht late offers", 1, (*reputation.Reputation).ClientDhtDiscLateCidOffers},
	{"dht non payment", -300, (*reputation.Reputation).ClientDhtDiscNonPayment},
	{"micro payment", 1, (*reputation.Reputation).ClientMicroPayment},
	{"invalid message", -10, (*reputation.Reputation).ClientInvalidMessage},
}

const challengeDelta = -1

// split marks, in a concurrent history, a challenge whose first half, the establishing of the client, is an op of its
// own: others may see the initial score before the challenge is counted.
const split = -1

func bound(v int64) int64 {
	if v > limit {
		return limit
	}
	if v < -limit {
		return -limit
	}
	return v
}

// op is one call: what it was and what it answered.
type op struct {
	Kind     string // challenge, get, exists, set, admin get, admin set, or the name of an event
	Ev       int    `json:"-"`
	Arg      int64  `json:",omitempty"`
	Val      int64
	Exists   bool
	Err      error `json:"-"`
	Inv, Ret int64
}

func (o *op) String() string {
	switch o.Kind {
	case "challenge":
		return fmt.Sprintf("challenge=%d", o.Val)
	case "get":
		return fmt.Sprintf("get=%d,%v", o.Val, o.Exists)
	case "exists":
		return fmt.Sprintf("exists=%v", o.Exists)
	case "set":
		return fmt.Sprintf("set(%d)", o.Arg)
	case "admin get":
		return fmt.Sprintf("admin get=%d,%v", o.Val, o.Exists)
	case "admin set":
		return fmt.Sprintf("admin set(%d)=%d,%v", o.Arg, o.Val, o.Exists)
	}
	return o.Kind
}

// admin is the gateway of this process as its admin meets it.
type admin struct {
	key *fcrcrypto.KeyPair
}

func newAdmin(r *rand.Rand) *admin {
	a := &admin{fakes.KeyFrom(r)}
	core.GetSingleInstance(&settings.AppSettings{}).Initialise(fakes.NewNode(r), a.key, fcrcrypto.InitialKeyVersion(), nil)
	return a
}

// answer takes what a handler writes.
type answer struct {
	head http.Header
	code int
	body []byte
}

func (a *answer) Header() http.Header { return a.head }
func (a *answer) WriteHeader(c int)   { a.code = c }
func (a *answer) WriteJson(v interface{}) error {
	b, err := a.EncodeJson(v)
	a.body = b
	return err
}
func (a *answer) EncodeJson(v interface{}) ([]byte, error) { return json.Marshal(v) }

// ask hands a request to a handler and returns its answer, which has to be signed by the gateway.
func (a *admin) ask(h func(rest.ResponseWriter, *fcrmessages.FCRMessage), m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
	b, err := m.FCRMsgToBytes()
	fakes.Must(err)
	m, err = fcrmessages.FCRMsgFromBytes(b)
	fakes.Must(err)
	w := &answer{head: http.Header{}, code: http.StatusOK}
	h(w, m)
	if w.code != http.StatusOK {
		return nil, fmt.Errorf("refused with %d: %s", w.code, w.body)
	}
	got, err := fcrmessages.FCRMsgFromBytes(w.body)
	if err != nil {
		return nil, fmt.Errorf("answered %q: %v", w.body, err)
	}
	if err := got.Verify(fakes.Pub(a.key)); err != nil {
		return nil, fmt.Errorf("answer not signed by the gateway: %v", err)
	}
	return got, nil
}

func (a *admin) get(id *nodeid.NodeID) (int64, bool, error) {
	m, err := fcrmessages.EncodeGatewayAdminGetReputationRequest(id)
	fakes.Must(err)
	if m, err = a.ask(adminapi.HandleGatewayAdminGetReputationRequest, m); err != nil {
		return 0, false, err
	}
	of, v, exists, err := fcrmessages.DecodeGatewayAdminGetReputationResponse(m)
	if err == nil && of.ToString() != id.ToString() {
		err = fmt.Errorf("answer is about %s, not %s", of.ToString(), id.ToString())
	}
	return v, exists, err
}

func (a *admin) set(id *nodeid.NodeID, val int64) (int64, bool, error) {
	m, err := fcrmessages.EncodeGatewayAdminSetReputationRequest(id, val)
	fakes.Must(err)
	if m, err = a.ask(adminapi.HandleGatewayAdminSetReputationRequest, m); err != nil {
		return 0, false, err
	}
	of, v, exists, err := fcrmessages.DecodeGatewayAdminSetReputationResponse(m)
	if err == nil && of.ToString() != id.ToString() {
		err = fmt.Errorf("answer is about %s, not %s", of.ToString(), id.ToString())
	}
	return v, exists, err
}

// boss is the admin of the gateway of this process.
var boss *admin

func (o *op) run(rep *reputation.Reputation, id *nodeid.NodeID) {
	switch o.Kind {
	case "challenge":
		o.Val = rep.ClientEstablishmentChallenge(id)
	case "get":
		o.Val, o.Exists = rep.GetClientReputation(id)
	case "exists":
		o.Exists = rep.ClientExists(id)
	case "set":
		rep.SetClientReputation(id, o.Arg)
	case "admin get":
		o.Val, o.Exists, o.Err = boss.get(id)
	case "admin set":
		o.Val, o.Exists, o.Err = boss.set(id, o.Arg)
	default:
		events[o.Ev].do(rep, id)
	}
}

type state struct {
	exists bool
	val    int64
}

// step applies o to s; ok is false when o cannot have answered as it did.
func (s state) step(o *op) (next state, ok bool) {
	switch o.Kind {
	case "establish":
		if !s.exists {
			s = state{true, initial}
		}
		return s, true
	case "challenge":
		if !s.exists && o.Ev == split {
			return s, false
		}
		if !s.exists {
			s = state{true, initial}
		}
		s.val = bound(s.val + challengeDelta)
		return s, o.Val == s.val
	case "get":
		return s, o.Exists == s.exists && (!s.exists || o.Val == s.val)
	case "exists":
		return s, o.Exists == s.exists
	case "set":
		return state{true, o.Arg}, true
	case "admin get":
		return s, o.Err == nil && o.Exists == s.exists && (!s.exists || o.Val == s.val)
	case "admin set":
		if s.exists {
			s.val = o.Arg
		}
		return s, o.Err == nil && o.Exists == s.exists && (!s.exists || o.Val == s.val)
	}
	if !s.exists {
		return s, false
	}
	s.val = bound(s.val + events[o.Ev].delta)
	return s, true
}

// explained looks for an order of the calls, in keeping with their times, that explains every answer.
func explained(h []*op) bool {
	type key struct {
		mask uint32
		s    state
	}
	seen := map[key]bool{}
	var rec func(mask uint32, s state) bool
	rec = func(mask uint32, s state) bool {
		if mask == 1<<uint(len(h))-1 {
			return true
		}
		k := key{mask, s}
		if seen[k] {
			return false
		}
		seen[k] = true
		first := int64(1) << 62
		for i, o := range h {
			if mask&(1<<uint(i)) == 0 && o.Ret < first {
				first = o.Ret
			}
		}
		for i, o := range h {
			if mask&(1<<uint(i)) != 0 || o.Inv > first {
				continue
			}
			if n, ok := s.step(o); ok && rec(mask|1<<uint(i), n) {
				return true
			}
		}
		return false
	}
	return rec(0, state{})
}

func randomOp(r *rand.Rand, exists bool) *op {
	switch p := r.Intn(12); {
	case !exists && p < 4, p == 0:
		return &op{Kind: "challenge"}
	case p == 1:
		return &op{Kind: "exists"}
	case p == 2:
		if r.Intn(3) == 0 {
			return &op{Kind: "set", Arg: int64(r.Intn(2*limit+1) - limit)}
		}
		return &op{Kind: "set", Arg: []int64{-limit, -limit + 50, 0, limit - 50, limit}[r.Intn(5)]}
	case p < 6 || !exists:
		return &op{Kind: "get"}
	}
	e := r.Intn(len(events))
	return &op{Kind: events[e].name, Ev: e}
}

func main() {
	kit.Main("C20", func(k *kit.K) {
		rep := reputation.GetSingleInstance()
		boss = newAdmin(k.Sub("admin", 0))
		if k.Args["mode"] == "concurrent" {
			n := k.N(1500, 40000)
			k.Parallel("small", 2, func(w int) {
				for i := w; i < n && k.Violations() == 0; i += 2 {
					small(k, rep, k.Sub("small", i), i)
				}
			})
			sums(k, rep, k.Sub("sums", 0))
			k.Floor("concurrent small histories", int64(n))
			k.Floor("calls that overlapped", 300)
			return
		}
		n := k.N(200, 10000)
		k.Parallel("history", 8, func(w int) {
			for i := w; i < n && k.Violations() == 0; i += 8 {
				i := i
				k.NoPanic("history", i, func() { history(k, rep, k.Sub("history", i), i) })
			}
		})
		for _, e := range events {
			k.Floor("event: "+e.name, int64(n))
		}
		for _, kind := range []string{"admin get, known", "admin get, unknown", "admin set, known", "admin set, unknown"} {
			k.Floor("admin: "+kind+" client", int64(n/2))
		}
		k.Floor("challenges of unknown clients", int64(n))
		k.Floor("clients at the upper bound", int64(n/10))
		k.Floor("clients at the lower bound", int64(n/10))
		n = k.N(20000, 500000)
		k.Parallel("small", 3, func(w int) {
			for i := w; i < n && k.Violations() == 0; i += 3 {
				small(k, rep, k.Sub("small", i), i)
			}
		})
		k.Floor("concurrent small histories", int64(n))
		k.Floor("calls that overlapped", 1000)
		for i := 0; i < k.N(3, 30) && k.Violations() == 0; i++ {
			sums(k, rep, k.Sub("sums", i))
		}
	})
}

// history runs calls on a few clients, every answer and, now and then, every score compared with the model.
func history(k *kit.K, rep *reputation.Reputation, r *rand.Rand, n int) {
	ids := make([]*nodeid.NodeID, 2+r.Intn(5))
	model := make([]state, len(ids))
	for i := range ids {
		ids[i] = fakes.NewNode(r)
	}
	var log []string
	check := func(i int) {
		v, ok := rep.GetClientReputation(ids[i])
		if ok != model[i].exists || ok && v != model[i].val || rep.ClientExists(ids[i]) != model[i].exists {
			k.Violate("score", map[string]interface{}{"history": n, "calls": log}, "history %d: client %d has score %d (known %v) after %d calls, want %d (known %v)", n, i, v, ok, len(log), model[i].val, model[i].exists)
		}
	}
	heading := r.Intn(4) // some histories lean up, some down, so that the bounds are met
	for j := 0; j < 150 && k.Violations() == 0; j++ {
		i := r.Intn(len(ids))
		o := randomOp(r, model[i].exists)
		if model[i].exists && r.Intn(2) == 0 {
			switch heading {
			case 0:
				o = &op{Kind: events[0].name, Ev: 0}
			case 1:
				o = &op{Kind: events[8].name, Ev: 8}
			}
		}
		if o.Kind == "challenge" && !model[i].exists {
			k.Count("challenges of unknown clients", 1)
		}
		if r.Intn(8) == 0 {
			o = &op{Kind: "admin get"}
			if r.Intn(2) == 0 {
				o = &op{Kind: "admin set", Arg: []int64{-limit, -1, 0, 0, 1, initial, limit, int64(r.Intn(2*limit+1) - limit)}[r.Intn(8)]}
				if r.Intn(8) == 0 {
					o.Arg = model[i].val
				}
			}
			if model[i].exists {
				k.Count("admin: "+o.Kind+", known client", 1)
			} else {
				k.Count("admin: "+o.Kind+", unknown client", 1)
			}
		}
		// another value that names the same client
		id := ids[i]
		if r.Intn(3) == 0 {
			var err error
			id, err = nodeid.NewNodeIDFromHexString(id.ToString())
			fakes.Must(err)
		}
		o.run(rep, id)
		log = append(log, fmt.Sprintf("%d:%s", i, o))
		next, ok := model[i].step(o)
		if !ok {
			k.Violate("answer", map[string]interface{}{"history": n, "calls": log}, "history %d: client %d, with score %d (known %v): %s %v", n, i, model[i].val, model[i].exists, o, o.Err)
			return
		}
		model[i] = next
		if o.Kind == events[o.Ev].name {
			k.Count("event: "+o.Kind, 1)
			if next.val == limit {
				k.Count("clients at the upper bound", 1)
			}
			if next.val == -limit {
				k.Count("clients at the lower bound", 1)
			}
		}
		if r.Intn(4) == 0 {
			for i := range ids {
				check(i)
			}
		}
	}
	for i := range ids {
		check(i)
	}
	k.Eval(fmt.Sprint(log))
	if n < 2 {
		k.Sample("history", log)
	}
}

// small lets three callers act on one client at once and looks for an order that explains what they saw.
func small(k *kit.K, rep *reputation.Reputation, r *rand.Rand, n int) {
	id := fakes.NewNode(r)
	const callers = 3
	var plan [callers][]*op
	for c := range plan {
		known := false
		for j := 0; j < 2+r.Intn(3); j++ {
			o := randomOp(r, known)
			if j == 0 && r.Intn(2) == 0 {
				o = &op{Kind: "challenge"}
			}
			if o.Kind == "challenge" || o.Kind == "set" {
				known = true
			}
			plan[c] = append(plan[c], o)
		}
	}
	var clock int64
	var ready, wg sync.WaitGroup
	ready.Add(callers)
	wg.Add(callers)
	var panicked atomic.Value
	var began int32
	for c := range plan {
		go func(ops []*op) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					panicked.Store(fmt.Sprint(p))
				}
			}()
			ready.Done()
			ready.Wait()
			atomic.AddInt32(&began, 1)
			for t := time.Now(); atomic.LoadInt32(&began) < callers && time.Since(t) < time.Millisecond; {
			}
			for _, o := range ops {
				o.Inv = atomic.AddInt64(&clock, 1)
				o.Ret = 1 << 61
				o.run(rep, id)
				o.Ret = atomic.AddInt64(&clock, 1)
				if n%3 == 0 {
					runtime.Gosched()
				}
			}
		}(plan[c])
	}
	wg.Wait()
	last := &op{Kind: "get"}
	last.Inv = atomic.AddInt64(&clock, 1)
	last.run(rep, id)
	last.Ret = atomic.AddInt64(&clock, 1)
	var h []*op
	for _, p := range plan {
		h = append(h, p...)
	}
	h = append(h, last)
	if p := panicked.Load(); p != nil {
		k.Violate("concurrent:panic", h, "small history %d: a call panicked: %v", n, p)
		return
	}
	sort.Slice(h, func(i, j int) bool { return h[i].Ret < h[j].Ret })
	for i := range h {
		for j := 0; j < i; j++ {
			if h[i].Inv < h[j].Ret {
				k.Count("calls that overlapped", 1)
			}
		}
	}
	k.Count("concurrent small histories", 1)
	k.Eval(fmt.Sprint(h))
	for _, o := range h[:len(h):len(h)] {
		if o.Kind == "challenge" {
			o.Ev = split
			h = append(h, &op{Kind: "establish", Inv: o.Inv, Ret: o.Ret})
		}
	}
	if !explained(h) {
		k.Violate("concurrent:unexplained", h, "small history %d of one client is explained by no order of its calls: %v", n, h)
	}
}

// sums lets many callers add to a few clients, and compares the scores with the sums.
func sums(k *kit.K, rep *reputation.Reputation, r *rand.Rand) {
	const callers = 8
	ids := make([]*nodeid.NodeID, 4)
	for i := range ids {
		ids[i] = fakes.NewNode(r)
	}
	want := make([]int64, len(ids))
	type act struct{ id, ev int }
	plans := make([][]act, callers)
	for c := range plans {
		for i := range ids {
			plans[c] = append(plans[c], act{i, -1}) // every caller begins with a challenge of every client
			want[i] += challengeDelta
		}
		for j := 0; j < 400; j++ {
			a := act{r.Intn(len(ids)), []int{1, 2, 3, 5, 6, 7, 9, 10, 10}[r.Intn(9)]}
			plans[c] = append(plans[c], a)
			want[a.id] += events[a.ev].delta
		}
	}
	var wg sync.WaitGroup
	var panicked atomic.Value
	for _, p := range plans {
		wg.Add(1)
		go func(p []act) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					panicked.Store(fmt.Sprint(e))
				}
			}()
			for _, a := range p {
				if a.ev < 0 {
					rep.ClientEstablishmentChallenge(ids[a.id])
				} else {
					events[a.ev].do(rep, ids[a.id])
				}
			}
		}(p)
	}
	wg.Wait()
	if p := panicked.Load(); p != nil {
		k.Violate("sums:panic", nil, "a call panicked: %v", p)
		return
	}
	for i, id := range ids {
		got, _ := rep.GetClientReputation(id)
		k.Count("concurrent events summed", callers*400/len(ids))
		if got != initial+want[i] {
			k.Violate("sums:lost", map[string]interface{}{"client": i, "got": got, "want": initial + want[i]}, "after %d callers acted on client %d at once its score is %d, not the sum %d of what they did", callers, i, got, initial+want[i])
		}
	}
	k.Eval("")
}
