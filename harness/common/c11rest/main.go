//go:build go1.22

// C11: messages over HTTP. A server with two addresses records every call of its handlers, senders go through the
// repository's own communicator and through raw requests; a faulty peer answers with errors, cuts and garbage.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/ant0ine/go-json-rest/rest"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrrestserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/request"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
)

const (
	tEcho  = int32(9101) // at both addresses
	tOnlyB = int32(9102)
	tPanic = int32(9103)
	tErr   = int32(9104) // answers 402
	tTwice = int32(9105) // registered twice, the last counts
	tZero  = int32(0)
)

type msg = fcrmessages.FCRMessage

type body struct {
	ID   string `json:"id"`
	At   string `json:"at,omitempty"`
	Wait int    `json:"wait,omitempty"`
	Pad  string `json:"pad,omitempty"`
}

func mk(t int32, b body) *msg {
	j, err := json.Marshal(b)
	fakes.Must(err)
	return fcrmessages.CreateFCRMessage(t, j)
}

func parse(m *msg) body {
	var b body
	json.Unmarshal(m.GetMessageBody(), &b)
	return b
}

type server struct {
	srv  *fcrrestserver.FCRRESTServer
	a, b string
	c, d string // at d only failing handlers
	mu   sync.Mutex
	seen map[string][]string // id -> canonical messages handlers were given, with the address
	odd  []string
}

func (s *server) note(at string, m *msg) body {
	b := parse(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	if b.ID == "" {
		s.odd = append(s.odd, fmt.Sprintf("at %s: type %d body %.80q", at, m.GetMessageType(), m.GetMessageBody()))
	}
	s.seen[b.ID] = append(s.seen[b.ID], at+" "+fakes.Canon(m))
	return b
}

func (s *server) calls(id string) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.seen[id]...)
}

func (s *server) total() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, l := range s.seen {
		n += len(l)
	}
	return n
}

func (s *server) handler(name string) func(rest.ResponseWriter, *msg) {
	return func(w rest.ResponseWriter, m *msg) {
		b := s.note(name, m)
		if b.Wait > 0 {
			time.Sleep(time.Duration(b.Wait) * time.Millisecond)
		}
		b.At = name
		w.WriteJson(mk(m.GetMessageType(), b))
	}
}

func newServer() *server {
	s := &server{a: fakes.FreePort(), b: fakes.FreePort(), c: fakes.FreePort(), d: fakes.FreePort(), seen: map[string][]string{}}
	s.srv = fcrrestserver.NewFCRRESTServer([]string{s.a, s.b, s.c, s.d})
	s.srv.AddHandler(s.a, tEcho, s.handler("A")).AddHandler(s.b, tEcho, s.handler("B")).AddHandler(s.b, tOnlyB, s.handler("B")).AddHandler(s.c, tEcho, s.handler("C"))
	s.srv.AddHandler(s.a, tTwice, s.handler("old")).AddHandler(s.a, tTwice, s.handler("A"))
	s.srv.AddHandler("1", tTwice, s.handler("nowhere"))
	s.srv.AddHandler(s.a, tZero, s.handler("A"))
	for _, x := range []struct{ p, n string }{{s.a, "A"}, {s.b, "B"}, {s.c, "C"}, {s.d, "D"}} {
		n := x.n
		s.srv.AddHandler(x.p, tPanic, func(w rest.ResponseWriter, m *msg) { s.note(n, m); panic("handler fails") })
		s.srv.AddHandler(x.p, tErr, func(w rest.ResponseWriter, m *msg) {
			s.note(n, m)
			rest.Error(w, "Insufficient funds", http.StatusPaymentRequired)
		})
	}
	return s
}

func sockets() int {
	n := 0
	l, _ := os.ReadDir("/proc/self/fd")
	for _, e := range l {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, "socket:") {
			n++
		}
	}
	return n
}

// correlation: senders over shared and own communicators to both addresses.
func correlation(k *kit.K, s *server, round int) {
	shared := request.NewHttpCommunicator()
	key := fakes.KeyFrom(k.Sub("key", round))
	order := &kit.Interleavings{}
	k.Parallel("correlation", 8, func(w int) {
		r := k.Sub("sender", round*100+w)
		c := shared
		if w%2 == 0 {
			c = request.NewHttpCommunicator()
		}
		for j := 0; j < k.N(25, 25); j++ {
			if k.Violations() > 0 {
				return
			}
			id := fmt.Sprintf("%d-%d-%d-%d", k.Seed, round, w, j)
			b := body{ID: id, Wait: r.Intn(3), Pad: strings.Repeat("p", r.Intn(3)*r.Intn(40000))}
			if r.Intn(3) == 0 {
				b.Pad = fakes.RandString(r)
			}
			typ := []int32{tEcho, tEcho, tEcho, tOnlyB, tPanic, tErr, tTwice, 9999, tZero}[r.Intn(9)]
			to := r.Intn(6)
			at, port := []string{"A", "A", "B", "B", "C", "D"}[to], []string{s.a, s.a, s.b, s.b, s.c, s.d}[to]
			m := mk(typ, b)
			if r.Intn(2) == 0 {
				fakes.Must(m.Sign(key, fcrcrypto.InitialKeyVersion()))
			}
			want := at + " " + fakes.Canon(m)
			handled := typ == tEcho && at != "D" || typ == tOnlyB && at == "B" || typ == tTwice && at == "A" || typ == tPanic || typ == tErr || typ == tZero && at == "A"
			answers := handled && typ != tPanic && typ != tErr
			rep := map[string]interface{}{"type": typ, "address": at, "id": id}
			if fakes.Canon(m) == "" {
				panic("harness: canon")
			}
			ans, err := c.SendMessage("127.0.0.1:"+port, m)
			calls := s.calls(id)
			k.Eval("corr/" + id)
			if handled && (len(calls) != 1 || calls[0] != want) {
				k.Violate("dispatch", rep, "message of type %d to address %s: handlers got %.600q, want exactly %.300q (answer error: %v)", typ, at, calls, want, err)
				return
			}
			if !handled && len(calls) != 0 {
				k.Violate("dispatch-unknown", rep, "message of type %d to address %s, where no handler takes it, reached handlers: %.600q", typ, at, calls)
				return
			}
			if answers {
				if err != nil {
					k.Violate("no-answer", rep, "message of type %d to address %s: no answer: %v", typ, at, err)
					return
				}
				g := parse(ans)
				if g.ID != id || g.At != at || g.Pad != parse(m).Pad || ans.GetMessageType() != typ {
					k.Violate("wrong-answer", rep, "message %s of type %d to address %s: got the answer of %s at %s, type %d", id, typ, at, g.ID, g.At, ans.GetMessageType())
					return
				}
				k.Count("answers", 1)
			} else {
				if err == nil {
					k.Violate("answer-from-nowhere", rep, "message of type %d to address %s is not answered by any handler, but the sender got type %d body %.100q", typ, at, ans.GetMessageType(), ans.GetMessageBody())
					return
				}
				k.Count("refusals", 1)
			}
			if j%4 == 0 {
				order.Add(fmt.Sprint(w))
			}
		}
	})
	k.Eval("order/" + order.Key())
}

// large: messages far beyond what a test sends.
func large(k *kit.K, s *server, seq int) {
	r := k.Sub("large", seq)
	c := request.NewHttpCommunicator()
	size := []int{1 << 20, 3 << 20, 9 << 20, 20 << 20}[seq%4] + r.Intn(1000)
	if k.Thorough() {
		size *= 1 + r.Intn(4)
	}
	id := fmt.Sprintf("large-%d-%d", k.Seed, seq)
	m := mk(tEcho, body{ID: id, Pad: strings.Repeat("l", size)})
	want := "A " + fakes.Canon(m)
	ans, err := c.SendMessage("127.0.0.1:"+s.a, m)
	k.Eval("large/" + id)
	k.Count("large messages", 1)
	if calls := s.calls(id); len(calls) != 1 || calls[0] != want {
		k.Violate("large:dispatch", size, "a message with %d bytes reached %d handlers, or not as it was sent (answer error: %v)", size, len(calls), err)
		return
	}
	if err != nil || parse(ans).ID != id || len(parse(ans).Pad) != size {
		k.Violate("large:answer", size, "a message with %d bytes got no such answer: %v", size, err)
	}
}

// raw posts anything.
func raw(k *kit.K, s *server, r *rand.Rand, i int) {
	tr := &http.Transport{DisableKeepAlives: r.Intn(2) == 0}
	defer tr.CloseIdleConnections()
	cl := &http.Client{Transport: tr, Timeout: 60 * time.Second}
	id := fmt.Sprintf("raw-%d-%d", k.Seed, i)
	good, err := mk(tEcho, body{ID: id}).FCRMsgToBytes()
	fakes.Must(err)
	path, method, data, ok := "/v1", "POST", good, false
	what := ""
	switch n := r.Intn(12); n {
	case 0:
		what, data = "empty", nil
	case 1:
		what, data = "cut", good[:r.Intn(len(good)-1)+1]
	case 2:
		what, data = "not JSON", []byte(fakes.RandString(r)+"<html>")
	case 3:
		what, data = "wrong shape", []byte([]string{"[]", "12", "\"x\"", "true", `{"message_type":"x"}`, `{"message_type":1e30}`, `{"message_body":5}`, `[` + string(good) + `]`, `{"message_type":9101.5}`}[r.Intn(9)])
	case 4:
		what, data = "two messages", append(append([]byte{}, good...), good...)
	case 5:
		what, path = "path", []string{"/", "/v2", "/v1/x", "/v11", "/V1"}[r.Intn(5)]
	case 6:
		what, method = "method", []string{"GET", "PUT", "DELETE", "PATCH"}[r.Intn(4)]
	case 7, 8:
		what, ok = "good", true
	case 9:
		what, ok = "good, padded with space", true
		data = append(append([]byte(" \n\t"), good...), "\n "...)
	case 10: // body cut by the sender
		what = "broken off"
		c, err := net.Dial("tcp", "127.0.0.1:"+s.a)
		fakes.Must(err)
		fmt.Fprintf(c, "POST /v1 HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n", len(good)+r.Intn(5)+1)
		c.Write(good)
		c.(*net.TCPConn).CloseWrite()
		c.SetReadDeadline(time.Now().Add(60 * time.Second))
		res, _ := io.ReadAll(c)
		c.Close()
		k.Eval("raw/" + id)
		k.Count("raw "+what, 1)
		if n := len(s.calls(id)); n != 0 {
			k.Violate("raw:"+what, id, "a message broken off by its sender reached %d handlers; response %.200q", n, res)
		}
		return
	case 11:
		what = "deep"
		data = bytes.Repeat([]byte("["), 20000)
	}
	rep := map[string]interface{}{"what": what, "method": method, "path": path, "data": fmt.Sprintf("%.300q", data)}
	q, err := http.NewRequest(method, "http://127.0.0.1:"+s.a+path, bytes.NewReader(data))
	fakes.Must(err)
	if ok || r.Intn(2) == 0 {
		q.Header.Set("Content-Type", "application/json")
	}
	before := 0
	s.mu.Lock()
	before = len(s.odd)
	s.mu.Unlock()
	res, err := cl.Do(q)
	k.Eval("raw/" + id)
	k.Count("raw "+what, 1)
	if err != nil {
		k.Violate("raw:"+what+":no-response", rep, "no response to %s: %v", what, err)
		return
	}
	defer res.Body.Close()
	out, _ := io.ReadAll(res.Body)
	calls := s.calls(id)
	if ok {
		m, err := fcrmessages.FCRMsgFromBytes(out)
		if res.StatusCode != 200 || len(calls) != 1 || err != nil || parse(m).ID != id {
			k.Violate("raw:good", rep, "%s: status %d, %d calls, answer %.200q", what, res.StatusCode, len(calls), out)
		}
		return
	}
	if res.StatusCode < 400 || res.StatusCode > 499 || len(calls) != 0 {
		k.Violate("raw:"+what, rep, "%s: want an error status and no handler called; got status %d, %d handlers called, answer %.200q", what, res.StatusCode, len(calls), out)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.odd) > before {
		k.Violate("raw:handler-got-garbage", rep, "a handler was given a message nobody sent: %v", s.odd)
	}
}

// faulty: what the sending side makes of a peer that misbehaves.
func faulty(k *kit.K, r *rand.Rand, n int) {
	good, err := mk(tEcho, body{ID: "g"}).FCRMsgToBytes()
	fakes.Must(err)
	var mu sync.Mutex
	mode, status := "", 200
	posts := 0
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		io.Copy(io.Discard, q.Body)
		mu.Lock()
		m, st := mode, status
		posts++
		mu.Unlock()
		switch m {
		case "status":
			w.WriteHeader(st)
			w.Write(good)
		case "cut":
			w.Header().Set("Content-Length", fmt.Sprint(len(good)+10))
			w.Write(good)
		case "hang-up":
			c, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				c.Close()
			}
		case "garbage":
			w.Write([]byte([]string{"", "x", "[]", "12", "\"a\"", string(good[:len(good)/2]), string(good) + "x", `{"message_type":"y"}`}[st%8]))
		default:
			w.Write(good)
		}
	})}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	fakes.Must(err)
	go srv.Serve(ln)
	defer srv.Close()
	addr := ln.Addr().String()
	c := request.NewHttpCommunicator()
	base := -1
	for i := 0; i < n && k.Violations() == 0; i++ {
		set := func(m string, st int) { mu.Lock(); mode, status, posts = m, st, 0; mu.Unlock() }
		op := r.Intn(6)
		m, st := "", 200
		switch op {
		case 0:
			m, st = "status", []int{400, 401, 402, 404, 418, 500, 502, 503}[r.Intn(8)]
		case 1:
			m = "cut"
		case 2:
			m = "hang-up"
		case 3:
			m, st = "garbage", r.Intn(8)
		}
		set(m, st)
		rep := map[string]interface{}{"peer": m, "status": st}
		k.Eval(fmt.Sprintf("faulty/%s/%d/%d", m, st, i))
		k.Count("peer "+m, 1)
		ans, err := c.SendMessage(addr, mk(tEcho, body{ID: "q"}))
		if m == "" && (err != nil || parse(ans).ID != "g") {
			k.Violate("sender:good", rep, "a good answer was not returned: %v %v", ans, err)
		}
		if m != "" && err == nil {
			k.Violate("sender:"+m, rep, "a peer that fails (%s, %d) gave no error but the message type %d body %.100q", m, st, ans.GetMessageType(), ans.GetMessageBody())
		}
		if m == "" || m == "status" {
			for name, f := range map[string]func() error{"SendJSON": func() error { return c.SendJSON("http://"+addr+"/x", map[string]int{"a": 1}) }, "Delete": func() error { return c.Delete("http://" + addr + "/x") }} {
				set(m, st)
				err := f()
				mu.Lock()
				p := posts
				mu.Unlock()
				if (err == nil) != (m == "") || p != 1 {
					k.Violate("sender:"+name, rep, "%s answered with status %d: error %v, %d requests", name, st, err, p)
				}
			}
			set(m, st)
			if d, err := c.GetJSON("http://" + addr + "/x"); m == "" && (err != nil || !bytes.Equal(d, good)) {
				k.Violate("sender:GetJSON", rep, "GetJSON returned %.100q, %v", d, err)
			}
		}
		if i == 20 {
			base = sockets()
		}
	}
	// connections of the sender: a growing number would end in a process without file descriptors
	if base >= 0 && k.Violations() == 0 {
		if !fakes.Eventually(20*time.Second, func() bool { return sockets() <= base+10 }) {
			k.Violate("sender:leak", nil, "%d requests left %d sockets open, where 20 requests had left %d", n, sockets(), base)
		}
		k.Count("leak checks", 1)
	}
	set := "127.0.0.1:" + fakes.FreePort()
	if _, err := c.SendMessage(set, mk(tEcho, body{ID: "q"})); err == nil {
		k.Violate("sender:unreachable", set, "a message to an address nobody listens on gave no error")
	}
}

func startstop(k *kit.K, i int) {
	s := newServer()
	ln, err := net.Listen("tcp", ":"+s.b)
	fakes.Must(err)
	if err := s.srv.Start(); err == nil {
		k.Violate("start:port-taken", nil, "the server reports a start although the port of one of its addresses is taken")
	}
	ln.Close()
	s = newServer()
	fakes.Must(s.srv.Start())
	// usable at once, at both addresses
	for j, p := range []string{s.a, s.b, s.c} {
		id := fmt.Sprintf("st-%d-%d-%d", k.Seed, i, j)
		if _, err := request.NewHttpCommunicator().SendMessage("127.0.0.1:"+p, mk(tEcho, body{ID: id})); err != nil || len(s.calls(id)) != 1 {
			k.Violate("start:not-serving", nil, "address %d of a started server does not serve: %v", j, err)
		}
	}
	if err := s.srv.Start(); err == nil {
		k.Violate("start:twice", nil, "a second start gave no error")
	}
	// handlers cannot be changed once it runs
	s.srv.AddHandler(s.a, tOnlyB, s.handler("late"))
	if _, err := request.NewHttpCommunicator().SendMessage("127.0.0.1:"+s.a, mk(tOnlyB, body{ID: "late"})); err == nil || len(s.calls("late")) != 0 {
		k.Violate("start:late-handler", nil, "a handler added while the server runs took effect")
	}
	k.Eval(fmt.Sprintf("start/%d/%d", k.Seed, i))
}

func main() {
	kit.Main("C11", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		s := newServer()
		k.Guard("start", nil, 60*time.Second, func() {
			if err := s.srv.Start(); err != nil {
				panic("harness: " + err.Error())
			}
		})
		rounds := k.N(4, 60)
		if k.Args["mode"] == "concurrent" {
			rounds = k.N(2, 30)
		}
		for i := 0; i < rounds && k.Violations() == 0; i++ {
			k.Guard("correlation", i, 120*time.Second, func() { correlation(k, s, i) })
		}
		k.Floor("answers", int64(rounds*40))
		k.Floor("refusals", int64(rounds*40))
		if k.Args["mode"] == "concurrent" {
			return
		}
		for i := 0; i < k.N(4, 40) && k.Violations() == 0; i++ {
			k.Guard("large", i, 120*time.Second, func() { large(k, s, i) })
		}
		k.Floor("large messages", 4)
		n := k.N(400, 8000)
		for i := 0; i < n && k.Violations() == 0; i += 40 {
			k.Guard("raw", i, 120*time.Second, func() {
				for j := i; j < i+40; j++ {
					raw(k, s, k.Sub("raw", j), j)
				}
			})
		}
		k.Guard("faulty", nil, 300*time.Second, func() { faulty(k, k.Sub("faulty", 0), k.N(300, 5000)) })
		for i := 0; i < k.N(3, 10) && k.Violations() == 0; i++ {
			k.Guard("startstop", i, 60*time.Second, func() { startstop(k, i) })
		}
		k.Sample("totals", map[string]int{"handler calls": s.total()})
	})
}
