//go:build go1.22

// C10: TCP messaging between nodes. Peers record what they were asked, proxies fragment, delay and cut connections,
// raw connections send frames back to back, in pieces, with false lengths and with frames hidden in bodies.
package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
)

const (
	tEcho = int32(9001) // answers with the body
	tAck  = int32(9002) // answers, then waits for a third message
	tOnly = int32(9003) // registered at the second address only
	tFail = int32(9004) // handler fails
)

type rd = fcrp2pserver.FCRServerReader
type wr = fcrp2pserver.FCRServerWriter
type msg = fcrmessages.FCRMessage

// body is what a test message says.
type body struct {
	ID    string `json:"id"`
	Delay int    `json:"delay,omitempty"` // ms
	Pad   string `json:"pad,omitempty"`
	Ans   bool   `json:"ans,omitempty"`
}

func mk(t int32, b body) *msg {
	j, err := json.Marshal(b)
	fakes.Must(err)
	return fcrmessages.CreateFCRMessage(t, j)
}

func parse(m *msg) body {
	var b body
	json.Unmarshal(m.GetMessageBody(), &b)
	return b
}

func frame(m *msg) []byte {
	d, err := m.FCRMsgToBytes()
	fakes.Must(err)
	l := make([]byte, 4)
	binary.BigEndian.PutUint32(l, uint32(len(d)))
	return append(l, d...)
}

// peer is a server that records what its handlers were given.
type peer struct {
	id       *nodeid.NodeID
	srv      *fcrp2pserver.FCRP2PServer
	a, b     string
	timeout  time.Duration
	mu       sync.Mutex
	seen     map[string]int
	acks     map[string]int
	hold     map[string]chan struct{}
	strange  []string
	inflight int32
	bystand  int32
}

func newPeer(r *rand.Rand, reg *fcrregistermgr.FCRRegisterMgr, timeout time.Duration) *peer {
	p := &peer{id: fakes.NewNode(r), a: fakes.FreePort(), timeout: timeout, seen: map[string]int{}, acks: map[string]int{}, hold: map[string]chan struct{}{}}
	for p.b = fakes.FreePort(); p.b == p.a; p.b = fakes.FreePort() {
	}
	p.srv = fcrp2pserver.NewFCRP2PServer([]string{p.a, p.b}, reg, timeout)
	p.srv.AddHandler(p.a, tEcho, p.echo).AddHandler(p.a, tAck, p.ack).AddHandler(p.a, tFail, p.fail)
	p.srv.AddHandler(p.b, tEcho, p.echo).AddHandler(p.b, tOnly, p.echo)
	p.srv.AddRequester(tEcho, p.reqEcho).AddRequester(tAck, p.reqAck).AddRequester(tFail, p.reqEcho)
	return p
}

func (p *peer) note(m *msg) body {
	b := parse(m)
	p.mu.Lock()
	if b.ID == "" || b.Ans {
		p.strange = append(p.strange, fmt.Sprintf("type %d body %.80q", m.GetMessageType(), m.GetMessageBody()))
	}
	p.seen[b.ID]++
	h := p.hold[b.ID]
	p.mu.Unlock()
	if h != nil {
		<-h
	}
	if b.Delay > 0 {
		time.Sleep(time.Duration(b.Delay) * time.Millisecond)
	}
	return b
}

func (p *peer) echo(_ *rd, w *wr, m *msg) error {
	atomic.AddInt32(&p.inflight, 1)
	defer atomic.AddInt32(&p.inflight, -1)
	b := p.note(m)
	b.Ans = true
	return w.Write(mk(tEcho, b), p.timeout)
}

func (p *peer) ack(r *rd, w *wr, m *msg) error {
	b := p.note(m)
	b.Ans = true
	if err := w.Write(mk(tAck, b), p.timeout); err != nil {
		return err
	}
	m, err := r.Read(p.timeout)
	if err != nil {
		return err
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if c := parse(m); m.GetMessageType() != tAck || c.ID != "ack-"+b.ID {
		p.strange = append(p.strange, fmt.Sprintf("in place of the confirmation of %s: type %d body %.80q", b.ID, m.GetMessageType(), m.GetMessageBody()))
	}
	p.acks[b.ID]++
	return nil
}

func (p *peer) fail(_ *rd, _ *wr, m *msg) error {
	p.note(m)
	return errors.New("handler fails")
}

func (p *peer) reqEcho(r *rd, w *wr, args ...interface{}) (*msg, error) {
	to := args[1].(time.Duration)
	if err := w.Write(args[0].(*msg), to); err != nil {
		return nil, err
	}
	return r.Read(to)
}

func (p *peer) reqAck(r *rd, w *wr, args ...interface{}) (*msg, error) {
	m, err := p.reqEcho(r, w, args...)
	if err != nil {
		return nil, err
	}
	b := parse(args[0].(*msg))
	return m, w.Write(mk(tAck, body{ID: "ack-" + b.ID}), args[1].(time.Duration))
}

func (p *peer) stranger() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.strange) > 0 {
		return p.strange[0]
	}
	return ""
}

// proxy forwards one address with faults.
type proxy struct {
	ln     net.Listener
	r      *rand.Rand
	mu     sync.Mutex
	target string
	cut    int // 1 in cut chunks cuts the connection
	conns  int32
}

func newProxy(r *rand.Rand, target string, cut int) *proxy {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	fakes.Must(err)
	p := &proxy{ln: ln, r: r, target: target, cut: cut}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			atomic.AddInt32(&p.conns, 1)
			u, err := net.Dial("tcp", target)
			if err != nil {
				c.Close()
				continue
			}
			c.(*net.TCPConn).SetNoDelay(true)
			u.(*net.TCPConn).SetNoDelay(true)
			go p.pump(c, u)
			go p.pump(u, c)
		}
	}()
	return p
}

func (p *proxy) rnd(n int) int { p.mu.Lock(); defer p.mu.Unlock(); return p.r.Intn(n) }

func (p *proxy) pump(from, to net.Conn) {
	defer from.Close()
	defer to.Close()
	buf := make([]byte, 4096)
	for {
		n, err := from.Read(buf)
		b := buf[:n]
		for len(b) > 0 {
			k := len(b)
			if p.rnd(3) == 0 {
				k = 1 + p.rnd(len(b))
			}
			if _, e := to.Write(b[:k]); e != nil {
				return
			}
			b = b[k:]
			if len(b) > 0 && p.rnd(4) == 0 {
				time.Sleep(time.Duration(p.rnd(3)) * time.Millisecond)
			}
			if p.cut > 0 && p.rnd(p.cut) == 0 {
				return
			}
		}
		if err != nil {
			return
		}
	}
}

func main() {
	kit.Main("C10", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		reg := fakes.NewRegister()
		mgr := fcrregistermgr.NewFCRRegisterMgr(reg.URL, true, true, time.Hour)
		fakes.Must(mgr.Start())
		if k.Args["mode"] == "concurrent" {
			n := k.N(3, 60)
			for i := 0; i < n && k.Violations() == 0; i++ {
				k.Guard("correlation", i, 100*time.Second, func() { correlation(k, reg, mgr, i) })
			}
			return
		}
		for i := 0; i < k.N(8, 200) && k.Violations() == 0; i++ {
			k.Guard("correlation", i, 100*time.Second, func() { correlation(k, reg, mgr, i) })
		}
		n := k.N(120, 3000)
		for i := 0; i < n && k.Violations() == 0; i += 12 {
			k.Guard("raw", i, 100*time.Second, func() {
				k.Parallel("raw", 12, func(j int) { raw(k, reg, mgr, i+j) })
			})
		}
		for i := 0; i < k.N(4, 60) && k.Violations() == 0; i++ {
			k.Guard("isolation", i, 100*time.Second, func() { isolation(k, reg, mgr, i) })
		}
		for i := 0; i < k.N(4, 60) && k.Violations() == 0; i++ {
			k.Guard("recovery", i, 100*time.Second, func() { recovery(k, reg, mgr, i) })
		}
		k.Guard("large", 0, 100*time.Second, func() { large(k, reg, mgr) })
		k.Guard("bigclaims", 0, 100*time.Second, func() { claims(k, reg, mgr) })
		k.Floor("requests_answered", 500)
		k.Floor("requests_failed", 20)
		k.Floor("raw_frames_sent", 200)
		k.Floor("raw_pauses_inside_a_frame", 8)
		k.Floor("unknown_types_refused", 15)
	})
}

func settle(mgr *fcrregistermgr.FCRRegisterMgr) { mgr.Refresh(); mgr.Refresh() }

// correlation: many goroutines share few connections, some requests time out or fail.
func correlation(k *kit.K, reg *fakes.Register, mgr *fcrregistermgr.FCRRegisterMgr, round int) {
	r := k.Sub("correlation", round)
	long := 5 * time.Second
	a := newPeer(r, mgr, long)
	var peers []*peer
	var kinds []int
	var proxies []*proxy
	key := fakes.KeyFrom(r)
	var steady [3]bool // nothing cuts its connections
	alike := r.Intn(3)
	for i := 0; i < 3; i++ {
		p := newPeer(r, mgr, long)
		if i > 0 && alike > 0 { // identifiers that differ in one place only
			b := append([]byte(nil), peers[0].id.ToBytes()...)
			if alike == 1 {
				b[len(b)-1] ^= byte(i)
			} else {
				b[0] ^= byte(i)
			}
			p.id, _ = nodeid.NewNodeIDFromBytes(b)
		}
		fakes.Must(p.srv.Start())
		addr := "127.0.0.1:" + p.a
		steady[i] = true
		if r.Intn(3) > 0 {
			cut := []int{0, 0, 60, 200}[r.Intn(4)]
			x := newProxy(rand.New(rand.NewSource(r.Int63())), addr, cut)
			steady[i] = cut == 0
			proxies = append(proxies, x)
			addr = x.ln.Addr().String()
		}
		kind := r.Intn(3)
		switch kind {
		case 0:
			reg.SetGateway(fakes.GatewayEntry(p.id.ToString(), key, addr, "127.0.0.1:1", "", ""))
		case 1:
			reg.SetGateway(fakes.GatewayEntry(p.id.ToString(), key, "127.0.0.1:1", addr, "", ""))
		case 2:
			reg.SetProvider(fakes.ProviderEntry(p.id.ToString(), key, addr, "", ""))
		}
		peers = append(peers, p)
		kinds = append(kinds, kind)
	}
	fakes.Must(a.srv.Start())
	settle(mgr)
	type outcome struct {
		peer int
		ack  bool
		ok   bool
	}
	results := map[string]outcome{}
	var mu sync.Mutex
	var order kit.Interleavings
	workers := 8
	seeds := make([]int64, workers)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	k.Parallel("requester", workers, func(w int) {
		rr := rand.New(rand.NewSource(seeds[w]))
		for j := 0; j < 12; j++ {
			pi := rr.Intn(len(peers))
			t := tEcho
			if rr.Intn(3) == 0 {
				t = tAck
			}
			id := fmt.Sprintf("r%d-w%d-%d", round, w, j)
			b := body{ID: id, Pad: strings.Repeat("x", []int{0, 10, 5000, 70000}[rr.Intn(4)])}
			to := long
			switch rr.Intn(8) {
			case 0: // will time out, the answer comes later
				b.Delay = 60
				to = 25 * time.Millisecond
			case 1:
				t = tFail
			}
			m := mk(t, b)
			var res *msg
			var err error
			began := time.Now()
			switch kinds[pi] {
			case 0:
				res, err = a.srv.RequestGatewayFromGateway(peers[pi].id, t, m, to)
			case 1:
				res, err = a.srv.RequestGatewayFromProvider(peers[pi].id, t, m, to)
			case 2:
				res, err = a.srv.RequestProvider(peers[pi].id, t, m, to)
			}
			order.Add(fmt.Sprintf("%d%v", w, err == nil))
			mu.Lock()
			results[id] = outcome{pi, t == tAck, err == nil}
			mu.Unlock()
			if err != nil {
				k.Count("requests_failed", 1)
				k.Eval("fail/" + id)
				if steady[pi] && t != tFail && to == long && kit.Stalled(began) < time.Second {
					k.Violate("correlation:unanswered", id, "a request to a registered peer that runs, over connections nobody cuts, failed: %v", err)
				}
				continue
			}
			k.Count("requests_answered", 1)
			if res == nil {
				k.Violate("correlation:nil", id, "a request succeeded without a response")
				continue
			}
			got := parse(res)
			if got.ID != id || !got.Ans || got.Pad != b.Pad {
				k.Violate("correlation:mixed", id, "request %s got the response of request %q (answer %v, %d bytes of padding instead of %d)", id, got.ID, got.Ans, len(got.Pad), len(b.Pad))
			}
			if t == tFail {
				k.Violate("correlation:failed-handler", id, "a response although the handler gave none")
			}
			k.Eval("ok/" + id)
		}
	})
	for id, o := range results {
		p := peers[o.peer]
		if o.ok && o.ack {
			// the confirmation was sent; unless its connection was cut it arrives
			fakes.Eventually(200*time.Millisecond, func() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.acks[id] > 0 })
		}
		p.mu.Lock()
		n := p.seen[id]
		acks := p.acks[id]
		p.mu.Unlock()
		if n > 1 || o.ok && n != 1 {
			k.Violate("correlation:count", id, "request %s (successful: %v) reached its peer %d times", id, o.ok, n)
		}
		if o.ok && o.ack && acks != 1 {
			k.Count("confirmations_cut", 1)
			if len(proxies) == 0 {
				k.Violate("correlation:confirmation", id, "the confirmation of a successful request arrived %d times over an undisturbed connection", acks)
			}
		}
		for i, q := range peers {
			if i != o.peer {
				q.mu.Lock()
				if q.seen[id] > 0 {
					k.Violate("correlation:misdelivered", id, "request %s reached another peer", id)
				}
				q.mu.Unlock()
			}
		}
	}
	for _, p := range peers {
		if s := p.stranger(); s != "" {
			k.Violate("correlation:strange", s, "a handler was given a message nobody sent: %s", s)
		}
	}
	k.Eval("order/" + order.Key())
	if o := order.Key(); len(o) > 100 {
		k.Sample("order of completion", o[:100])
	}
	for _, x := range proxies {
		x.ln.Close()
	}
}

// large: messages of every size arrive whole.
func large(k *kit.K, reg *fakes.Register, mgr *fcrregistermgr.FCRRegisterMgr) {
	r := k.Sub("large", 0)
	to := 60 * time.Second
	a, p := newPeer(r, mgr, to), newPeer(r, mgr, to)
	fakes.Must(a.srv.Start())
	fakes.Must(p.srv.Start())
	reg.SetProvider(fakes.ProviderEntry(p.id.ToString(), fakes.KeyFrom(r), "127.0.0.1:"+p.a, "", ""))
	settle(mgr)
	sizes := []int{1, 255, 1 << 12, 1 << 16, 1 << 18, 1 << 20, 3 << 20, 17 << 20}
	if k.Thorough() {
		sizes = append(sizes, 40<<20, 150<<20)
	}
	for _, n := range sizes {
		n += r.Intn(50)
		pad := make([]byte, n)
		for i := range pad {
			pad[i] = byte('a' + r.Intn(26))
		}
		b := body{ID: fmt.Sprintf("large%d", n), Pad: string(pad)}
		began := time.Now()
		res, err := a.srv.RequestProvider(p.id, tEcho, mk(tEcho, b), to)
		if err != nil {
			if kit.Stalled(began) < time.Second {
				k.Violate("large:unanswered", b.ID, "a request with a body of %d bytes failed: %v", n, err)
			}
			continue
		}
		if got := parse(res); got.ID != b.ID || got.Pad != b.Pad {
			k.Violate("large:altered", b.ID, "the answer to a request with a body of %d bytes differs from it", n)
		}
		k.Count("large messages", 1)
		k.Eval("large/" + b.ID)
	}
}

// raw talks to a server by hand.
func raw(k *kit.K, reg *fakes.Register, mgr *fcrregistermgr.FCRRegisterMgr, round int) {
	r := k.Sub("raw", round)
	timeout := 250 * time.Millisecond
	kit.Stalled(time.Now())
	start := time.Now()
	p := newPeer(r, mgr, timeout)
	fakes.Must(p.srv.Start())
	port := p.a
	second := r.Intn(3) == 0
	if second {
		port = p.b
	}
	c, err := net.Dial("tcp", "127.0.0.1:"+port)
	fakes.Must(err)
	defer c.Close()
	c.(*net.TCPConn).SetNoDelay(true)
	var plan []string
	type want struct {
		id      string
		invalid bool
	}
	var wants []want
	var stream []byte
	pauses := map[int]bool{} // offsets to pause at for longer than the timeout
	torn := -1               // index of the first want behind a pause inside a frame, or a broken frame
	var ends []int           // where each message ends
	spaced := 0              // where one ends that has space behind it
	n := 1 + r.Intn(6)
	closes := false
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("raw%d-%d", round, i)
		b := body{ID: id}
		switch r.Intn(4) {
		case 0:
			b.Pad = strings.Repeat("p", r.Intn(9000))
		case 1: // a frame inside the body: it must never be handled
			in := frame(mk(tEcho, body{ID: "smuggled"}))
			b.Pad = strings.Repeat(string(in), 1+r.Intn(3))
		}
		t := tEcho
		inv := false
		switch r.Intn(8) {
		case 0:
			t = 8999
			inv = true
		case 1:
			t = tOnly
			inv = !second
		case 2:
			t = tFail
			inv = second
			if !second {
				closes = true
			}
		}
		f := frame(mk(t, b))
		at := len(stream)
		if r.Intn(4) == 0 { // space behind the message, which belongs to it
			f = append(f, strings.Repeat(" ", 1+r.Intn(3000))...)
			binary.BigEndian.PutUint32(f, uint32(len(f)-4))
			spaced = at + len(f)
		}
		switch x := r.Intn(14); {
		case x == 3 && torn < 0:
			// a pause within the length; what comes next looks like a message, but is inside of this one
			f = append([]byte{0, 1}, frame(mk(tEcho, body{ID: "smuggled"}))...)
			f = append(f, make([]byte, 65536+4-len(f))...)
			pauses[at+2] = true
			torn = len(wants)
			plan = append(plan, fmt.Sprintf("%s with a pause inside its length", id))
			k.Count("raw_pauses_inside_a_frame", 1)
		case x == 0 && torn < 0:
			pauses[at+1+r.Intn(len(f)-1)] = true
			torn = len(wants)
			plan = append(plan, fmt.Sprintf("%s type %d with a pause inside", id, t))
			k.Count("raw_pauses_inside_a_frame", 1)
		case x == 1:
			pauses[at] = true
			plan = append(plan, fmt.Sprintf("pause, %s type %d", id, t))
		case x == 2 && torn < 0:
			f = append([]byte{0, 0, 0, byte(r.Intn(4))}, f...)
			torn = len(wants)
			plan = append(plan, "a false frame before "+id)
		default:
			plan = append(plan, fmt.Sprintf("%s type %d", id, t))
		}
		stream = append(stream, f...)
		wants = append(wants, want{id, inv})
		ends = append(ends, len(stream))
		k.Count("raw_frames_sent", 1)
		if closes {
			break
		}
	}
	cutoff := r.Intn(12) == 0
	if cutoff {
		cut := r.Intn(len(stream))
		if spaced > 0 && r.Intn(2) == 0 {
			cut = spaced - 1
		}
		stream = stream[:cut]
		plan = append(plan, fmt.Sprintf("cut at %d", cut))
	}
	go func() {
		chunk := r.Intn(3)
		for off := 0; off < len(stream); {
			end := len(stream)
			if chunk == 1 && r.Intn(2) == 0 {
				end = off + 1 + r.Intn(len(stream)-off)
			}
			for o := range pauses {
				if o > off && o < end {
					end = o
				}
			}
			if pauses[off] {
				time.Sleep(timeout * 5 / 2)
				delete(pauses, off)
			}
			if _, err := c.Write(stream[off:end]); err != nil {
				return
			}
			off = end
		}
		if cutoff {
			c.(*net.TCPConn).CloseWrite()
		}
	}()
	// answers
	i := 0
	for ; i < len(wants); i++ {
		if closes && i == len(wants)-1 {
			break
		}
		c.SetReadDeadline(time.Now().Add(20 * time.Second))
		l := make([]byte, 4)
		if _, err := io.ReadFull(c, l); err != nil {
			break
		}
		d := make([]byte, binary.BigEndian.Uint32(l))
		if _, err := io.ReadFull(c, d); err != nil {
			break
		}
		m, err := fcrmessages.FCRMsgFromBytes(d)
		if err != nil {
			k.Violate("raw:answer", plan, "answer %d is no message: %v", i, err)
			return
		}
		if wants[i].invalid {
			if m.GetMessageType() != fcrmessages.InvalidMessageResponseType {
				k.Violate("raw:unknown", plan, "a message of a type without a handler at this address was answered with type %d", m.GetMessageType())
				return
			}
			k.Count("unknown_types_refused", 1)
			continue
		}
		if b := parse(m); b.ID != wants[i].id || !b.Ans {
			k.Violate("raw:order", plan, "answer %d is for %q, expected %q", i, b.ID, wants[i].id)
			return
		}
	}
	expect := len(wants)
	if closes {
		expect--
	}
	if kit.Stalled(start) > timeout/4 {
		k.Count("conversations_not_judged", 1)
	} else if !cutoff {
		if torn >= 0 && torn < expect {
			if i < torn {
				k.Violate("raw:lost", plan, "only %d of the %d messages before the broken one were answered", i, torn)
			}
		} else if i != expect {
			k.Violate("raw:lost", plan, "only %d of %d messages were answered, although none was broken or late", i, expect)
		}
	}
	time.Sleep(time.Millisecond)
	if s := p.stranger(); s != "" {
		k.Violate("raw:strange", plan, "a handler was given something nobody sent as a message: %s", s)
	}
	p.mu.Lock()
	if p.seen["smuggled"] > 0 {
		k.Violate("raw:smuggled", plan, "bytes inside a message were handled as a message")
	}
	for i, w := range wants {
		if p.seen[w.id] > 0 && ends[i] > len(stream) {
			k.Violate("raw:cut", plan, "%s was handled, although its end never arrived", w.id)
		}
	}
	for id, n := range p.seen {
		if n > 1 {
			k.Violate("raw:twice", plan, "%s was handled %d times", id, n)
		}
	}
	p.mu.Unlock()
	k.Eval("raw/" + strings.Join(plan, ";"))
	k.Sample("raw conversation", plan)
}

// isolation: while one peer does not answer, others are reached, also while connections are being dropped.
func isolation(k *kit.K, reg *fakes.Register, mgr *fcrregistermgr.FCRRegisterMgr, round int) {
	r := k.Sub("isolation", round)
	long := 40 * time.Second
	a := newPeer(r, mgr, long)
	slow, quick := newPeer(r, mgr, long), newPeer(r, mgr, long)
	key := fakes.KeyFrom(r)
	prov := r.Intn(2) == 0
	for _, p := range []*peer{slow, quick} {
		fakes.Must(p.srv.Start())
		if prov {
			reg.SetProvider(fakes.ProviderEntry(p.id.ToString(), key, "127.0.0.1:"+p.a, "", ""))
		} else {
			reg.SetGateway(fakes.GatewayEntry(p.id.ToString(), key, "127.0.0.1:"+p.a, "", "", ""))
		}
	}
	fakes.Must(a.srv.Start())
	settle(mgr)
	req := func(p *peer, t int32, b body, to time.Duration) (*msg, error) {
		if prov {
			return a.srv.RequestProvider(p.id, t, mk(t, b), to)
		}
		return a.srv.RequestGatewayFromGateway(p.id, t, mk(t, b), to)
	}
	release := make(chan struct{})
	slow.mu.Lock()
	slow.hold["held"] = release
	slow.mu.Unlock()
	var wg sync.WaitGroup
	// one that fails before, so that its removal meets the held request
	if _, err := req(slow, tFail, body{ID: "failing"}, long); err == nil {
		k.Violate("isolation:fail", nil, "a request succeeded whose handler fails")
	}
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			id := "held"
			t := tEcho
			if i > 0 {
				id = fmt.Sprint("behind", i)
				t = []int32{tEcho, tFail}[i%2]
			}
			req(slow, t, body{ID: id}, long)
		}(i)
	}
	fakes.Eventually(10*time.Second, func() bool {
		slow.mu.Lock()
		defer slow.mu.Unlock()
		return slow.seen["held"] > 0 || slow.seen["behind1"] > 0
	})
	// the slow peer is busy now; it is released only after the others were served
	for i := 0; i < 20; i++ {
		id := fmt.Sprintf("q%d-%d", round, i)
		t := tEcho
		if i%7 == 3 {
			t = tFail
		}
		m, err := req(quick, t, body{ID: id}, 20*time.Second)
		if t == tEcho && err != nil {
			k.Violate("isolation:blocked", nil, "a request to a responsive peer failed while another peer was slow: %v", err)
			break
		}
		if t == tEcho && parse(m).ID != id {
			k.Violate("isolation:mixed", nil, "wrong response")
		}
		k.Count("requests_beside_a_slow_peer", 1)
		k.Eval("iso/" + id)
	}
	close(release)
	wg.Wait()
}

// recovery: after a peer dropped the connection, at most one more request fails; unresponsive peers give an error.
func recovery(k *kit.K, reg *fakes.Register, mgr *fcrregistermgr.FCRRegisterMgr, round int) {
	r := k.Sub("recovery", round)
	a := newPeer(r, mgr, 5*time.Second)
	p := newPeer(r, mgr, 5*time.Second)
	fakes.Must(p.srv.Start())
	px := newProxy(rand.New(rand.NewSource(r.Int63())), "127.0.0.1:"+p.a, 0)
	defer px.ln.Close()
	key := fakes.KeyFrom(r)
	reg.SetGateway(fakes.GatewayEntry(p.id.ToString(), key, px.ln.Addr().String(), "", "", ""))
	if _, err := a.srv.RequestGatewayFromGateway(p.id, tEcho, mk(tEcho, body{ID: "early"}), time.Second); err == nil {
		k.Violate("recovery:notstarted", nil, "a server that was not started sent a request")
	}
	fakes.Must(a.srv.Start())
	settle(mgr)
	if err := a.srv.Start(); err == nil {
		k.Violate("recovery:twice", nil, "a server was started twice")
	}
	fails := 0
	for i := 0; i < 25; i++ {
		id := fmt.Sprintf("rec%d-%d", round, i)
		switch r.Intn(4) {
		case 0:
			a.srv.RequestGatewayFromGateway(p.id, tFail, mk(tFail, body{ID: id}), 5*time.Second)
			fails = 0
			continue
		case 1:
			t0 := time.Now()
			_, err := a.srv.RequestGatewayFromGateway(p.id, tEcho, mk(tEcho, body{ID: id, Delay: 80}), 20*time.Millisecond)
			if err == nil && time.Since(t0) > 5*time.Second {
				k.Violate("recovery:timeout", nil, "a request waited %v for its response, its timeout is 20 ms", time.Since(t0))
			}
			k.Count("unresponsive", 1)
			continue
		}
		m, err := a.srv.RequestGatewayFromGateway(p.id, tEcho, mk(tEcho, body{ID: id}), 5*time.Second)
		k.Eval("rec/" + id)
		if err != nil {
			fails++
			k.Count("requests_failed", 1)
			if fails > 1 {
				k.Violate("recovery:stuck", nil, "a peer that is up again is not reached: %v", err)
				return
			}
			continue
		}
		fails = 0
		k.Count("requests_answered", 1)
		if parse(m).ID != id {
			k.Violate("recovery:mixed", nil, "request %s got the response of %s", id, parse(m).ID)
		}
	}
	if _, err := a.srv.RequestGatewayFromGateway(p.id, 7777, mk(7777, body{ID: "x"}), time.Second); err == nil {
		k.Violate("recovery:requester", nil, "a request of a type without a requester succeeded")
	}
	if _, err := a.srv.RequestProvider(fakes.NewNode(r), tEcho, mk(tEcho, body{ID: "x"}), time.Second); err == nil {
		k.Violate("recovery:unknown", nil, "a request to an unknown provider succeeded")
	}
}

func rss() int {
	b, _ := os.ReadFile("/proc/self/status")
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "VmHWM:") {
			n, _ := strconv.Atoi(strings.Fields(l)[1])
			return n
		}
	}
	return 0
}

// claims: lengths that are claimed but not sent cost nothing.
func claims(k *kit.K, reg *fakes.Register, mgr *fcrregistermgr.FCRRegisterMgr) {
	r := k.Sub("claims", 0)
	p := newPeer(r, mgr, 10*time.Second)
	fakes.Must(p.srv.Start())
	runtime.GC()
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	var cs []net.Conn
	for i := 0; i < 6; i++ {
		c, err := net.Dial("tcp", "127.0.0.1:"+p.a)
		fakes.Must(err)
		c.Write([]byte{0x10, 0, 0, 0, 'x'}) // 256 MB
		cs = append(cs, c)
	}
	time.Sleep(300 * time.Millisecond)
	runtime.ReadMemStats(&b)
	if d := int64(b.TotalAlloc) - int64(a.TotalAlloc); d > 400<<20 {
		k.Violate("claims:memory", nil, "six connections that sent 5 bytes each made the server allocate %d MB", d>>20)
	}
	k.Count("claimed_lengths", 6)
	for _, c := range cs {
		c.Close()
	}
	// the server still serves
	c, err := net.Dial("tcp", "127.0.0.1:"+p.a)
	fakes.Must(err)
	defer c.Close()
	c.Write(frame(mk(tEcho, body{ID: "after"})))
	c.SetReadDeadline(time.Now().Add(20 * time.Second))
	l := make([]byte, 4)
	if _, err := io.ReadFull(c, l); err != nil {
		k.Violate("claims:dead", nil, "the server does not answer after false lengths: %v", err)
	}
	_ = register.NewGatewayRegister
}
