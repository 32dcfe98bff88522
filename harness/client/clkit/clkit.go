//go:build go1.22

// Package clkit is a world for the client library: gateways and providers that answer over HTTP as they are told to, a
// register and a chain.
package clkit

import (
	"encoding/json"
	"io"
	"math"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/lotus"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
)

// Reply is what comes back for a request.
type Reply struct {
	Msg    *svc.Msg
	Status int    // 200 if 0
	Raw    []byte // instead of the message
	Cut    bool   // the connection is closed
}

// Server answers messages over HTTP.
type Server struct {
	*svc.Party
	Addr string

	mu  sync.Mutex
	srv *httptest.Server
	f   func(m *svc.Msg) *Reply
	got int
	bad []string
}

// NewServer starts one.
func NewServer(r *rand.Rand) *Server {
	s := &Server{Party: svc.NewParty(r)}
	s.srv = httptest.NewServer(s)
	s.Addr = strings.TrimPrefix(s.srv.URL, "http://")
	return s
}

// Close stops it.
func (s *Server) Close() { s.srv.CloseClientConnections(); s.srv.Close() }

// Answer tells how to answer.
func (s *Server) Answer(f func(m *svc.Msg) *Reply) { s.mu.Lock(); s.f = f; s.mu.Unlock() }

// Got counts requests since the last time.
func (s *Server) Got() int { s.mu.Lock(); defer s.mu.Unlock(); n := s.got; s.got = 0; return n }

// Bad lists requests that are no messages.
func (s *Server) Bad() []string { s.mu.Lock(); defer s.mu.Unlock(); return s.bad }

func (s *Server) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	b, _ := io.ReadAll(q.Body)
	m := &fcrmessages.FCRMessage{}
	err := json.Unmarshal(b, m)
	s.mu.Lock()
	s.got++
	if err != nil || q.URL.Path != "/v1" || q.Method != "POST" {
		s.bad = append(s.bad, q.Method+" "+q.URL.Path+" "+string(b))
	}
	f := s.f
	s.mu.Unlock()
	var a *Reply
	if err == nil && f != nil {
		a = f(m)
	}
	if a == nil {
		a = &Reply{Status: 500}
	}
	if a.Cut {
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			c.Close()
		}
		return
	}
	w.Header().Set("Content-Type", "application/json")
	if a.Status != 0 {
		w.WriteHeader(a.Status)
	}
	if a.Msg != nil {
		a.Raw, err = json.Marshal(a.Msg)
		fakes.Must(err)
	}
	w.Write(a.Raw)
}

// Gate is a gateway with a wallet.
type Gate struct {
	*Server
	Acc   *lotus.Account
	Entry *register.GatewayRegister
}

// NewGate makes one; it is not in the register yet.
func NewGate(r *rand.Rand, chain *lotus.Node) *Gate {
	g := &Gate{Server: NewServer(r), Acc: chain.NewAccount()}
	g.Entry = fakes.GatewayEntry(g.ID.ToString(), g.Key, "127.0.0.1:1", "127.0.0.1:1", g.Addr, "127.0.0.1:1")
	g.Entry.Address = g.Acc.Addr.String()
	return g
}

// Redeem cashes a voucher and tells what came of it; nil if it is good for nothing.
func (g *Gate) Redeem(chain *lotus.Node, from *lotus.Account, ch, voucher string) (*big.Int, string) {
	var c *lotus.Channel
	chain.Do(func() { c = chain.Channels[ch] })
	if c == nil {
		return nil, "no such channel"
	}
	if c.From != from || c.To != g.Acc {
		return nil, "a channel between others"
	}
	before := chain.Redeemed(c)
	if err := chain.Redeem(ch, voucher); err != nil {
		return nil, err.Error()
	}
	return new(big.Int).Sub(chain.Redeemed(c), before), ""
}

// Faults are the ways an answer can be spoilt.
var Faults = []string{"unsigned", "stranger", "altered", "nonce", "cid", "kind", "refusal", "garbage", "status", "empty", "cut"}

// Shifts that make another nonce altogether, see Shift.
const (
	NonceZero = math.MinInt64 + iota
	NonceNegative
	NonceLow
	NonceOne
)

// Shift is a nonce that is not the one asked with.
func Shift(nonce, shift int64) int64 {
	n := nonce + shift
	switch shift {
	case NonceZero:
		n = 0
	case NonceNegative:
		n = -nonce
	case NonceLow:
		n = int64(uint32(nonce))
	case NonceOne:
		n = 1
	}
	if n == nonce && shift != 0 {
		n++
	}
	return n
}

// Spoil makes an answer wrong; build makes the right one, for any CID and nonce shift.
func Spoil(r *rand.Rand, how string, by, stranger *svc.Party, build func(cidShift bool, nonceShift int64) (*svc.Msg, error)) *Reply {
	sign := func(p *svc.Party, m *svc.Msg, err error) *svc.Msg {
		fakes.Must(err)
		fakes.Must(m.Sign(p.Key, p.Ver))
		return m
	}
	switch how {
	case "":
		m, err := build(false, 0)
		return &Reply{Msg: sign(by, m, err)}
	case "unsigned":
		m, err := build(false, 0)
		fakes.Must(err)
		return &Reply{Msg: m}
	case "stranger":
		m, err := build(false, 0)
		return &Reply{Msg: sign(stranger, m, err)}
	case "altered":
		m, err := build(false, 0)
		m = sign(by, m, err)
		n, err := build(true, 1)
		fakes.Must(err)
		return &Reply{Msg: svc.Resigned(n, m.GetSignature())}
	case "nonce":
		m, err := build(false, []int64{1, -1, 1 << 40, NonceZero, NonceNegative, NonceLow, NonceOne}[r.Intn(7)])
		return &Reply{Msg: sign(by, m, err)}
	case "cid":
		m, err := build(true, 0)
		return &Reply{Msg: sign(by, m, err)}
	case "kind":
		if r.Intn(2) == 0 { // all of it right, but for the kind
			m, err := build(false, 0)
			fakes.Must(err)
			t := m.GetMessageType()
			for t == m.GetMessageType() {
				t = []int32{0, 1, 5, 99, 100, 101, 102, 103, 104, 105, 108, 110, 200, 300, 400}[r.Intn(15)]
			}
			return &Reply{Msg: sign(by, fcrmessages.CreateFCRMessage(t, m.GetMessageBody()), nil)}
		}
		m, err := fcrmessages.EncodeClientEstablishmentResponse(by.ID, "x")
		return &Reply{Msg: sign(by, m, err)}
	case "refusal":
		m, err := fcrmessages.EncodeInvalidMessageResponse()
		return &Reply{Msg: sign(by, m, err)}
	case "garbage":
		return &Reply{Raw: []byte([]string{"{", "[]", "null", `"x"`, "{\"Error\":\"no\"}", "\x00"}[r.Intn(6)])}
	case "status":
		m, err := build(false, 0)
		return &Reply{Msg: sign(by, m, err), Status: []int{400, 404, 500, 503}[r.Intn(4)]}
	case "empty":
		return &Reply{}
	case "cut":
		return &Reply{Cut: true}
	}
	panic("harness: fault " + how)
}

// Mutated is a message with a hostile body under a genuine signature.
func Mutated(r *rand.Rand, by *svc.Party, m *svc.Msg) *svc.Msg {
	n := fcrmessages.CreateFCRMessage(m.GetMessageType(), fakes.Mutate(r, m.GetMessageBody()))
	fakes.Must(n.Sign(by.Key, by.Ver))
	return n
}
