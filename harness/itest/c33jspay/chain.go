//go:build go1.22

package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
)

// channel is one on the chain.
type channel struct {
	addr, from, to string
	balance        *big.Int
	lanes          map[string]*laneState // as seen in vouchers
	spent          *big.Int
}

type laneState struct {
	nonce int64
	total *big.Int
}

// message is one in the form of a Lotus node.
type message struct {
	Version    uint64
	To, From   string
	Nonce      uint64
	Value      string
	GasLimit   int64
	GasFeeCap  string
	GasPremium string
	Method     uint64
	Params     string
}

type outcome struct {
	exit int
	ch   *channel
}

// chain answers a wallet's requests as a Lotus node does.
type chain struct {
	k        *kit.K
	r        *rand.Rand
	priv     string // base 64
	addr     string
	token    string
	mu       sync.Mutex
	srv      *httptest.Server
	nonce    uint64
	channels map[string]*channel
	results  map[string]outcome
	seq      int
	fault    map[string]int // method: how the next request fails
	slow     bool
	pushed   int // messages that took effect
	trail    []string
}

func newChain(k *kit.K, r *rand.Rand) *chain {
	c := &chain{k: k, r: r, token: "t" + strconv.Itoa(r.Int()), channels: map[string]*channel{}, results: map[string]outcome{}, fault: map[string]int{}}
	c.srv = httptest.NewServer(c)
	if r.Intn(2) == 0 {
		c.nonce = uint64(r.Intn(1000)) // or a wallet that never sent a thing
	}
	return c
}

func (c *chain) do(f func()) { c.mu.Lock(); defer c.mu.Unlock(); f() }

// ways a request fails: an error in the answer, a status, a connection that ends.
const (
	failError = 1 + iota
	failStatus
	failCut
	failExit // the message is on the chain, but did nothing
	failWays = 3
)

func (c *chain) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	var req struct {
		Jsonrpc string
		Method  string
		ID      int
		Params  []json.RawMessage
	}
	err := json.NewDecoder(q.Body).Decode(&req)
	c.mu.Lock()
	wait := time.Duration(0)
	if c.slow {
		wait = time.Duration(c.r.Intn(8)) * time.Millisecond
	}
	c.mu.Unlock()
	time.Sleep(wait)
	c.mu.Lock()
	defer c.mu.Unlock()
	if err != nil || req.Jsonrpc != "2.0" || q.Header.Get("Authorization") != "Bearer "+c.token {
		c.k.Violate("request", req.Method, "the Lotus node got a request it does not take: %s, authorisation %q, %v", req.Method, q.Header.Get("Authorization"), err)
		w.WriteHeader(401)
		return
	}
	name := strings.TrimPrefix(req.Method, "Filecoin.")
	c.trail = append(c.trail, name)
	how := c.fault[name]
	delete(c.fault, name)
	exit := 0
	switch how {
	case failError:
		c.k.Count("failed: "+name, 1)
		json.NewEncoder(w).Encode(map[string]interface{}{"jsonrpc": "2.0", "id": req.ID, "error": map[string]interface{}{"code": 1, "message": "fault injected"}})
		return
	case failStatus:
		c.k.Count("failed: "+name, 1)
		w.WriteHeader(503)
		return
	case failCut:
		c.k.Count("failed: "+name, 1)
		if h, _, err := w.(http.Hijacker).Hijack(); err == nil {
			h.Close()
		}
		return
	case failExit:
		c.k.Count("failed on the chain", 1)
		exit = 1 + c.r.Intn(20)
	}
	v, err := c.answer(name, req.Params, exit)
	a := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID, "result": v}
	if err != nil {
		a = map[string]interface{}{"jsonrpc": "2.0", "id": req.ID, "error": map[string]interface{}{"code": 1, "message": err.Error()}}
	}
	json.NewEncoder(w).Encode(a)
}

func arg(p []json.RawMessage, i int, v interface{}) error {
	if i >= len(p) {
		return fmt.Errorf("too few parameters")
	}
	return json.Unmarshal(p[i], v)
}

func (c *chain) answer(name string, p []json.RawMessage, exit int) (interface{}, error) {
	switch name {
	case "MpoolGetNonce":
		var a string
		if err := arg(p, 0, &a); err != nil || a != c.addr {
			c.k.Violate("nonce-of", a, "the nonce of %q was asked for, the wallet is %q", a, c.addr)
			return nil, fmt.Errorf("no such actor")
		}
		return c.nonce, nil
	case "GasEstimateMessageGas":
		var m message
		if err := arg(p, 0, &m); err != nil {
			return nil, err
		}
		if _, ok := new(big.Int).SetString(m.Value, 10); !ok {
			return nil, fmt.Errorf("bad value")
		}
		m.GasLimit, m.GasFeeCap, m.GasPremium = 1000, "9", "7"
		return m, nil
	case "MpoolPush":
		var s struct {
			Message   message
			Signature struct {
				Type int
				Data string
			}
		}
		if err := arg(p, 0, &s); err != nil {
			return nil, err
		}
		var signed struct {
			Message message
			Priv    string
		}
		b, _ := base64.StdEncoding.DecodeString(s.Signature.Data)
		m := s.Message
		if json.Unmarshal(b, &signed) != nil || signed.Priv != c.priv || !reflect.DeepEqual(signed.Message, m) {
			c.k.Violate("signature", string(p[0]), "a message is not signed by the wallet: %s", p[0])
			return nil, fmt.Errorf("bad signature")
		}
		if m.GasLimit != 1000 || m.GasFeeCap != "9" || m.GasPremium != "7" {
			c.k.Violate("gas", m, "a message goes out with other gas than was estimated: %+v", m)
		}
		if m.From != c.addr || m.Nonce != c.nonce {
			return nil, fmt.Errorf("nonce %d of %s, %d expected", m.Nonce, m.From, c.nonce)
		}
		v, ok := new(big.Int).SetString(m.Value, 10)
		if !ok || v.Sign() < 0 {
			return nil, fmt.Errorf("bad value")
		}
		c.nonce++
		c.seq++
		id := "bafy" + strconv.Itoa(c.seq)
		o := outcome{exit: exit}
		switch {
		case exit != 0:
		case m.Method == 2 && m.To == "t01":
			var x struct{ Create string }
			b, _ := base64.StdEncoding.DecodeString(m.Params)
			if json.Unmarshal(b, &x) != nil || x.Create == "" {
				o.exit = 16
				break
			}
			o.ch = &channel{addr: "t2channel" + strconv.Itoa(c.seq), from: c.addr, to: x.Create, balance: v, lanes: map[string]*laneState{}, spent: new(big.Int)}
			c.channels[o.ch.addr] = o.ch
			c.pushed++
		case m.Method == 0 && c.channels[m.To] != nil:
			ch := c.channels[m.To]
			ch.balance = new(big.Int).Add(ch.balance, v)
			c.pushed++
		default:
			c.k.Violate("message", m, "money went where nobody has it: %+v", m)
			o.exit = 5
		}
		c.results[id] = o
		return map[string]string{"/": id}, nil
	case "StateWaitMsg":
		var x map[string]string
		if err := arg(p, 0, &x); err != nil {
			return nil, err
		}
		o, ok := c.results[x["/"]]
		if !ok {
			return nil, fmt.Errorf("no such message")
		}
		var ret interface{}
		if o.ch != nil {
			ret = map[string]string{"IDAddress": "t0" + o.ch.addr[9:], "RobustAddress": o.ch.addr}
		}
		return map[string]interface{}{"Message": x, "Receipt": map[string]interface{}{"ExitCode": o.exit, "Return": "", "GasUsed": 1}, "ReturnDec": ret, "Height": 5}, nil
	}
	c.k.Violate("method", name, "the Lotus node was asked for %s", name)
	return nil, fmt.Errorf("method not found")
}

// to lists the channels to somebody.
func (c *chain) to(who string) (l []*channel) {
	for _, ch := range c.channels {
		if ch.to == who {
			l = append(l, ch)
		}
	}
	return
}

// voucher is one as the signing tools make it.
type voucher struct {
	Addr, Min, Max, Amount, Lane, Nonce, Settle, Priv string
}

func decode(s string) (v voucher, err error) {
	b, err := base64.RawURLEncoding.DecodeString(s)
	if err != nil {
		return v, err
	}
	if len(b) < 3 {
		return v, fmt.Errorf("too short")
	}
	return v, json.Unmarshal(b[3:], &v)
}

// take is what the recipient does with a voucher; it returns what the voucher adds.
func (c *chain) take(who, addr, text string, lane uint64) (*big.Int, string) {
	v, err := decode(text)
	if err != nil {
		return nil, err.Error()
	}
	ch := c.channels[addr]
	switch {
	case ch == nil:
		return nil, "there is no channel " + addr
	case ch.to != who:
		return nil, "the channel goes to " + ch.to
	case v.Addr != addr:
		return nil, "the voucher is for the channel " + v.Addr
	case v.Priv != c.priv:
		return nil, "not signed by the wallet"
	case v.Min != "0" || v.Max != "0" || v.Settle != "0":
		return nil, "it has conditions"
	case v.Lane != strconv.FormatUint(lane, 10):
		return nil, "it is for lane " + v.Lane
	}
	n, err := strconv.ParseInt(v.Nonce, 10, 64)
	total, ok := new(big.Int).SetString(v.Amount, 10)
	if err != nil || !ok {
		return nil, "its nonce or amount is no number"
	}
	l := ch.lanes[v.Lane]
	if l == nil {
		l = &laneState{nonce: -1, total: new(big.Int)}
		ch.lanes[v.Lane] = l
	}
	if n <= l.nonce {
		return nil, fmt.Sprintf("its nonce is %d, after %d", n, l.nonce)
	}
	d := new(big.Int).Sub(total, l.total)
	l.nonce, l.total = n, total
	ch.spent.Add(ch.spent, d)
	if ch.spent.Cmp(ch.balance) > 0 {
		return nil, fmt.Sprintf("the channel holds %v, vouchers of it come to %v", ch.balance, ch.spent)
	}
	return d, ""
}

func randPriv(r *rand.Rand) (hexKey, b64 string) {
	b := make([]byte, 32)
	r.Read(b)
	b[0] |= 1
	return fmt.Sprintf("%x", b), base64.StdEncoding.EncodeToString(b)
}

func randRecipient(r *rand.Rand) string { return "t1" + fakes.NewNode(r).ToString()[:30] }
