//go:build go1.22

package fakes

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
)

// Register stands in for the register service.
type Register struct {
	mu        sync.Mutex
	Gateways  []*register.GatewayRegister
	Providers []*register.ProviderRegister
	// Raw, when set, is answered instead of the lists
	RawGateways, RawProviders string
	Status                    int
	Delay                     func()
	Posts                     []string
	Deletes                   int
	Gets                      int
	URL                       string
	srv                       *httptest.Server
}

// NewRegister starts one.
func NewRegister() *Register {
	r := &Register{}
	r.srv = httptest.NewServer(r)
	r.URL = r.srv.URL
	return r
}

// Close stops it.
func (r *Register) Close() { r.srv.CloseClientConnections(); r.srv.Close() }

// Do changes it under its lock.
func (r *Register) Do(f func()) { r.mu.Lock(); defer r.mu.Unlock(); f() }

// SetGateway adds or replaces an entry.
func (r *Register) SetGateway(g *register.GatewayRegister) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i, x := range r.Gateways {
		if x.NodeID == g.NodeID {
			r.Gateways[i] = g
			return
		}
	}
	r.Gateways = append(r.Gateways, g)
}

// SetProvider adds or replaces an entry.
func (r *Register) SetProvider(g *register.ProviderRegister) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i, x := range r.Providers {
		if x.NodeID == g.NodeID {
			r.Providers[i] = g
			return
		}
	}
	r.Providers = append(r.Providers, g)
}

func (r *Register) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	r.mu.Lock()
	delay := r.Delay
	status := r.Status
	r.mu.Unlock()
	if delay != nil {
		delay()
	}
	isG := strings.Contains(q.URL.Path, "/registers/gateway")
	body, _ := io.ReadAll(q.Body)
	r.mu.Lock()
	defer r.mu.Unlock()
	if status != 0 {
		w.WriteHeader(status)
		fmt.Fprint(w, `{"error":"fault injected"}`)
		return
	}
	switch q.Method {
	case "GET":
		r.Gets++
		var out []byte
		switch {
		case isG && r.RawGateways != "":
			out = []byte(r.RawGateways)
		case !isG && r.RawProviders != "":
			out = []byte(r.RawProviders)
		case isG:
			out, _ = json.Marshal(r.Gateways)
		default:
			out, _ = json.Marshal(r.Providers)
		}
		w.Header().Set("Content-Type", "application/json")
		w.Write(out)
	case "POST":
		r.Posts = append(r.Posts, q.URL.Path+" "+string(body))
		if isG {
			var g register.GatewayRegister
			if json.Unmarshal(body, &g) == nil {
				r.Gateways = append(r.Gateways, &g)
			}
		} else {
			var g register.ProviderRegister
			if json.Unmarshal(body, &g) == nil {
				r.Providers = append(r.Providers, &g)
			}
		}
	case "DELETE":
		r.Deletes++
	}
}

var (
	portMu   sync.Mutex
	nextPort int
	// guard of this process's range of ports, and its first port
	portGuard net.Listener
	portBase  int
)

// FreePort finds a port nobody listens on, below those the system gives to outgoing connections.
func FreePort() string {
	const portSlots = 44
	portMu.Lock()
	defer portMu.Unlock()
	if portGuard == nil {
		// The processes of the harness share no port: each holds one of the guard ports 9000..9043, and takes its own from the 500
		// that go with it.
		start := os.Getpid() % portSlots
		for i := 0; i < portSlots && portGuard == nil; i++ {
			slot := (start + i) % portSlots
			if l, err := net.Listen("tcp", "127.0.0.1:"+strconv.Itoa(9000+slot)); err == nil {
				portGuard, portBase = l, 10000+500*slot
			}
		}
		if portGuard == nil {
			panic("harness: no free port range")
		}
	}
	for i := 0; i < 500; i++ {
		p := strconv.Itoa(portBase + nextPort%500)
		nextPort++
		l, err := net.Listen("tcp", ":"+p)
		if err == nil {
			l.Close()
			return p
		}
	}
	panic("harness: no free port")
}

// GatewayEntry makes a register entry; the addresses are those of the gateway, provider, client and admin interface.
func GatewayEntry(id string, key *fcrcrypto.KeyPair, gw, prov, client, admin string) *register.GatewayRegister {
	return &register.GatewayRegister{NodeID: id, Address: "t0", RootSigningKey: PubHex(key), SigningKey: PubHex(key), RegionCode: "AU",
		NetworkInfoGateway: gw, NetworkInfoProvider: prov, NetworkInfoClient: client, NetworkInfoAdmin: admin}
}

// ProviderEntry makes a register entry.
func ProviderEntry(id string, key *fcrcrypto.KeyPair, gw, client, admin string) *register.ProviderRegister {
	return &register.ProviderRegister{NodeID: id, Address: "t0", RootSigningKey: PubHex(key), SigningKey: PubHex(key), RegionCode: "AU",
		NetworkInfoGateway: gw, NetworkInfoClient: client, NetworkInfoAdmin: admin}
}

// Eventually waits for a condition that needs no particular time.
func Eventually(limit time.Duration, f func() bool) bool {
	end := time.Now().Add(limit)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// Junk adds entries that make no sense to the register, as anybody can: their identifiers are none, or their keys or addresses.
// None of them is a gateway with a valid identifier.
func (r *Register) Junk(q *rand.Rand, n int) {
	for ; n > 0; n-- {
		ids := []string{"zz", "0", "GG" + NewNode(q).ToString(), NewNode(q).ToString() + "00", NewNode(q).ToString()[1:], RandString(q) + "x"}
		if q.Intn(2) == 0 {
			ids = append(ids, ids[2][:64], "0x"+ids[3][:62])
		}
		id := ids[q.Intn(len(ids))]
		key := []string{"", "01", "zz", RandString(q), PubHex(KeyFrom(q)), "01" + strings.Repeat("00", 65)}[q.Intn(6)]
		addr := []string{"", "127.0.0.1:1", "127.0.0.1", "nowhere", ":", "::", "127.0.0.1:99999", RandString(q)}[q.Intn(8)]
		if q.Intn(2) == 0 {
			e := GatewayEntry(id, KeyFrom(q), addr, addr, addr, addr)
			e.SigningKey, e.RootSigningKey = key, key
			r.Do(func() {
				r.Gateways = append(r.Gateways, e)
				i := q.Intn(len(r.Gateways))
				r.Gateways[i], r.Gateways[len(r.Gateways)-1] = e, r.Gateways[i]
			})
			continue
		}
		if q.Intn(2) == 0 {
			id = NewNode(q).ToString()
		}
		e := ProviderEntry(id, KeyFrom(q), addr, addr, addr)
		e.SigningKey, e.RootSigningKey = key, key
		r.Do(func() {
			r.Providers = append(r.Providers, e)
			i := q.Intn(len(r.Providers))
			r.Providers[i], r.Providers[len(r.Providers)-1] = e, r.Providers[i]
		})
	}
}
