//go:build go1.22

// Package svc runs the real gateway and provider programs as child processes, and speaks their protocols: REST to clients
// and admins, framed TCP between nodes. Peers that answer as the harness says stand in for the other nodes.
package svc

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/lotus"
)

// Msg is a protocol message.
type Msg = fcrmessages.FCRMessage

// Node is one running gateway or provider.
type Node struct {
	K    *kit.K
	Kind string
	ID   *nodeid.NodeID
	Key  *fcrcrypto.KeyPair
	Pub  *fcrcrypto.KeyPair
	Ver  *fcrcrypto.KeyVersion
	Wal  *lotus.Account

	REST, Admin, GW, Prov string // addresses
	Dir                   string

	bin      string
	args     []string
	vals     []string
	mu       sync.Mutex
	cmd      *exec.Cmd
	done     chan struct{}
	stopping atomic.Bool
	exited   atomic.Bool
}

var seq atomic.Int64

// Start runs the program VERIF_BIN_<KIND>. It is not initialised yet.
func Start(k *kit.K, kind string, r *rand.Rand, registerURL string, env map[string]string) *Node {
	bin := os.Getenv("VERIF_BIN_" + strings.ToUpper(kind))
	if bin == "" {
		panic("harness: no program " + kind)
	}
	n := &Node{K: k, Kind: kind, ID: fakes.NewNode(r), Key: fakes.KeyFrom(r), Ver: fcrcrypto.DecodeKeyVersion(uint32(r.Intn(3) + 1))}
	n.Pub = fakes.Pub(n.Key)
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	n.Dir = filepath.Join(base, fmt.Sprintf("%s-%d", kind, seq.Add(1)))
	fakes.Must(os.MkdirAll(n.Dir, 0o755))
	ports := []string{fakes.FreePort(), fakes.FreePort(), fakes.FreePort(), fakes.FreePort()}
	n.REST, n.Admin, n.GW, n.Prov = "127.0.0.1:"+ports[0], "127.0.0.1:"+ports[1], "127.0.0.1:"+ports[2], "127.0.0.1:"+ports[3]
	vals := map[string]string{
		"BIND_REST_API": ports[0], "BIND_ADMIN_API": ports[1], "BIND_GATEWAY_API": ports[2], "BIND_PROVIDER_API": ports[3],
		"LOG_LEVEL": "disabled", "LOG_TARGET": "STDOUT", "REGISTER_API_URL": registerURL, "PROVIDER_SIG_ALG": "1",
		"TCP_INACTIVITY_TIMEOUT": "5s", "TCP_LONG_INACTIVITY_TIMEOUT": "10s",
		"SEARCH_PRICE": "1000", "OFFER_PRICE": "100", "TOPUP_AMOUNT": "100000", "GOTRACEBACK": "all",
	}
	for a, b := range env {
		vals[a] = b
	}
	n.bin = bin
	for a, b := range vals {
		n.vals = append(n.vals, a+"="+b)
	}
	n.launch()
	return n
}

// StartRegister runs the register program on a Redis port.
func StartRegister(k *kit.K, redisPort string) *Node {
	bin := os.Getenv("VERIF_BIN_REGISTER-SERVER")
	if bin == "" {
		panic("harness: no register program")
	}
	n := &Node{K: k, Kind: "register", bin: bin}
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	n.Dir = filepath.Join(base, fmt.Sprintf("register-%d", seq.Add(1)))
	fakes.Must(os.MkdirAll(n.Dir, 0o755))
	port := fakes.FreePort()
	n.REST = "127.0.0.1:" + port
	n.args = []string{"--scheme", "http", "--host", "127.0.0.1", "--port", port}
	n.vals = []string{"REDIS_URL=127.0.0.1", "REDIS_PORT=" + redisPort, "REDIS_PASSWORD=", "LOG_LEVEL=disabled", "GOTRACEBACK=all"}
	n.launch()
	return n
}

func (n *Node) launch() {
	n.stopping.Store(false)
	n.exited.Store(false)
	done := make(chan struct{})
	cmd := exec.Command(n.bin, n.args...)
	cmd.Dir = n.Dir
	cmd.Env = append(os.Environ(), n.vals...)
	errf, err := os.Create(filepath.Join(n.Dir, "stderr"))
	fakes.Must(err)
	cmd.Stderr = errf
	fakes.Must(cmd.Start())
	errf.Close()
	n.mu.Lock()
	n.cmd, n.done = cmd, done
	n.mu.Unlock()
	go func() {
		err := cmd.Wait()
		n.exited.Store(true)
		if !n.stopping.Load() {
			n.died(err)
		}
		close(done)
	}()
	addrs := []string{n.REST}
	if n.Kind != "register" {
		addrs = append(addrs, n.Admin, n.GW)
	}
	if n.Kind == "gateway" {
		addrs = append(addrs, n.Prov)
	}
	ok := fakes.Eventually(30*time.Second, func() bool {
		if n.exited.Load() {
			return true
		}
		for _, a := range addrs {
			c, err := net.DialTimeout("tcp", a, time.Second)
			if err != nil {
				return false
			}
			c.Close()
		}
		return true
	})
	if !ok || n.exited.Load() {
		panic("harness: the " + n.Kind + " did not start: " + n.Stderr())
	}
}

// Kill ends the program at once; its files stay.
func (n *Node) Kill() {
	n.stopping.Store(true)
	n.cmd.Process.Kill()
	<-n.done
}

// Restart starts it again, on the same addresses and files. It has to be initialised again.
func (n *Node) Restart() {
	if n.Alive() {
		n.Kill()
	}
	n.launch()
}

// Stderr is what the program wrote.
func (n *Node) Stderr() string {
	b, _ := os.ReadFile(filepath.Join(n.Dir, "stderr"))
	if len(b) > 60000 {
		b = b[len(b)-60000:]
	}
	return string(b)
}

var (
	panicLine = regexp.MustCompile(`(?m)^(panic: |fatal error: |unexpected fault address|SIGSEGV)`)
	frameLine = regexp.MustCompile(`(?m)^(github\.com/ConsenSys/fc-retrieval/[^\s]*?)\([^()]*\)$`)
)

func (n *Node) died(err error) {
	b, _ := os.ReadFile(filepath.Join(n.Dir, "stderr"))
	text := string(b)
	at := panicLine.FindStringIndex(text)
	if at == nil {
		n.K.Inconclusive("the %s exited (%v) without a panic:\n%s", n.Kind, err, tail(text))
		return
	}
	text = text[at[0]:]
	where := "?"
	for _, g := range strings.Split(text, "\n\n") {
		if strings.HasPrefix(strings.TrimLeft(g, "\n"), "goroutine ") {
			if m := frameLine.FindStringSubmatch(g); m != nil {
				where = strings.TrimPrefix(m[1], "github.com/ConsenSys/fc-retrieval/")
			}
			break
		}
	}
	n.K.Violate("crash:"+n.Kind+":"+where, nil, "the %s crashed:\n%.4000s", n.Kind, text)
}

func tail(s string) string {
	if len(s) > 4000 {
		return s[len(s)-4000:]
	}
	return s
}

// Alive tells whether the program still runs.
func (n *Node) Alive() bool { return !n.exited.Load() }

// Stop kills it.
func (n *Node) Stop() {
	n.Kill()
	os.RemoveAll(n.Dir)
}

// Pid of the program.
func (n *Node) Pid() int { return n.cmd.Process.Pid }

var httpClient = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 32}}

// Answer is what a REST request gave.
type Answer struct {
	Status int
	Msg    *Msg
	Body   string
	Err    error
}

// Refused: answered without a message.
func (a *Answer) Refused() bool { return a.Err == nil && a.Msg == nil }

// Post sends a message to a REST address. A panic inside a handler is a violation.
func (n *Node) Post(addr string, m *Msg) *Answer {
	b, err := json.Marshal(m)
	fakes.Must(err)
	return n.PostBytes(addr, b)
}

// PostBytes sends anything.
func (n *Node) PostBytes(addr string, b []byte) *Answer {
	res, err := httpClient.Post("http://"+addr+"/v1", "application/json", bytes.NewReader(b))
	if err != nil {
		return &Answer{Err: err}
	}
	defer res.Body.Close()
	body, err := io.ReadAll(res.Body)
	if err != nil {
		return &Answer{Err: err}
	}
	a := &Answer{Status: res.StatusCode, Body: string(body)}
	if strings.Contains(a.Body, "runtime/debug.Stack") {
		where := "?"
		for _, m := range regexp.MustCompile(`github\.com/ConsenSys/fc-retrieval/([\w./-]*?)\(`).FindAllStringSubmatch(a.Body, -1) {
			where = m[1]
			break
		}
		n.K.Violate("panic:"+n.Kind+":"+where, string(b), "a request made the handler panic: %s\nrequest %.3000s", strings.ReplaceAll(a.Body, `\n`, "\n"), b)
		return a
	}
	if res.StatusCode == 200 && len(body) > 0 {
		var m Msg
		if err := json.Unmarshal(body, &m); err == nil {
			a.Msg = &m
		}
	}
	return a
}

// InitV1 gives the node its key.
func (n *Node) InitV1() *Answer {
	var m *Msg
	var err error
	if n.Kind == "gateway" {
		m, err = fcrmessages.EncodeGatewayAdminInitialiseKeyRequest(n.ID, n.Key, n.Ver)
	} else {
		m, err = fcrmessages.EncodeProviderAdminInitialiseKeyRequest(n.ID, n.Key, n.Ver)
	}
	fakes.Must(err)
	return n.Post(n.Admin, m)
}

// InitV2 gives the node its key and wallet.
func (n *Node) InitV2(chain *lotus.Node) *Answer {
	if n.Wal == nil {
		n.Wal = chain.NewAccount()
	}
	var m *Msg
	var err error
	if n.Kind == "gateway" {
		m, err = fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(n.ID, n.Key, n.Ver, n.Wal.Hex, chain.URL, "")
	} else {
		m, err = fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(n.ID, n.Key, n.Ver, n.Wal.Hex, chain.URL, "")
	}
	fakes.Must(err)
	return n.Post(n.Admin, m)
}

// MustInit initialises with a wallet, if there is a chain, and demands that it worked.
func (n *Node) MustInit(chain *lotus.Node) *Node {
	var a *Answer
	if chain != nil {
		a = n.InitV2(chain)
	} else {
		a = n.InitV1()
	}
	ok := false
	if a.Msg != nil && a.Msg.Verify(n.Pub) == nil {
		var err error
		if n.Kind == "gateway" {
			ok, err = fcrmessages.DecodeGatewayAdminInitialiseKeyResponse(a.Msg)
		} else {
			ok, err = fcrmessages.DecodeProviderAdminInitialiseKeyResponse(a.Msg)
		}
		ok = ok && err == nil
	}
	if !ok && a.Err != nil && n.Alive() {
		panic(fmt.Sprintf("harness: the running %s could not be reached: %v", n.Kind, a.Err))
	}
	if !ok {
		n.K.Violate("init", nil, "the %s was given its key, and answered %d %.500s %v", n.Kind, a.Status, a.Body, a.Err)
		panic("harness: the node could not be initialised")
	}
	return n
}

// Refresh makes the node read the register.
func (n *Node) Refresh() {
	var m *Msg
	var err error
	if n.Kind == "gateway" {
		m, err = fcrmessages.EncodeGatewayAdminForceRefreshRequest(true)
	} else {
		m, err = fcrmessages.EncodeProviderAdminForceRefreshRequest(true)
	}
	fakes.Must(err)
	fakes.Must(m.Sign(n.Key, n.Ver))
	a := n.Post(n.Admin, m)
	if a.Msg == nil {
		panic(fmt.Sprintf("harness: refresh answered %d %s %v", a.Status, a.Body, a.Err))
	}
}

// Frame is the wire form of a message between nodes.
func Frame(m *Msg) []byte {
	d, err := m.FCRMsgToBytes()
	fakes.Must(err)
	l := make([]byte, 4)
	binary.BigEndian.PutUint32(l, uint32(len(d)))
	return append(l, d...)
}

// Conn is a connection between nodes.
type Conn struct{ C net.Conn }

// Dial connects to a node.
func Dial(addr string) (*Conn, error) {
	c, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if err != nil {
		return nil, err
	}
	return &Conn{c}, nil
}

// Send writes one message.
func (c *Conn) Send(m *Msg) error {
	c.C.SetWriteDeadline(time.Now().Add(20 * time.Second))
	_, err := c.C.Write(Frame(m))
	return err
}

// Recv reads one message.
func (c *Conn) Recv(limit time.Duration) (*Msg, error) {
	c.C.SetReadDeadline(time.Now().Add(limit))
	l := make([]byte, 4)
	if _, err := io.ReadFull(c.C, l); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(l)
	if n > 64<<20 {
		return nil, errors.New("frame too large")
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(c.C, b); err != nil {
		return nil, err
	}
	return fcrmessages.FCRMsgFromBytes(b)
}

// Ask sends a request on a connection of its own and reads the answer.
func Ask(addr string, m *Msg) (*Msg, error) {
	c, err := Dial(addr)
	if err != nil {
		return nil, err
	}
	defer c.C.Close()
	if err := c.Send(m); err != nil {
		return nil, err
	}
	return c.Recv(30 * time.Second)
}

// Quiet stands for no answer, and the connection stays open.
var Quiet = &Msg{}

// Peer is a stand-in for another node.
type Peer struct {
	ID   *nodeid.NodeID
	Key  *fcrcrypto.KeyPair
	Pub  *fcrcrypto.KeyPair
	Ver  *fcrcrypto.KeyVersion
	Wal  *lotus.Account
	Addr string

	mu    sync.Mutex
	ln    net.Listener
	conns map[net.Conn]bool
	Got   []*Msg
	f     func(c *Conn, m *Msg) *Msg
}

// NewPeer listens, and answers each message with what f gives; nil closes the connection.
func NewPeer(r *rand.Rand, f func(c *Conn, m *Msg) *Msg) *Peer {
	p := &Peer{ID: fakes.NewNode(r), Key: fakes.KeyFrom(r), Ver: fcrcrypto.DecodeKeyVersion(uint32(r.Intn(3) + 1)), conns: map[net.Conn]bool{}, f: f}
	p.Pub = fakes.Pub(p.Key)
	var err error
	p.ln, err = net.Listen("tcp", "127.0.0.1:"+fakes.FreePort())
	fakes.Must(err)
	p.Addr = p.ln.Addr().String()
	go func() {
		for {
			c, err := p.ln.Accept()
			if err != nil {
				return
			}
			p.mu.Lock()
			p.conns[c] = true
			p.mu.Unlock()
			go p.serve(&Conn{c})
		}
	}()
	return p
}

func (p *Peer) serve(c *Conn) {
	defer func() {
		p.mu.Lock()
		delete(p.conns, c.C)
		p.mu.Unlock()
		c.C.Close()
	}()
	for {
		m, err := c.Recv(10 * time.Minute)
		if err != nil {
			return
		}
		p.mu.Lock()
		p.Got = append(p.Got, m)
		f := p.f
		p.mu.Unlock()
		a := f(c, m)
		if a == nil {
			return
		}
		if a == Quiet {
			continue
		}
		if c.Send(a) != nil {
			return
		}
	}
}

// Answer changes what the peer answers.
func (p *Peer) Answer(f func(c *Conn, m *Msg) *Msg) { p.mu.Lock(); p.f = f; p.mu.Unlock() }

// Take returns what it was asked since the last time.
func (p *Peer) Take() []*Msg {
	p.mu.Lock()
	defer p.mu.Unlock()
	g := p.Got
	p.Got = nil
	return g
}

// Hangup closes every connection.
func (p *Peer) Hangup() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for c := range p.conns {
		c.Close()
	}
}

// Close stops it.
func (p *Peer) Close() { p.ln.Close(); p.Hangup() }

// Resigned is the same message under another signature.
func Resigned(m *Msg, signature string) *Msg {
	b, err := m.FCRMsgToBytes()
	fakes.Must(err)
	var f map[string]interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	fakes.Must(d.Decode(&f))
	f["message_signature"] = signature
	b, err = json.Marshal(f)
	fakes.Must(err)
	x, err := fcrmessages.FCRMsgFromBytes(b)
	fakes.Must(err)
	return x
}
