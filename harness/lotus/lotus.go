//go:build go1.22

// Package lotus is a Filecoin node with just enough of a chain for payment channels: accounts, the creation and topping
// up of channels by signed messages with nonces, and the rules of the payment channel actor for redeeming vouchers.
package lotus

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"net/http/httptest"
	"sort"
	"sync"
	"time"

	"github.com/filecoin-project/go-address"
	"github.com/filecoin-project/go-jsonrpc"
	lotusbig "github.com/filecoin-project/go-state-types/big"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/go-state-types/exitcode"
	"github.com/filecoin-project/lotus/api"
	init_ "github.com/filecoin-project/lotus/chain/actors/builtin/init"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"
	"github.com/filecoin-project/lotus/chain/types"
	init4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/init"
	paych4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/paych"
	"github.com/ipfs/go-cid"
	"github.com/minio/blake2b-simd"

	"github.com/filecoin-project/go-crypto"
)

// Account is a key with its address.
type Account struct {
	Priv []byte
	Hex  string
	Addr address.Address
	ID   address.Address
}

// Channel is one payment channel actor.
type Channel struct {
	Addr, ID address.Address
	From, To *Account
	ToAddr   address.Address
	Balance  *big.Int
	State    interface{} // overrides what is read from the chain
	lanes    map[uint64]*lane
	redeemed *big.Int
}

type lane struct {
	nonce    uint64
	redeemed *big.Int
}

// Node is the fake.
type Node struct {
	mu       sync.Mutex
	r        *rand.Rand
	URL      string
	srv      *httptest.Server
	accounts map[string]*Account
	Channels map[string]*Channel
	nonces   map[string]uint64
	receipts map[string]*types.MessageReceipt
	nextID   uint64
	fail     map[string]error
	spare    map[string]int
	delay    time.Duration
	exit     exitcode.ExitCode
	pending  int // receipts are nil for that many reads
	events   []string
	wrong    []string
	onState  func(channel string)
}

// New starts a node.
func New(r *rand.Rand) *Node {
	n := &Node{r: r, accounts: map[string]*Account{}, Channels: map[string]*Channel{}, nonces: map[string]uint64{}, receipts: map[string]*types.MessageReceipt{},
		nextID: 1000, fail: map[string]error{}, spare: map[string]int{}}
	rpc := jsonrpc.NewServer()
	rpc.Register("Filecoin", &rpcAPI{n})
	n.srv = httptest.NewServer(rpc)
	n.URL = n.srv.URL
	return n
}

// Close stops it.
func (n *Node) Close() { n.srv.CloseClientConnections(); n.srv.Close() }

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// NewAccount makes a key known to the chain.
func (n *Node) NewAccount() *Account {
	n.mu.Lock()
	defer n.mu.Unlock()
	priv := make([]byte, 32)
	n.r.Read(priv)
	priv[0] &= 0x7f
	a, err := address.NewSecp256k1Address(crypto.PublicKey(priv))
	must(err)
	n.nextID++
	id, err := address.NewIDAddress(n.nextID)
	must(err)
	acc := &Account{Priv: priv, Hex: hex.EncodeToString(priv), Addr: a, ID: id}
	n.accounts[a.String()] = acc
	n.accounts[id.String()] = acc
	return acc
}

// Open makes a channel without a message.
func (n *Node) Open(from, to *Account, balance *big.Int) *Channel {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.open(from, to.ID, to, balance)
}

func (n *Node) open(from *Account, toAddr address.Address, to *Account, balance *big.Int) *Channel {
	n.nextID++
	id, err := address.NewIDAddress(n.nextID)
	must(err)
	seed := make([]byte, 32)
	n.r.Read(seed)
	rob, err := address.NewActorAddress(seed)
	must(err)
	c := &Channel{Addr: rob, ID: id, From: from, To: to, ToAddr: toAddr, Balance: new(big.Int).Set(balance), lanes: map[uint64]*lane{}, redeemed: new(big.Int)}
	n.Channels[rob.String()] = c
	n.Channels[id.String()] = c
	return c
}

// Do runs under the lock of the node.
func (n *Node) Do(f func()) { n.mu.Lock(); defer n.mu.Unlock(); f() }

// Fail makes calls of a method fail.
func (n *Node) Fail(method string, err error) {
	n.Do(func() {
		if err == nil {
			delete(n.fail, method)
			delete(n.spare, method)
		} else {
			n.fail[method] = err
		}
	})
}

// FailAfter makes calls of a method fail after the next n.
func (n *Node) FailAfter(method string, calls int, err error) {
	n.Do(func() {
		if calls > 0 {
			n.spare[method] = calls
		}
		n.fail[method] = err
	})
}

// Slow delays every call, Exit makes messages fail on the chain, Pending holds receipts back, OnState hooks state reads.
func (n *Node) Slow(d time.Duration)      { n.Do(func() { n.delay = d }) }
func (n *Node) Exit(e int)                { n.Do(func() { n.exit = exitcode.ExitCode(e) }) }
func (n *Node) Pending(k int)             { n.Do(func() { n.pending = k }) }
func (n *Node) OnState(f func(ch string)) { n.Do(func() { n.onState = f }) }
func (n *Node) Wrong() []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]string{}, n.wrong...)
}
func (n *Node) Events() []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]string{}, n.events...)
}
func (n *Node) BalanceOf(c *Channel) *big.Int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return new(big.Int).Set(c.Balance)
}

// Between lists the channels from one account to another.
func (n *Node) Between(from *Account, to *Account) []*Channel {
	n.mu.Lock()
	defer n.mu.Unlock()
	var res []*Channel
	for k, c := range n.Channels {
		if k == c.Addr.String() && c.From == from && c.To == to {
			res = append(res, c)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Addr.String() < res[j].Addr.String() })
	return res
}

func (n *Node) enter(method string) error {
	n.mu.Lock()
	d, err := n.delay, n.fail[method]
	if err != nil && n.spare[method] > 0 {
		n.spare[method]--
		err = nil
	}
	if d > 0 {
		d = time.Duration(n.r.Int63n(int64(d)))
	}
	n.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	return err
}

// Verify checks a secp256k1 signature as the chain does.
func Verify(sig *crypto2.Signature, a address.Address, data []byte) error {
	if sig == nil || sig.Type != crypto2.SigTypeSecp256k1 {
		return errors.New("no secp256k1 signature")
	}
	h := blake2b.Sum256(data)
	pub, err := crypto.EcRecover(h[:], sig.Data)
	if err != nil {
		return err
	}
	b, err := address.NewSecp256k1Address(pub)
	if err != nil {
		return err
	}
	if a != b {
		return errors.New("signed by " + b.String())
	}
	return nil
}

// SignVoucher signs in place.
func (a *Account) SignVoucher(sv *paych.SignedVoucher) {
	sv.Signature = nil
	vb, err := sv.SigningBytes()
	must(err)
	h := blake2b.Sum256(vb)
	s, err := crypto.Sign(a.Priv, h[:])
	must(err)
	sv.Signature = &crypto2.Signature{Type: crypto2.SigTypeSecp256k1, Data: s}
}

// Encode gives the text form of a voucher.
func Encode(sv *paych.SignedVoucher) string {
	buf := new(bytes.Buffer)
	must(sv.MarshalCBOR(buf))
	return base64.RawURLEncoding.EncodeToString(buf.Bytes())
}

// Redeem applies the payment channel actor's rules to a voucher submitted by the recipient, without a secret.
func (n *Node) Redeem(ch string, voucher string) error {
	n.mu.Lock()
	defer n.mu.Unlock()
	c := n.Channels[ch]
	if c == nil {
		return errors.New("no such channel")
	}
	sv, err := paych.DecodeSignedVoucher(voucher)
	if err != nil {
		return err
	}
	sig := sv.Signature
	vb, err := sv.SigningBytes()
	if err != nil {
		return err
	}
	if err := Verify(sig, c.From.Addr, vb); err != nil {
		return err
	}
	if n.Channels[sv.ChannelAddr.String()] != c {
		return errors.New("voucher of another channel")
	}
	if sv.TimeLockMin > 1000 || sv.TimeLockMax != 0 && sv.TimeLockMax < 1000 {
		return errors.New("not at this time")
	}
	if sv.Amount.Sign() < 0 || len(sv.SecretPreimage) > 0 || sv.Extra != nil {
		return errors.New("conditions not met")
	}
	l := c.lanes[sv.Lane]
	if l != nil && l.nonce >= sv.Nonce {
		return fmt.Errorf("outdated nonce %d", sv.Nonce)
	}
	if l == nil {
		l = &lane{redeemed: new(big.Int)}
	}
	others := new(big.Int)
	for _, m := range sv.Merges {
		o := c.lanes[m.Lane]
		if m.Lane == sv.Lane || o == nil || o.nonce >= m.Nonce {
			return errors.New("bad merge")
		}
		others.Add(others, o.redeemed)
	}
	total := new(big.Int).Add(c.redeemed, sv.Amount.Int)
	total.Sub(total, l.redeemed)
	total.Sub(total, others)
	if total.Sign() < 0 || total.Cmp(c.Balance) > 0 {
		return errors.New("not enough in the channel")
	}
	for _, m := range sv.Merges {
		c.lanes[m.Lane].nonce = m.Nonce
	}
	c.lanes[sv.Lane] = &lane{sv.Nonce, new(big.Int).Set(sv.Amount.Int)}
	c.redeemed = total
	return nil
}

// Redeemed tells what the recipient got so far.
func (n *Node) Redeemed(c *Channel) *big.Int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return new(big.Int).Set(c.redeemed)
}

// rpcAPI is what the node offers over JSON-RPC.
type rpcAPI struct{ n *Node }

func (a *rpcAPI) MpoolGetNonce(ctx context.Context, addr address.Address) (uint64, error) {
	if err := a.n.enter("MpoolGetNonce"); err != nil {
		return 0, err
	}
	a.n.mu.Lock()
	defer a.n.mu.Unlock()
	return a.n.nonces[addr.String()], nil
}

func (a *rpcAPI) GasEstimateGasLimit(ctx context.Context, m *types.Message, t types.TipSetKey) (int64, error) {
	return 1000, a.n.enter("GasEstimateGasLimit")
}

func (a *rpcAPI) GasEstimateGasPremium(ctx context.Context, nb uint64, s address.Address, l int64, t types.TipSetKey) (types.BigInt, error) {
	return types.NewInt(7), a.n.enter("GasEstimateGasPremium")
}

func (a *rpcAPI) GasEstimateFeeCap(ctx context.Context, m *types.Message, max int64, t types.TipSetKey) (types.BigInt, error) {
	return types.NewInt(9), a.n.enter("GasEstimateFeeCap")
}

func (a *rpcAPI) MpoolPush(ctx context.Context, sm *types.SignedMessage) (cid.Cid, error) {
	if err := a.n.enter("MpoolPush"); err != nil {
		return cid.Undef, err
	}
	n := a.n
	n.mu.Lock()
	defer n.mu.Unlock()
	m := &sm.Message
	from := n.accounts[m.From.String()]
	if from == nil {
		return cid.Undef, errors.New("unknown sender")
	}
	if err := Verify(&sm.Signature, from.Addr, m.Cid().Bytes()); err != nil {
		n.wrong = append(n.wrong, "message with a wrong signature: "+err.Error())
		return cid.Undef, err
	}
	if m.Nonce != n.nonces[m.From.String()] {
		return cid.Undef, fmt.Errorf("message nonce %d, expected %d", m.Nonce, n.nonces[m.From.String()])
	}
	if m.Value.Int == nil || m.Value.Sign() < 0 {
		return cid.Undef, errors.New("negative value")
	}
	n.nonces[m.From.String()]++
	rc := &types.MessageReceipt{ExitCode: n.exit}
	k := m.Cid().String()
	n.receipts[k] = rc
	if n.exit != 0 {
		n.events = append(n.events, "failed")
		return m.Cid(), nil
	}
	if m.To == init_.Address {
		var ep init4.ExecParams
		var cp paych4.ConstructorParams
		if err := ep.UnmarshalCBOR(bytes.NewReader(m.Params)); err != nil {
			rc.ExitCode = 16
			return m.Cid(), nil
		}
		if err := cp.UnmarshalCBOR(bytes.NewReader(ep.ConstructorParams)); err != nil {
			rc.ExitCode = 16
			return m.Cid(), nil
		}
		if cp.From != m.From {
			n.wrong = append(n.wrong, "channel of another payer")
		}
		to := n.accounts[cp.To.String()]
		if to == nil {
			rc.ExitCode = 17
			return m.Cid(), nil
		}
		c := n.open(from, to.ID, to, m.Value.Int)
		b := new(bytes.Buffer)
		must((&init4.ExecReturn{IDAddress: c.ID, RobustAddress: c.Addr}).MarshalCBOR(b))
		rc.Return = b.Bytes()
		n.events = append(n.events, fmt.Sprintf("create %s %s", cp.To, m.Value))
		return m.Cid(), nil
	}
	if c := n.Channels[m.To.String()]; c != nil && m.Method == 0 {
		c.Balance.Add(c.Balance, m.Value.Int)
		n.events = append(n.events, fmt.Sprintf("topup %s %s", c.ToAddr, m.Value))
		return m.Cid(), nil
	}
	n.wrong = append(n.wrong, fmt.Sprintf("message to %s, method %d", m.To, m.Method))
	rc.ExitCode = 1
	return m.Cid(), nil
}

func (a *rpcAPI) StateGetReceipt(ctx context.Context, c cid.Cid, t types.TipSetKey) (*types.MessageReceipt, error) {
	if err := a.n.enter("StateGetReceipt"); err != nil {
		return nil, err
	}
	a.n.mu.Lock()
	defer a.n.mu.Unlock()
	if a.n.pending > 0 {
		a.n.pending--
		return nil, nil
	}
	return a.n.receipts[c.String()], nil
}

func (a *rpcAPI) StateReadState(ctx context.Context, addr address.Address, t types.TipSetKey) (*api.ActorState, error) {
	err := a.n.enter("StateReadState")
	if err != nil {
		return nil, err
	}
	n := a.n
	n.mu.Lock()
	var res *api.ActorState
	if c := n.Channels[addr.String()]; c != nil {
		res = &api.ActorState{Balance: lotusbig.NewFromGo(c.Balance), State: map[string]interface{}{"From": c.From.ID.String(), "To": c.ToAddr.String(), "ToSend": "0", "SettlingAt": 0, "MinSettleHeight": 0}}
		if c.State != nil {
			res.State = c.State
		}
	} else if acc := n.accounts[addr.String()]; acc != nil {
		res = &api.ActorState{Balance: types.NewInt(1000000), State: map[string]interface{}{"Address": acc.Addr.String()}}
	}
	f := n.onState
	n.mu.Unlock()
	if res == nil {
		return nil, errors.New("actor not found")
	}
	if f != nil {
		f(addr.String())
	}
	return res, nil
}

func (a *rpcAPI) StateAccountKey(ctx context.Context, addr address.Address, t types.TipSetKey) (address.Address, error) {
	if err := a.n.enter("StateAccountKey"); err != nil {
		return address.Undef, err
	}
	a.n.mu.Lock()
	defer a.n.mu.Unlock()
	acc := a.n.accounts[addr.String()]
	if acc == nil {
		return address.Undef, errors.New("no account")
	}
	return acc.Addr, nil
}
